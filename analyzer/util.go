package main

import "go/types"

// methodsOf lists the methods declared on a named type.
func methodsOf(t types.Type) []*types.Func {
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	var out []*types.Func
	for i := 0; i < n.NumMethods(); i++ {
		out = append(out, n.Method(i))
	}
	return out
}
