package absint

import (
	"go/ast"
	"go/token"
	"path"
	"sort"
	"strings"
)

// VFS is the abstract file system the generator works in.
type VFS struct {
	Files map[string]string
	Orig  map[string]string
	Dirs  map[string]bool
}

func NewVFS(files map[string]string) *VFS {
	v := &VFS{Files: map[string]string{}, Orig: map[string]string{}, Dirs: map[string]bool{"/": true}}
	for n, c := range files {
		n = path.Clean(n)
		v.Files[n] = c
		v.Orig[n] = c
		for d := path.Dir(n); ; d = path.Dir(d) {
			v.Dirs[d] = true
			if d == "/" || d == "." {
				break
			}
		}
	}
	return v
}

func (v *VFS) abs(n string) string {
	if !strings.HasPrefix(n, "/") {
		n = "/w/" + n
	}
	return path.Clean(n)
}

type dent struct {
	name string
	dir  bool
}

func (v *VFS) list(dir string) []dent {
	dir = v.abs(dir)
	seen := map[string]bool{}
	var out []dent
	add := func(full string, isDir bool) {
		if path.Dir(full) == dir && full != dir && !seen[full] {
			seen[full] = true
			out = append(out, dent{path.Base(full), isDir})
		}
	}
	for f := range v.Files {
		add(f, false)
	}
	for d := range v.Dirs {
		add(d, true)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

type handle struct {
	name   string
	data   []value // read side
	off    int
	write  bool
	closed bool
	std    bool
}

// PrintedAST is a tree the generator handed to the Go printer.
type PrintedAST struct {
	File  ast.Node
	Fset  *token.FileSet
	Prov  map[ast.Node]Prov
	Text  string
	Where Prov
}
