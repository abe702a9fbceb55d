package main

import (
	_ "embed"
	"strings"
	"sync"
)

//go:embed supported.txt
var supportedText string

// supported are the scenarios the generator handled when the list was made.
var supported = sync.OnceValue(func() map[string]bool {
	m := map[string]bool{}
	for _, l := range strings.Fields(supportedText) {
		m[l] = true
	}
	return m
})
