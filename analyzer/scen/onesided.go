package scen

import (
	_ "embed"
	"os"
	"strings"
	"sync"
)

//go:embed onesided.txt
var oneSidedText string

var oneSidedList = sync.OnceValue(func() map[string]bool {
	m := map[string]bool{}
	for _, l := range strings.Fields(oneSidedText) {
		m[l] = true
	}
	return m
})

// oneSided: the scenario's type is handled with the doc-tag encode (or decode) and not with json.
// VJ_ONESIDED=all lists every candidate, to make the list anew.
func oneSided(id string) bool {
	return os.Getenv("VJ_ONESIDED") == "all" || oneSidedList()[id]
}
