package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"time"

	"vjcheck/absint"
)

func main() {
	if f := os.Getenv("VJ_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		code := runCheck(os.Args[2], tier)
		pprof.StopCPUProfile()
		os.Exit(code)
	}
	if len(os.Args) > 1 && os.Args[1] == "fixtures" {
		fixtures()
	}
	if len(os.Args) > 3 && os.Args[1] == "flow" {
		flowdev(os.Args[2], os.Args[3], len(os.Args) > 4)
	}
	if len(os.Args) > 1 && os.Args[1] == "every" {
		for i := 1; i <= 22; i++ {
			id := fmt.Sprintf("C%02d", i)
			fmt.Println(id, "rc", runCheck(id, "quick"))
		}
	}
	if len(os.Args) > 1 && os.Args[1] == "texts" {
		texts()
	}
	if len(os.Args) > 1 && os.Args[1] == "scan" {
		f := ""
		if len(os.Args) > 2 {
			f = os.Args[2]
		}
		scan(f, len(os.Args) > 3)
	}
}

// fixtures is a development aid: it compares the interpreter with committed outputs.
func fixtures() {
	t0 := time.Now()
	p, err := absint.Load(repoDir, "./...")
	if err != nil {
		panic(err)
	}
	fmt.Println("load", time.Since(t0))
	root := "/repo/test/tests/fill"
	files := map[string]string{}
	filepath.Walk(root, func(f string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && (strings.HasSuffix(f, ".go") || strings.HasSuffix(f, "go.mod")) {
			b, _ := os.ReadFile(f)
			files["/w"+strings.TrimPrefix(f, root)] = string(b)
		}
		return nil
	})
	for f := range files {
		b := filepath.Base(f)
		if !strings.HasSuffix(b, ".go") || strings.HasSuffix(b, ".out.go") || strings.HasSuffix(b, "_test.go") || b == "valyjson_utils.go" || filepath.Dir(f) == "/w" {
			continue
		}
		out := f + ".out.go"
		if _, ok := files[out]; !ok {
			continue
		}
		t := time.Now()
		ps := absint.Explore(p, absint.Config{Files: files, Input: f, Output: out})
		for _, pt := range ps {
			same := pt.FS.Files[out] == files[out]
			fmt.Println(f, len(ps), "same", same, "panic", pt.Panic, pt.PanicPos, "abort", pt.Abort, pt.ParseErr, time.Since(t), pt.Steps)
			if !same {
				os.WriteFile("/tmp/vjdev/"+filepath.Base(out), []byte(pt.FS.Files[out]), 0o644)
			}
		}
	}
}
