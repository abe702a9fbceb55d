# sourced by demo.sh, run in the repository: generates code for types.go, beside this file, in a
# scratch module, and tests it with check_test.go.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/gen" "$T/m"
cat > "$T/gen/main.go" <<'G'
package main

import (
	"os"

	"github.com/iv-menshenin/valyjson/generator"
)

func main() {
	g := generator.New(os.Args[1])
	if err := g.Parse(); err != nil {
		panic(err)
	}
	g.BuildDecoders()
	g.BuildEncoders()
	g.FixImports()
	g.Print(os.Args[1] + ".out.go")
}
G
sed "s#^module .*#module gen#" "$REPO/go.mod" > "$T/gen/go.mod"
printf '\nrequire github.com/iv-menshenin/valyjson v0.0.0\nreplace github.com/iv-menshenin/valyjson => %s\n' "$REPO" >> "$T/gen/go.mod"
cp "$REPO/go.sum" "$T/gen/go.sum"
sed 's#^module .*#module demo#' "$REPO/test/tests/fill/go.mod" > "$T/m/go.mod"
cp "$REPO/test/tests/fill/go.sum" "$T/m/go.sum"
# generate FILE...: builds the generator and runs it on the files of the scratch module
generate() {
	(cd "$T/gen" && go build -o "$T/gen/gen" .)
	for f in "$@"; do
		mkdir -p "$T/m/$(dirname "$f")"
		cp "$HERE/$f" "$T/m/$f"
	done
	for f in "$@"; do
		(cd "$T/m" && "$T/gen/gen" "$f")
	done
}
# check: runs check_test.go against the generated code
check() {
	cp "$HERE/check_test.go.txt" "$T/m/check_test.go"
	(cd "$T/m" && go test -vet=off -count=1 .)
}
