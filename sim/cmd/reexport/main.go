// Command reexport writes a Go file that re-exports the whole API of a
// standard package except for the names given, so that a simulated package can
// stand in for it whatever part of the API the code under test uses.
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

func main() {
	path, name, out := os.Args[1], os.Args[2], os.Args[3]
	skip := map[string]bool{}
	if len(os.Args) > 4 {
		for _, n := range strings.Split(os.Args[4], ",") {
			skip[n] = true
		}
	}
	imp := importer.ForCompiler(token.NewFileSet(), "source", nil)
	pkg, err := imp.Import(path)
	if err != nil {
		panic(err)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by cmd/reexport; DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", name, path)
	names := pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		}
	}
	if err := os.WriteFile(out, []byte(b.String()), 0o644); err != nil {
		panic(err)
	}
}
