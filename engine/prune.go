package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// loadErrors carries the type errors of a failed load.
type loadErrors []packages.Error

func (l loadErrors) Error() string {
	var s []string
	for _, e := range l {
		s = append(s, e.Error())
	}
	return "load errors:\n" + strings.Join(s, "\n")
}

// load loads the engine.  A harness declaration that no longer fits the code (it names an internal function
// that was renamed, say) is dropped, with whatever needs it; the rest of the check still runs.
func (b *build) load() (*Engine, error) {
	var pats []string
	for _, p := range b.pkgs {
		pats = append(pats, "./"+p)
	}
	for round := 0; ; round++ {
		eng, err := loadEngine(b.repo, pats, b.files)
		le, ok := err.(loadErrors)
		if eng != nil {
			eng.schedStand = b.sched
		}
		if !ok || round > 12 {
			return eng, err
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, le)
		}
		if !b.prune(le) {
			return nil, err
		}
		left := 0
		for _, h := range b.harnesses {
			left += len(h)
		}
		if left == 0 {
			return nil, err
		}
	}
}

// prune blanks the harness declarations that errors point at; false when there are none.
func (b *build) prune(errs loadErrors) bool {
	hit := map[string][]int{}
	for _, e := range errs {
		p := strings.Split(e.Pos, ":")
		if len(p) < 2 {
			continue
		}
		if base := filepath.Base(p[0]); strings.HasPrefix(base, "zz_vf_") && base != "zz_vf_api.go" {
			n, _ := strconv.Atoi(p[1])
			hit[p[0]] = append(hit[p[0]], n)
		}
	}
	done := false
	for file, lines := range hit {
		src, ok := b.files[file]
		if !ok {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			continue
		}
		out := slices.Clone(src)
		blank := func(n ast.Node) {
			for i := fset.Position(n.Pos()).Offset; i < fset.Position(n.End()).Offset; i++ {
				if out[i] != '\n' {
					out[i] = ' '
				}
			}
			done = true
		}
		for _, d := range f.Decls {
			lo, hi := fset.Position(d.Pos()).Line, fset.Position(d.End()).Line
			if !slices.ContainsFunc(lines, func(l int) bool { return l >= lo && l <= hi }) {
				continue
			}
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				for _, s := range g.Specs {
					if l := fset.Position(s.Pos()).Line; slices.Contains(lines, l) {
						blank(s)
					}
				}
				continue
			}
			if fd, ok := d.(*ast.FuncDecl); ok && strings.HasPrefix(fd.Name.Name, "VF_") {
				for rel, hs := range b.harnesses {
					if filepath.Join(b.repo, rel) == filepath.Dir(file) {
						b.harnesses[rel] = slices.DeleteFunc(hs, func(h string) bool { return h == fd.Name.Name })
					}
				}
			}
			name := fmt.Sprintf("%s:%d", filepath.Base(file), lo)
			if fd, ok := d.(*ast.FuncDecl); ok {
				name = fd.Name.Name
			}
			b.dropped = append(b.dropped, name)
			blank(d)
		}
		b.files[file] = out
	}
	return done
}
