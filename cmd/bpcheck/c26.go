package main

import (
	"fmt"
	"path/filepath"
	"strings"
)

func init() {
	register(&Check{ID: "C26", Title: "the program type-checks on every platform it supports", NoSSA: true, Run: runC26,
		Explanation: "The module and its dependencies are loaded and fully type-checked once per GOOS with that platform's build constraints; every error located in a module file, and every package that is missing files under a platform, is reported."})
}

func runC26(r *Run) {
	r.Rule("typecheck: every package of the module type-checks for linux, darwin and windows (amd64)")
	for _, goos := range []string{"linux", "darwin", "windows"} {
		pkgs, _, err := loadPkgs(goos)
		if err != nil {
			r.Violate("typecheck", goos, "-", "loading for "+goos+" failed: "+err.Error(), nil)
			continue
		}
		n := 0
		for _, p := range pkgs {
			if !strings.HasPrefix(p.PkgPath, modPath) {
				continue
			}
			n++
			r.Oblige("typecheck", goos+" "+trimPkg(p.PkgPath)+fmt.Sprintf(" (%d files)", len(p.CompiledGoFiles)))
			r.Count("files_"+goos, len(p.CompiledGoFiles))
			if len(p.CompiledGoFiles) == 0 {
				r.Violate("typecheck", goos+"|"+trimPkg(p.PkgPath), "-", "package "+p.PkgPath+" has no buildable files for "+goos, nil)
			}
			for _, e := range p.Errors {
				pos := e.Pos
				if x, err := filepath.Rel(repoDir(), pos); err == nil {
					pos = x
				}
				r.Violate("typecheck", goos+"|"+trimPkg(p.PkgPath)+"|"+e.Msg, pos, "package "+p.PkgPath+" does not type-check for "+goos+": "+e.Msg, nil)
			}
		}
		if n == 0 {
			r.Violate("typecheck", goos, "-", "no packages for "+goos, nil)
		}
	}
}
