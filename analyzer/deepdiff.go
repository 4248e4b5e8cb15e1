package main

import "fmt"

// deepDiff names the innermost place where two terms of the same shape differ (for debugging).
func deepDiff(a, b *Term, path string, n int) string {
	if a == b || n > 400 {
		return ""
	}
	lim := func(t *Term) string { return fmt.Sprintf("%.5000s", t.String()) }
	here := func(why string) string { return fmt.Sprintf("%s (%s)\n A %s\n B %s", path, why, lim(a), lim(b)) }
	kids := func(x, y []*Term, p string) string {
		if len(x) != len(y) {
			return here("different number")
		}
		for i := range x {
			if x[i] != y[i] {
				return deepDiff(x[i], y[i], path+p+fmt.Sprint(i), n+1)
			}
		}
		return ""
	}
	if a.K != b.K {
		return here("kind")
	}
	if (a.Atom == nil) != (b.Atom == nil) || (a.Var == nil) != (b.Var == nil) {
		return here("atom")
	}
	if a.Var != nil && a.Var != b.Var {
		if a.Var.Op != b.Var.Op {
			return here("var " + a.Var.Op + " " + b.Var.Op)
		}
		return kids(a.Var.Args, b.Var.Args, "/?"+a.Var.Op+":")
	}
	if a.Atom != nil && a.Atom != b.Atom {
		if a.Atom.Op != b.Atom.Op {
			return here("atom " + a.Atom.Op + " " + b.Atom.Op)
		}
		return kids(a.Atom.Args, b.Atom.Args, "/"+a.Atom.Op+":")
	}
	if a.K == KNum {
		if len(a.Poly.T) == len(b.Poly.T) {
			for i := range a.Poly.T {
				x, y := a.Poly.T[i], b.Poly.T[i]
				if x.C.Cmp(y.C) != 0 || len(x.M.Fs) != len(y.M.Fs) {
					break
				}
				for j := range x.M.Fs {
					if x.M.Fs[j].A != y.M.Fs[j].A && x.M.Fs[j].A.Op == y.M.Fs[j].A.Op {
						return kids(x.M.Fs[j].A.Args, y.M.Fs[j].A.Args, "/n"+x.M.Fs[j].A.Op+":")
					}
				}
			}
		}
		return here("num")
	}
	if len(a.Kids) != len(b.Kids) {
		return here("kids")
	}
	if a.S != b.S || a.N != b.N {
		return here("label")
	}
	return kids(a.Kids, b.Kids, fmt.Sprintf("/%d.", a.K))
}
