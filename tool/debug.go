package main

import (
	"fmt"
	"time"
)

// debugShape prints the shapes of the grammar.
func debugShape(repo string) {
	r := &Run{repo: repo, seen: map[string]bool{}, counts: map[string]int{}}
	in := r.interp()
	g, _ := in.rootGram()
	t := time.Now()
	shapeTrace = true
	sh := newShape(in)
	as := sh.analyse(g)
	fmt.Println("evals", sh.evals, "index obligations", sh.idxOb, "forms", len(as), time.Since(t))
	for _, id := range sh.order {
		ti := sh.trans[id]
		fmt.Printf("T%d %s (%s) %d sources, %d results\n", id, ti.g.site, ti.g.name, len(ti.srcs), len(ti.ord))
		for _, m := range ti.idx {
			fmt.Println("   INDEX", m)
		}
		for _, s := range ti.srcs {
			if s.panic != "" {
				fmt.Println("   PANIC", s.panic, s.alt.key())
			}
		}
		for i, k := range ti.ord {
			if i > 6 {
				break
			}
			fmt.Println("    ", trunc(k, 300))
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// debugDeriv prints the derivations of every transformation.
func debugDeriv(repo, want string) {
	r := &Run{repo: repo, seen: map[string]bool{}, counts: map[string]int{}}
	in := r.interp()
	g, _ := in.rootGram()
	sh := newShape(in)
	sh.analyse(g)
	dv := &Deriver{sh: sh, stop: func(s *Sub) bool {
		if len(s.els) == 0 {
			return false
		}
		for _, e := range s.els {
			if e.val != nil {
				return false
			}
		}
		return true
	}}
	for _, id := range sh.order {
		ti := sh.trans[id]
		for _, k := range ti.ord {
			sub := ti.subs[k]
			if len(sub.els) == 0 {
				continue
			}
			n := ""
			if sub.els[0].dyn != nil {
				n = shortType(sub.els[0].dyn)
			}
			if want != "" && want != n && fmt.Sprintf("T%d", id) != want {
				continue
			}
			ds := dv.of(sub, "")
			fmt.Printf("T%d %s %s: %d derivations of %s\n", id, ti.g.site, ti.g.name, len(ds), n)
			for i, d := range ds {
				if i > 15 {
					break
				}
				fmt.Printf("    %s\n", d)
				for _, v := range d.vals {
					fmt.Printf("        = %s\n", trunc(v.k(), 400))
				}
			}
		}
	}
}
