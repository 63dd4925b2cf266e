package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

// debugFlow prints the events of a function: flow DIR PKG FUNC
func debugFlow(dir, pkg, name string) {
	r := &Run{repo: dir, seen: map[string]bool{}, counts: map[string]int{}}
	p := r.program()
	fn := p.findFn(modPath+pkg, name)
	f := newFlow(p)
	for _, o := range strings.Fields(os.Getenv("OPAQUE")) {
		f.opaque[p.findFn(modPath+pkg, o)] = true
	}
	t0 := time.Now()
	n := 0
	f.onEv = func(e *FEvent) {
		n++
		if (e.kind == "load" || e.kind == "branch" || e.kind == "index") && os.Getenv("EV") != e.kind {
			return
		}
		if os.Getenv("EV") == "" || !strings.Contains(os.Getenv("EV"), e.kind) {
			return
		}
		fmt.Printf("%s %s %s addr=%v val=%v args=%v facts=%d\n", e.kind, p.instrPos(e.site), e.name, e.addr, e.val, e.args, len(e.st.facts))
	}
	rs := f.start(fn, nil)
	for _, x := range rs {
		fmt.Printf("ret %v mem=%d facts=%d pend=%d\n", x.vals, len(x.st.mem), len(x.st.facts), len(x.st.pend))
	}
	fmt.Println("events", n, "terms", len(f.tab), "contexts", len(f.ctxs), time.Since(t0))
}

var flowDebug = os.Getenv("FLOWDBG") != ""

func diffState(k string, a, b *FState) {
	if a == nil {
		fmt.Println("new", k)
		return
	}
	for x, v := range a.mem {
		if b.mem[x] != v {
			fmt.Println(k, "mem", x, ":", v, "->", b.mem[x])
		}
	}
	for x, v := range b.mem {
		if a.mem[x] == nil {
			fmt.Println(k, "mem+", x, ":", v)
		}
	}
	for x, v := range a.env {
		if b.env[x] != v {
			fmt.Println(k, "env", x.Name(), ":", v, "->", b.env[x])
		}
	}
	for x, v := range a.ep {
		if b.ep[x] != v {
			fmt.Println(k, "ep", x, ":", v, "->", b.ep[x])
		}
	}
	for x, v := range b.ep {
		if a.ep[x] == nil {
			fmt.Println(k, "ep+", x, ":", v)
		}
	}
	for x, v := range a.facts {
		if w, ok := b.facts[x]; !ok || w != v {
			fmt.Println(k, "fact", x, v, w, ok)
		}
	}
	fmt.Println(k, len(a.esc), len(b.esc), len(a.pend), len(b.pend), len(a.facts), len(b.facts), len(a.must), len(b.must))
}
