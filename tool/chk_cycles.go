package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "The graph of types visible in the JSON of a query is enumerated: no member may be of a kind JSON cannot express and no encoder may call itself. Every store to a member through which the type graph is recursive is evaluated: "+
		"a pointer stored there is nil, a copy of the same member, or an object made for it, and the place it is stored in cannot be reached from it; lists whose elements get such pointers later are never shared.", checkC17)
}

type cycles struct {
	r     *Run
	p     *Program
	f     *Flow
	ptr   map[string]types.Type // recursive pointer members by class
	list  map[string]types.Type // recursive list members by class
	iface map[string]bool       // interface members visible
	scc   map[string]bool
	mut   map[string]bool // list members whose elements get pointers later
}

func checkC17(r *Run) {
	in := r.interp()
	p := r.program()
	order, _, edges := r.jsonTypes(in)
	for _, t := range order {
		if s := jsonUnsupported(t); s != "" {
			r.fail("kind:"+typeKey(t), "the type %s, visible in the JSON of a query, is %s", typeKey(t), s)
		}
	}
	// encoders that call themselves
	for _, t := range order {
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
			continue
		}
		if m, _ := in.jsonMethod(t, "MarshalJSON"); m != nil {
			r.count("encoders", 1)
			r.selfEncode(in, t, m)
		}
	}
	// types through which the type graph is recursive
	root := typeKey(p.namedType(typesPkg, "SoqlQuery"))
	reach := func(from string) map[string]bool {
		seen := map[string]bool{}
		var walk func(k string)
		walk = func(k string) {
			for _, e := range edges[k] {
				if !seen[e] {
					seen[e] = true
					walk(e)
				}
			}
		}
		walk(from)
		return seen
	}
	c := &cycles{r: r, p: p, ptr: map[string]types.Type{}, list: map[string]types.Type{}, iface: map[string]bool{}, scc: map[string]bool{}, mut: map[string]bool{}}
	for k := range reach(root) {
		if reach(k)[root] {
			c.scc[k] = true
		}
	}
	for _, t := range order {
		if _, ok := t.(*types.Named); !ok || !c.scc[typeKey(t)] {
			continue
		}
		if _, ok := under(t).(*types.Struct); !ok {
			continue
		}
		for _, jf := range jsonFields(t) {
			st, i := t, jf.path[0]
			for _, j := range jf.path[1:] {
				st = under(st).(*types.Struct).Field(i).Type()
				i = j
			}
			cl := classOf(st, i)
			if types.IsInterface(jf.typ) {
				c.iface[cl] = true
				continue
			}
			if !c.scc[typeKey(jf.typ)] {
				continue
			}
			switch under(jf.typ).(type) {
			case *types.Pointer:
				c.ptr[cl] = jf.typ
			case *types.Slice:
				c.list[cl] = jf.typ
			case *types.Map:
				r.fail("kind:"+cl, "the member %s of %s, visible in the JSON, leads back to queries through a map", jf.name, typeKey(t))
			}
		}
	}
	for _, k := range sortedKeys(c.ptr) {
		r.count("recursive pointer members", 1)
		r.sample("recursive pointer member %s", k)
	}
	for range c.list {
		r.count("recursive list members", 1)
	}

	c.f = newFlow(p)
	keep := parserPkg
	units, opaque := p.units(keep)
	c.f.opaque = opaque
	c.f.noFork = true
	// functions to be analysed: those storing to the members
	var todo []*ssa.Function
	inl := map[*ssa.Function]bool{}
	for _, u := range units {
		inl[u] = true
	}
	relevant := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					m := map[string]bool{}
					c.f.addrClasses(st.Addr, m)
					for cl := range m {
						if c.ptr[cl] != nil || c.list[cl] != nil || c.iface[cl] {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for _, fn := range p.repoFuncs(keep) {
		rel := relevant(fn)
		if fn.Parent() == nil && !inl[fn] {
			continue // analysed where it is called
		}
		if fn.Name() == "init" && fn.Parent() == nil {
			if rel {
				undec("the initialisation of %s stores queries", fnPkg(fn))
			}
			continue
		}
		// a function calling small functions that store is analysed as well
		if !rel {
			seen := map[*ssa.Function]bool{}
			var walk func(g *ssa.Function) bool
			walk = func(g *ssa.Function) bool {
				for _, b := range g.Blocks {
					for _, i := range b.Instrs {
						if ci, ok := i.(ssa.CallInstruction); ok {
							if h := ci.Common().StaticCallee(); h != nil && h.Blocks != nil && keep(fnPkg(h)) && !opaque[h] && !seen[h] {
								seen[h] = true
								if relevant(h) || walk(h) {
									return true
								}
							}
						}
					}
				}
				return false
			}
			rel = walk(fn)
		}
		if rel {
			todo = append(todo, fn)
		}
	}
	var evs []*FEvent
	c.f.onEv = func(e *FEvent) {
		if e.kind == "store" {
			evs = append(evs, e)
		}
	}
	for _, fn := range todo {
		r.count("functions analysed", 1)
		c.f.start(fn, nil)
	}
	for pass := 0; pass < 2; pass++ {
		for _, e := range evs {
			et := e.site.(*ssa.Store).Val.Type()
			c.leaf(e, e.addr, e.val, et, pass)
		}
	}
	r.floor("functions analysed", 8)
	r.floor("stores to recursive members", 20)
	r.floor("recursive pointer members", 2)
	r.floor("types visible in JSON", 15)
}

func (c *cycles) leaf(e *FEvent, a, v *T, typ types.Type, pass int) {
	if u, ok := under(typ).(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			c.leaf(e, c.f.fa(a, typ, i), c.f.field(v, typ, i), u.Field(i).Type(), pass)
		}
		return
	}
	if a.op != "fa" {
		return
	}
	cl := c.f.class(a)
	switch {
	case c.iface[cl]:
		if pass == 1 {
			c.r.count("stores to interface members", 1)
			for _, l := range c.f.leaves(v) {
				if l.op == "iface" && c.scc[typeKey(l.typ)] {
					c.fail(e, cl, "a value of type %s is stored in %s: it can contain queries", typeKey(l.typ), cl)
				}
			}
		}
	case c.ptr[cl] != nil:
		if pass == 0 {
			for _, l := range c.f.leaves(v) {
				if !isNilT(l) && l.op != "zero" && !c.sameClass(l, cl) {
					// its container is a list whose elements get pointers
					if b := a.args[0]; b.op == "ia" {
						if s := c.base(b.args[0]); s.op == "load" {
							c.mut[c.f.class(s.args[0])] = true
						}
					}
				}
			}
			return
		}
		c.r.count("stores to recursive members", 1)
		for _, l := range c.f.leaves(v) {
			if c.sameClass(l, cl) && l.args[0] != a && c.beyond(a) {
				// a copy of a pointer in what such a pointer leads to
				c.fail(e, cl, "%s of an object that is itself in a query of this kind gets the query of another object", cl)
				continue
			}
			if isNilT(l) || l.op == "zero" || c.sameClass(l, cl) || l.op == "assert" || l.op == "field" {
				continue
			}
			if l.op != "alloc" {
				c.fail(e, cl, "%s gets %s, which was not made for it", cl, short(l))
				continue
			}
			c.reach(e, a, l, cl)
		}
	case c.list[cl] != nil:
		if pass == 0 {
			return
		}
		c.r.count("stores to recursive members", 1)
		for _, l := range c.f.leaves(v) {
			b := c.base(l)
			if b.op == "load" && c.mut[c.f.class(b.args[0])] && b.args[0] != a {
				c.fail(e, cl, "%s gets the list %s of another object", cl, short(b))
				continue
			}
			c.reach(e, a, l, cl)
		}
	}
}

func (c *cycles) sameClass(l *T, cl string) bool {
	return l.op == "load" && c.f.class(l.args[0]) == cl
}

// beyond tells whether the address is reached through a recursive pointer member.
func (c *cycles) beyond(a *T) bool {
	seen := map[*T]bool{}
	var walk func(a *T) bool
	walk = func(a *T) bool {
		if seen[a] {
			return false
		}
		seen[a] = true
		switch a.op {
		case "load":
			return c.ptr[c.f.class(a.args[0])] != nil || walk(a.args[0])
		case "phi":
			for _, x := range c.f.alts[a] {
				if walk(x) {
					return true
				}
			}
		case "fa", "ia", "ma", "slice", "app", "appall":
			return walk(a.args[0])
		}
		return false
	}
	return walk(a.args[0])
}

// base of a list: what its backing array is taken from.
func (c *cycles) base(t *T) *T {
	for t.op == "slice" || t.op == "app" || t.op == "appall" {
		t = t.args[0]
	}
	return t
}

// reach fails if a container of the address is reachable from the value.
func (c *cycles) reach(e *FEvent, a, v *T, cl string) {
	cont := map[*T]bool{}
	x := a
	for {
		switch x.op {
		case "fa", "ia", "ma":
			x = x.args[0]
		case "load":
			x = x.args[0]
			continue
		case "slice", "app", "appall":
			x = x.args[0]
		default:
			cont[x] = true
			x = nil
		}
		if x == nil {
			break
		}
		if x.op != "fa" && x.op != "ia" {
			cont[x] = true
		}
	}
	seen := map[*T]bool{}
	var walk func(t *T) *T
	walk = func(t *T) *T {
		if seen[t] {
			return nil
		}
		seen[t] = true
		if cont[t] {
			return t
		}
		switch t.op {
		case "alloc", "makeslice":
			for k, w := range e.st.mem {
				if rootOf(k) != t {
					continue
				}
				kc := c.f.class(k)
				if k.op == "fa" && (c.ptr[kc] != nil || c.list[kc] != nil) {
					if r := walk(w); r != nil {
						return r
					}
				}
			}
		case "slice", "phi", "app", "struct", "appall":
			as := t.args
			if t.op == "phi" {
				as = c.f.alts[t]
			}
			if t.op == "slice" || t.op == "appall" {
				as = as[:1]
			}
			for _, x := range as {
				if r := walk(x); r != nil {
					return r
				}
			}
		}
		return nil
	}
	start := v
	// a list may grow in its own place
	if b := c.base(v); b.op == "load" && b.args[0] == a {
		seen[b] = true
	}
	if r := walk(start); r != nil {
		c.fail(e, cl, "%s gets a value from which the object it is stored in (%s) can be reached", cl, short(r))
	}
}

func (c *cycles) fail(e *FEvent, cl, format string, args ...interface{}) {
	c.r.fail("cycle:"+shortFn(e.ctx.fn)+":"+cl, "%s: "+format, append([]interface{}{c.p.instrPos(e.site)}, args...)...)
}

// selfEncode fails if an encoder hands its own type to json.Marshal.
func (r *Run) selfEncode(in *Interp, t types.Type, m *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if seen[fn] || fn.Blocks == nil {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if isRepoPath(fnPkg(g)) {
					walk(g)
					continue
				}
				if !strings.HasPrefix(fullName(g), "encoding/json.Marshal") || len(c.Common().Args) == 0 {
					continue
				}
				r.count("encoder calls", 1)
				mi, ok := c.Common().Args[0].(*ssa.MakeInterface)
				if !ok {
					continue
				}
				x := mi.X.Type()
				if h, _ := in.jsonMethod(x, "MarshalJSON"); h != nil && h.Object() == m.Object() {
					if _, isPtr := under(x).(*types.Pointer); !isPtr {
						sel := in.p.Prog.MethodSets.MethodSet(x).Lookup(nil, "MarshalJSON")
						if sel == nil {
							continue // only the pointer has the method: not used for a value
						}
					}
					r.fail("self:"+typeKey(t), "%s: the encoder of %s encodes the value with itself", in.p.instrPos(i), typeKey(t))
				}
			}
		}
	}
	walk(m)
}
