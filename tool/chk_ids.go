package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "The counters are the members the next-id numbers are taken from. They start at 1 and every store to one adds 1 to what it holds. Every id stored in a query, object or field is the value a counter holds, which must then be incremented before anything else is given or left, "+
		"or the number found under the key of that very object or field; a fresh id of something with a key must be entered under its key. Every turn of the loops over objects and fields gives an id.", checkC20)
}

// idKind is a kind of number: the structure that gets it and its member.
type idKind struct {
	typ, member, meta string
}

var idKinds = []idKind{{"SoqlQuery", "QueryId", "NextQueryId"}, {"SoqlObjectInfo", "ViewId", "NextViewId"}, {"SoqlFieldInfo", "ColumnId", "NextColumnId"}}

// memberID tells a member of a structure apart.
func memberID(a *T) string {
	if a.op != "fa" {
		return ""
	}
	return typeKey(ptrElem(a.args[0].typ)) + "." + a.c
}

type idRules struct {
	po       *post
	counters map[string]idKind // member -> kind
	types    map[string]idKind // member that gets the number -> kind
}

func checkC20(r *Run) {
	po := r.post()
	ir := &idRules{po: po, counters: map[string]idKind{}, types: map[string]idKind{}}
	for _, k := range idKinds {
		ir.types[typeKey(po.p.namedType(typesPkg, k.typ))+"."+k.member] = k
	}
	ir.start()
	if len(ir.counters) != len(idKinds) {
		return
	}
	units := map[*ssa.Function]bool{po.qFn: true}
	for g := range po.opaque {
		if g.Pkg == po.qFn.Pkg && po.reaches(g, g) && po.reaches(po.qFn, g) {
			units[g] = true
		}
	}
	var tasks []func(r *Run)
	for g := range units {
		if g == po.qFn || ir.touches(g, map[*ssa.Function]bool{}) || g == po.fFn {
			g := g
			tasks = append(tasks, func(r *Run) { ir.on(r).discipline(g, 0) }, func(r *Run) { ir.on(r).discipline(g, 1) })
		}
	}
	tasks = append(tasks, func(r *Run) { ir.on(r).views(0) }, func(r *Run) { ir.on(r).views(1) })
	for _, m := range nameMembers {
		m := m
		tasks = append(tasks, func(r *Run) { ir.on(r).columns(m) })
	}
	for g := range units {
		if g != po.qFn && ir.gives(g) {
			g := g
			tasks = append(tasks, func(r *Run) { ir.on(r).column(g) })
		}
	}
	r.par(tasks)
	r.floor("counters", len(idKinds))
	r.floor("ids given", 5)
	r.floor("stores to counters", 5)
}

func (ir *idRules) on(r *Run) *idRules {
	return &idRules{po: ir.po.on(r), counters: ir.counters, types: ir.types}
}

// start finds the counters and what they start with.
func (ir *idRules) start() {
	po, r := ir.po, ir.po.r
	s := po.scen(po.norm)
	s.f.opaque[po.qFn] = true
	type put struct {
		e *FEvent
		k idKind
	}
	var puts []put
	first := map[string][]*T{}
	s.onEv = func(e *FEvent) {
		if e.kind == "store" && e.addr.op == "fa" {
			for _, k := range idKinds {
				if e.addr.c == k.meta {
					puts = append(puts, put{e, k})
				}
			}
		}
		if po.isCall(e, po.qFn) {
			for a, v := range e.st.mem {
				if m := memberID(a); m != "" {
					first[m] = append(first[m], v)
				}
			}
		}
	}
	s.run(nil)
	seen := map[string]bool{}
	for _, p := range puts {
		if p.e.val.op != "load" || p.e.val.args[0].op != "fa" {
			r.fail("meta:"+p.k.meta, "%s: %s is %s, not the number a counter holds", po.p.instrPos(p.e.site), p.k.meta, short(p.e.val))
			continue
		}
		m := memberID(p.e.val.args[0])
		if o, was := ir.counters[m]; was && o != p.k {
			r.fail("meta:"+p.k.meta, "%s: %s and %s are taken from the same counter", po.p.instrPos(p.e.site), p.k.meta, o.meta)
		}
		ir.counters[m] = p.k
		seen[p.k.meta] = true
		r.count("counters", 1)
		r.sample("%s is taken from %s", p.k.meta, m)
		if len(first[m]) == 0 {
			r.fail("first:"+p.k.meta, "the counter %s does not start at a known number", m)
		}
		for _, v := range first[m] {
			if n, ok := v.intVal(); !ok || n != 1 {
				r.fail("first:"+p.k.meta, "the counter %s starts at %s, not at 1", m, short(v))
			}
		}
	}
	for _, k := range idKinds {
		if !seen[k.meta] {
			r.fail("meta:"+k.meta, "%s is not taken from a counter in %s", k.meta, shortFn(po.norm))
		}
	}
}

// touches tells whether a function stores to a counter or gives a number.
func (ir *idRules) touches(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] || fn.Blocks == nil {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					t := under(fa.X.Type()).(*types.Pointer).Elem()
					m := typeKey(t) + "." + under(t).(*types.Struct).Field(fa.Field).Name()
					if _, ok := ir.counters[m]; ok {
						return true
					}
					if _, ok := ir.types[m]; ok {
						return true
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && ir.touches(c.Common().StaticCallee(), seen) {
				return true
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if ir.touches(a, seen) {
			return true
		}
	}
	return false
}

// gives: the recursive functions that number fields, apart from those that
// normalise queries.
func (ir *idRules) gives(g *ssa.Function) bool {
	return !ir.po.reaches(g, ir.po.qFn) && ir.touches(g, map[*ssa.Function]bool{})
}

// keyFor tells whose key a key is: the structure it is the key of.
func keyFor(k *T) *T {
	if k.op == "load" && k.args[0].op == "fa" && k.args[0].c == "Key" {
		return k.args[0].args[0]
	}
	if k.op == "call" && strings.HasSuffix(k.c, ".MakeDottedKeyIgnoreCase") && len(k.args) == 2 {
		n := k.args[0]
		if k.args[1].op == "len" && k.args[1].args[0] == n && n.op == "load" && n.args[0].op == "fa" && n.args[0].c == "Name" {
			return n.args[0].args[0]
		}
	}
	return nil
}

// found tells whether a value is what a map holds under a key.
func found(v *T) (m, k *T) {
	if v.op == "load" && v.args[0].op == "ma" {
		return v.args[0].args[0], v.args[0].args[1]
	}
	return nil, nil
}

// cell of a kind: 0 balanced, 1 given and not yet counted, 2 counted and not yet given.
func (ir *idRules) cell(s *scen, k idKind) *T {
	return s.f.sym("alloc", "given:"+k.member, types.NewPointer(types.Typ[types.Int]), nil, nil)
}

func (ir *idRules) states(s *scen, st *FState, k idKind) map[int64]bool {
	out := map[int64]bool{}
	v := st.mem[ir.cell(s, k)]
	if v == nil {
		out[-1] = true
		return out
	}
	for _, x := range s.f.leaves(v) {
		if n, ok := x.intVal(); ok {
			out[n] = true
		} else {
			out[-1] = true
		}
	}
	return out
}

func only(m map[int64]bool, n int64) bool { return len(m) == 1 && m[n] }

// given is one number stored.
type given struct {
	e    *FEvent
	k    idKind
	x, v *T
}

// step follows the counters at an event. It is called in every pass.
func (ir *idRules) step(s *scen, e *FEvent, report bool) {
	r, po := ir.po.r, ir.po
	bad := func(key, format string, args ...interface{}) {
		if report {
			r.fail(key+":"+shortFn(e.site.Parent()), format, args...)
		}
	}
	set := func(k idKind, n int64) { e.st.mem[ir.cell(s, k)] = s.f.intc(n) }
	switch e.kind {
	case "store":
		if e.addr.op != "fa" {
			return
		}
		m := memberID(e.addr)
		if k, ok := ir.counters[m]; ok {
			cur := s.f.load(e.st.fork(), e.addr, types.Typ[types.Int])
			if report {
				r.count("stores to counters", 1)
			}
			if b, n := splitAdd(e.val); n != 1 || b != cur {
				if cb, cn := splitAdd(cur); cb != b || n != cn+1 {
					bad("counter", "%s: the counter of %s is set to %s, which is not one more than it holds", po.p.instrPos(e.site), k.member, short(e.val))
				}
			}
			st := ir.states(s, e.st, k)
			switch {
			case only(st, 1):
				set(k, 0)
			case only(st, 0):
				set(k, 2)
			default:
				bad("counted", "%s: the counter of %s is incremented when no number, or none on some path, was given since", po.p.instrPos(e.site), k.member)
				set(k, 0)
			}
			return
		}
		k, ok := ir.types[m]
		if !ok {
			return
		}
		if mp, key := found(e.val); mp != nil {
			if x := keyFor(key); x == nil || x != e.addr.args[0] {
				bad("found", "%s: the %s stored is the number of another key, %s", po.p.instrPos(e.site), k.member, short(key))
			}
			if report {
				r.count("ids found again", 1)
			}
			return
		}
		if report {
			r.count("ids given", 1)
		}
		st := ir.states(s, e.st, k)
		cur := ir.current(s, e.st, k, e.val)
		switch {
		case cur == 0 && only(st, 0):
			set(k, 1)
		case cur == -1 && only(st, 2):
			set(k, 0)
		case cur == 0 || cur == -1:
			bad("given", "%s: a %s is given while the last number given was not counted, or on one path only", po.p.instrPos(e.site), k.member)
			set(k, 0)
		default:
			bad("given", "%s: the %s given is %s, which is not the number the counter holds", po.p.instrPos(e.site), k.member, short(e.val))
		}
	case "call":
		c, ok := e.site.(ssa.CallInstruction)
		if !ok {
			return
		}
		fn := c.Common().StaticCallee()
		if fn == nil || !(s.f.opaque[fn] || s.f.onStack(e.ctx, fn)) || !ir.touches(fn, map[*ssa.Function]bool{}) {
			return
		}
		for _, k := range idKinds {
			if !only(ir.states(s, e.st, k), 0) {
				bad("call", "%s: a %s was given and not counted before %s is called", po.p.instrPos(e.site), k.member, shortFn(fn))
			}
		}
	}
}

// current compares a value with what the counter holds: 0 the same, -1 one less.
func (ir *idRules) current(s *scen, st *FState, k idKind, v *T) int {
	n := 1
	try := func(cur *T) {
		if cur == v {
			n = 0
		} else if b, d := splitAdd(cur); d != 0 {
			if c, e := splitAdd(v); b == c && e == d-1 {
				n = -1
			}
		}
	}
	for a, cur := range st.mem {
		if ir.counters[memberID(a)] == k && memberID(a) != "" {
			try(cur)
		}
	}
	if n == 1 && v.op == "load" && ir.counters[memberID(v.args[0])] == k && memberID(v.args[0]) != "" {
		if s.f.load(st.fork(), v.args[0], v.typ) == v {
			n = 0
		}
	}
	return n
}

// discipline: the rule on counters, in one function. Each turn of a loop enters
// and leaves with nothing outstanding, so the turns in which a key has a number
// and those in which it has none can be looked at apart.
func (ir *idRules) discipline(fn *ssa.Function, has int) {
	r, po := ir.po.r, ir.po
	s := po.whole(po.scen(fn))
	if fn == po.qFn {
		s.atLeast("q.From", 1)
	}
	s.f.opaque[po.qFn] = true
	delete(s.f.opaque, fn)
	s.onAny = func(e *FEvent) { ir.step(s, e, s.f.live) }
	s.has = func(st *FState, a *T) int {
		if keyFor(a.args[1]) != nil && isSpace(a.args[0].typ) {
			return has
		}
		return -1
	}
	s.run(func(st *FState) {
		for _, k := range idKinds {
			st.mem[ir.cell(s, k)] = s.f.intc(0)
		}
	})
	for _, ret := range s.rets {
		if ret.pan {
			continue
		}
		if n := len(ret.vals); n > 0 && errIndex(fn.Signature) >= 0 {
			if s.f.truth(ret.st, s.f.eq(ret.vals[n-1], s.f.nilc())) == 0 {
				continue
			}
		}
		r.count("returns", 1)
		for _, k := range idKinds {
			if !only(ir.states(s, ret.st, k), 0) {
				r.fail("return:"+shortFn(fn), "%s can return after a %s was given that was not counted", shortFn(fn), k.member)
			}
		}
	}
}

// idAt tells for which structure a number of a kind is stored.
func (ir *idRules) idAt(e *FEvent, k idKind) *T {
	if e.kind == "store" && e.addr.op == "fa" && ir.types[memberID(e.addr)] == k && memberID(e.addr) != "" {
		return e.addr.args[0]
	}
	return nil
}

// views: every object of FROM gets a number; found is whether its key has one.
func (ir *idRules) views(has int) {
	po, r := ir.po, ir.po.r
	k := idKinds[1]
	set := func(s *scen) {
		po.whole(s).atLeast("q.From", 1)
		s.has = func(st *FState, a *T) int {
			if x := keyFor(a.args[1]); x != nil && x.op == "ia" && anyIdx(s.path(x)) == "q.From[]" && isSpace(a.args[0].typ) {
				return has
			}
			return -1
		}
	}
	idx := func(s *scen, x *T) *T {
		if x != nil && x.op == "ia" && anyIdx(s.path(x)) == "q.From[]" {
			return x.args[1]
		}
		return nil
	}
	what := "the number of its key"
	if has == 0 {
		what = "a fresh number"
	}
	if ok, why := po.everyTurn(po.qFn, set, func(s *scen, e *FEvent) *T {
		x := ir.idAt(e, k)
		if x == nil {
			return nil
		}
		if m, _ := found(e.val); (m != nil) != (has == 1) {
			return nil
		}
		return idx(s, x)
	}); !ok {
		r.fail("view", "an object of FROM may not be given %s in %s: %s", what, shortFn(po.qFn), why)
	}
	if has == 0 {
		if ok, why := po.everyTurn(po.qFn, set, func(s *scen, e *FEvent) *T {
			if e.kind != "mapset" || !isSpace(e.addr.typ) {
				return nil
			}
			if !ir.isID(s, e, k, keyFor(e.args[0])) {
				return nil
			}
			return idx(s, keyFor(e.args[0]))
		}); !ok {
			r.fail("view:entered", "the number of an object of FROM may not be entered under its key in %s: %s", shortFn(po.qFn), why)
		}
	}
}

// isID: the value entered is the number just given, or the one to be given next
// to what has none yet.
func (ir *idRules) isID(s *scen, e *FEvent, k idKind, x *T) bool {
	if x == nil {
		return false
	}
	v := s.member(e.st.fork(), x, k.member)
	if v == e.val {
		return true
	}
	n, ok := v.intVal()
	none := ok && n == 0 || v.op == "load" && ir.types[memberID(v.args[0])] == k && memberID(v.args[0]) != ""
	return none && ir.current(s, e.st, k, e.val) <= 0
}

func isSpace(t types.Type) bool {
	m, ok := under(t).(*types.Map)
	return ok && isStr(m.Key()) && isInt(m.Elem())
}

// columns: every field of a clause is numbered.
func (ir *idRules) columns(m string) {
	po, r := ir.po, ir.po.r
	list := strings.SplitN(m, "[", 2)[0]
	k := idKinds[2]
	if ok, why := po.everyTurn(po.qFn, func(s *scen) {
		po.whole(s).atLeast(list, 1).kind(m, "Field")
		if list == "q.Having" {
			s.atLeast("q.GroupBy", 1)
		}
	}, func(s *scen, e *FEvent) *T {
		var x *T
		if x = ir.idAt(e, k); x == nil && e.kind == "call" {
			if c, ok := e.site.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && s.f.opaque[g] && g != po.fFn && g != po.qFn && ir.gives(g) {
					for _, a := range e.args {
						if typeKey(ptrElem(a.typ)) == typeKey(po.p.namedType(typesPkg, "SoqlFieldInfo")) {
							x = a
						}
					}
				}
			}
		}
		if x == nil || anyIdx(s.path(x)) != m {
			return nil
		}
		for x.op == "fa" {
			x = x.args[0]
		}
		if x.op != "ia" {
			return nil
		}
		return x.args[1]
	}); !ok {
		r.fail("column:"+m, "a field of %s may not be given a number in %s: %s", list, shortFn(po.qFn), why)
	}
}

// column: a field is numbered by its key.
func (ir *idRules) column(fn *ssa.Function) {
	po, r := ir.po, ir.po.r
	k := idKinds[2]
	for _, has := range []int{0, 1} {
		for _, part := range []string{"given", "entered"} {
			if has == 1 && part == "entered" {
				continue
			}
			s := po.whole(po.scen(fn))
			delete(s.f.opaque, fn)
			var x *T
			for i, p := range fn.Params {
				if _, ok := under(p.Type()).(*types.Pointer); ok && typeKey(ptrElem(p.Type())) == typeKey(po.p.namedType(typesPkg, "SoqlFieldInfo")) {
					x = s.args[i]
				}
			}
			if x == nil {
				undec("%s numbers fields but is not given one", shortFn(fn))
			}
			s.fld = x
			s.kind("f", "Field").num("f.ColumnId", 0)
			s.has = func(st *FState, a *T) int {
				if keyFor(a.args[1]) == x && isSpace(a.args[0].typ) {
					return has
				}
				return -1
			}
			s.stop = func(e *FEvent) bool {
				if part == "entered" {
					if e.kind != "mapset" || !isSpace(e.addr.typ) || keyFor(e.args[0]) != x {
						return false
					}
					return ir.isID(s, e, k, x)
				}
				if ir.idAt(e, k) != x {
					return false
				}
				m, _ := found(e.val)
				return (m != nil) == (has == 1)
			}
			s.run(nil)
			for _, ret := range s.rets {
				if !ret.pan {
					r.fail("column:"+part+":"+shortFn(fn), "%s can return without the number of a field being %s", shortFn(fn), map[string]string{"given": "given or found under its key", "entered": "entered under its key"}[part])
				}
			}
		}
	}
}
