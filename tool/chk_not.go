package main

import (
	"fmt"
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "For WHERE and HAVING: the loop that turns every NOT into a no-operation, in every turn and up to the end of the list before every success return, is found by its store. For each operator assumed of the elements within, every turn of the inner loop stores the complement and nothing else is stored. "+
		"The inner loop runs to the NOT from where the scan backwards ends: its counter falls by one at an operand, grows by one at a binary operator, stays at a no-operation, and the scan ends exactly where one operand is complete. The list is compacted by a stable order.", checkC09)
}

var complements = [][2]string{{"And", "Or"}, {"Eq", "NotEq"}, {"Lt", "Ge"}, {"Le", "Gt"}, {"Like", "NotLike"}, {"In", "NotIn"}, {"Includes", "Excludes"}}

// notElim looks at the removal of NOT from one list.
type notElim struct {
	po    *post
	list  string
	op    map[string]int64
	comp  map[int64]int64
	outer map[*ssa.BasicBlock]bool // headers of the loops that visit the NOTs
	fn    *ssa.Function            // what is analysed
	root  *T                       // the list, where it is a parameter
}

func checkC09(r *Run) {
	po := r.post()
	var tasks []func(r *Run)
	mk := func(po *post, list string) *notElim {
		n := &notElim{po: po, list: list, op: map[string]int64{}, comp: map[int64]int64{}, outer: map[*ssa.BasicBlock]bool{}, fn: po.qFn}
		for _, nm := range po.p.namedType(typesPkg, "SoqlConditionOpcode").Obj().Pkg().Scope().Names() {
			if strings.HasPrefix(nm, "SoqlConditionOpcode_") {
				n.op[strings.TrimPrefix(nm, "SoqlConditionOpcode_")] = po.p.constInt(typesPkg, nm)
			}
		}
		for _, c := range complements {
			a, b := n.op[c[0]], n.op[c[1]]
			n.comp[a], n.comp[b] = b, a
		}
		return n
	}
	names := mk(po, "q.Where")
	var ops []string
	for nm, v := range names.op {
		if nm != "Not" {
			if _, ok := names.comp[v]; !ok && nm != "Noop" && nm != "Unknown" && nm != "FieldInfo" {
				undec("the complement of the operator %s is not known", nm)
			}
			ops = append(ops, nm)
		}
	}
	sort.Strings(ops)
	lists := []*notElim{names, mk(po, "q.Having")}
	for _, n := range lists {
		n := n
		tasks = append(tasks, func(r *Run) { n.po = po.on(r); n.find() })
	}
	r.par(tasks)
	tasks = nil
	// what is analysed of a function for one list holds for the other
	done := map[string]bool{}
	for _, n := range lists {
		n := n
		tasks = append(tasks, func(r *Run) { m := *n; m.po = po.on(r); m.removed() }, func(r *Run) { m := *n; m.po = po.on(r); m.visits() })
		m := *n
		m.local()
		k := m.list
		if m.fn != po.qFn {
			k = m.fn.String()
		}
		if done[k] || len(n.outer) == 0 {
			continue
		}
		done[k] = true
		for _, nm := range ops {
			nm := nm
			tasks = append(tasks, func(r *Run) { m := m; m.po = po.on(r); m.operator(nm) })
		}
		tasks = append(tasks, func(r *Run) { m := m; m.po = po.on(r); m.span() })
	}
	r.par(tasks)
	r.floor("lists", 2)
	r.floor("operators", len(ops))
	r.floor("ends of the scan for the operand", 2)
}

// own is an opcode of an element of the list of the query itself.
func (n *notElim) own(s *scen, a *T) *T {
	if a.op != "fa" || a.c != "Opcode" || a.args[0].op != "ia" {
		return nil
	}
	if anyIdx(s.path(a)) != n.list+"[].Opcode" {
		return nil
	}
	if n.copied(s, a.args[0].args[0], map[*T]bool{}) {
		return nil
	}
	return a.args[0].args[1]
}

// copied tells whether a list may be another one with the same elements.
func (n *notElim) copied(s *scen, l *T, seen map[*T]bool) bool {
	if seen[l] || l == n.root {
		return false
	}
	seen[l] = true
	switch l.op {
	case "slice", "app":
		return n.copied(s, l.args[0], seen)
	case "appall":
		return l.args[0].op == "makeslice" || isNilT(l.args[0]) || n.copied(s, l.args[0], seen)
	case "phi":
		for _, x := range s.f.alts[l] {
			if n.copied(s, x, seen) {
				return true
			}
		}
		return false
	case "makeslice":
		return true
	}
	return s.copies[l] != ""
}

func header(i *T) *ssa.BasicBlock {
	if i == nil {
		return nil
	}
	b, _ := splitAdd(i)
	if b.op != "phi" || b.ctx == nil || b.ctx.loop[b.blk] == nil {
		return nil
	}
	return b.blk
}

func (n *notElim) scen(c int64, not bool) *scen {
	s := n.po.scen(n.fn)
	n.set(s)
	n.assume(s, c, not)
	return s
}

// set makes a scenario of the query or of the function for one list of it.
func (n *notElim) set(s *scen) {
	n.po.whole(s)
	n.root = nil
	if n.fn == n.po.qFn {
		return
	}
	for i, p := range n.fn.Params {
		if typeKey(p.Type()) == "[]"+typeKey(n.po.p.namedType(typesPkg, "SoqlCondition")) {
			n.root = s.args[i]
			s.copies[n.root] = n.list
		}
	}
}

// local makes the function of the loop the one that is analysed, if the list
// is its parameter.
func (n *notElim) local() {
	var fn *ssa.Function
	for b := range n.outer {
		if fn != nil && b.Parent() != fn {
			return
		}
		fn = b.Parent()
	}
	if fn == nil || fn == n.po.qFn {
		return
	}
	k := 0
	for _, p := range fn.Params {
		if typeKey(p.Type()) == "[]"+typeKey(n.po.p.namedType(typesPkg, "SoqlCondition")) {
			k++
		}
	}
	if k == 1 {
		n.fn = fn
	}
}

// assume: the elements the outer loop visits are NOT, or what the others are.
func (n *notElim) assume(s *scen, c int64, not bool) {
	typ := n.po.p.namedType(typesPkg, "SoqlConditionOpcode")
	s.atLeast(n.list, 2)
	s.read = func(a *T, p string) *T {
		if anyIdx(p) != n.list+"[].Opcode" || a.op != "fa" || a.args[0].op != "ia" {
			return nil
		}
		v := c
		if n.outer[header(a.args[0].args[1])] && not {
			v = n.op["Not"]
		}
		return s.f.cnst(constant.MakeInt64(v), typ)
	}
}

// find looks for the loops in which a NOT of the list becomes a no-operation.
func (n *notElim) find() {
	s := n.po.whole(n.po.scen(n.po.qFn))
	s.atLeast(n.list, 2)
	s.onEv = func(e *FEvent) {
		if e.kind != "store" {
			return
		}
		i := n.own(s, e.addr)
		if v, ok := e.val.intVal(); i == nil || !ok || v != n.op["Noop"] {
			return
		}
		for k, t := range e.st.facts {
			if !t || k.op != "eq" {
				continue
			}
			for _, p := range [][2]*T{{k.args[0], k.args[1]}, {k.args[1], k.args[0]}} {
				if v, ok := p[1].intVal(); ok && v == n.op["Not"] && p[0].op == "load" {
					if j := n.own(s, p[0].args[0]); j == i {
						if b := header(i); b != nil {
							n.outer[b] = true
						}
					}
				}
			}
		}
	}
	s.run(nil)
}

func (n *notElim) key(what string) string { return "not:" + n.list + ":" + what }

// removed: every NOT becomes a no-operation.
func (n *notElim) removed() {
	r := n.po.r
	if len(n.outer) == 0 {
		r.fail(n.key("none"), "no loop of %s turns the NOTs of %s into no-operations", shortFn(n.po.qFn), n.list)
		return
	}
	r.count("lists", 1)
	if ok, why := n.po.everyTurn(n.fn, func(s *scen) { n.set(s); n.assume(s, n.op["Unknown"], true) }, func(s *scen, e *FEvent) *T {
		if e.kind != "store" {
			return nil
		}
		i := n.own(s, e.addr)
		if v, ok := e.val.intVal(); i != nil && ok && v == n.op["Noop"] && n.outer[header(i)] {
			return i
		}
		return nil
	}); !ok {
		r.fail(n.key("kept"), "a NOT of %s may be left: %s", n.list, why)
	}
}

// visits: every element is looked at before the end, and no operator is
// changed elsewhere.
func (n *notElim) visits() {
	if len(n.outer) == 0 {
		return
	}
	r := n.po.r
	s := n.scen(n.op["Unknown"], true)
	idx := map[*T]bool{}
	s.onEv = func(e *FEvent) {
		if e.kind == "store" {
			if i := n.own(s, e.addr); i != nil {
				in := false
				for b := range n.outer {
					for c := e.ctx; c != nil; c = c.up {
						in = in || c.fn == b.Parent()
					}
				}
				if n.outer[header(i)] {
					idx[i] = true
				} else if !in {
					r.fail(n.key("elsewhere:"+shortFn(e.site.Parent())), "%s: the operator of a condition of %s is changed where there is no NOT", n.po.p.instrPos(e.site), n.list)
				}
			}
		}
		if e.kind == "call" && strings.HasPrefix(e.name, "sort.") {
			n.order(s, e)
		}
	}
	s.run(nil)
	if len(idx) == 0 {
		undec("the loop over the NOTs of %s stores nothing", n.list)
	}
	for i := range idx {
		if ok, why := s.visitsAll(i, n.list); !ok {
			r.fail(n.key("visits"), "not every condition of %s is looked at for NOT: %s", n.list, why)
		}
	}
}

// operator: within the operand of NOT.
func (n *notElim) operator(nm string) {
	r := n.po.r
	c := n.op[nm]
	r.count("operators", 1)
	want, has := n.comp[c]
	// what is stored
	s := n.scen(c, true)
	s.onEv = func(e *FEvent) {
		if e.kind != "store" {
			return
		}
		i := n.own(s, e.addr)
		if i == nil {
			return
		}
		v, ok := e.val.intVal()
		switch {
		case n.outer[header(i)]:
			if !ok || v != n.op["Noop"] {
				r.fail(n.key("store"), "%s: a NOT of %s is replaced by the operator %s", n.po.p.instrPos(e.site), n.list, n.name(e.val))
			}
		case ok && v == c, has && ok && v == want:
		case !has:
			r.fail(n.key("store:"+nm), "%s: %s within NOT is replaced by %s", n.po.p.instrPos(e.site), nm, n.name(e.val))
		default:
			r.fail(n.key("store:"+nm), "%s: %s within NOT is replaced by %s, its complement is %s", n.po.p.instrPos(e.site), nm, n.name(e.val), n.nameOf(want))
		}
	}
	s.run(nil)
	if has {
		if ok, why := n.po.everyTurn(n.fn, func(s *scen) { n.set(s); n.assume(s, c, true) }, func(s *scen, e *FEvent) *T {
			if e.kind != "store" {
				return nil
			}
			i := n.own(s, e.addr)
			if v, ok := e.val.intVal(); i != nil && ok && v == want && !n.outer[header(i)] {
				return i
			}
			return nil
		}); !ok {
			r.fail(n.key("turn:"+nm), "%s within NOT may not become %s in %s: %s", nm, n.nameOf(want), n.list, why)
		}
	}
	// what is not within NOT
	s2 := n.scen(c, false)
	s2.onEv = func(e *FEvent) {
		if e.kind != "store" {
			return
		}
		if i := n.own(s2, e.addr); i != nil {
			if v, ok := e.val.intVal(); !ok || v != c {
				r.fail(n.key("outside:"+nm), "%s: %s is replaced by %s where there is no NOT", n.po.p.instrPos(e.site), nm, n.name(e.val))
			}
		}
	}
	s2.run(nil)
}

func (n *notElim) nameOf(v int64) string {
	for k, x := range n.op {
		if x == v {
			return k
		}
	}
	return fmt.Sprint(v)
}

func (n *notElim) name(v *T) string {
	if x, ok := v.intVal(); ok {
		return n.nameOf(x)
	}
	return short(v)
}

// scan is what one scenario shows of the search for the operand.
type scan struct {
	reads map[*T]bool // indices of the elements scanned
	ends  []scanEnd
	edges []scanEdge
	rets  map[*T][]scanEnd
	not   *T
	inner map[*T]bool // bases of the indices within the operand
}

type scanEnd struct {
	at *T // first index of the operand
	st *FState
}

type scanEdge struct {
	ctx      *Ctx
	from, to *ssa.BasicBlock
	was, st  *FState
}

func phiOf(t *T) *ssa.Phi {
	if t.op != "phi" || t.blk == nil {
		return nil
	}
	for _, in := range t.blk.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && strings.HasSuffix(strings.SplitN(t.c, "@", 2)[0], ".v:"+ph.Name()) {
			return ph
		}
	}
	return nil
}

// scanned runs a scenario in which the elements before the NOT are all alike.
func (n *notElim) scanned(c int64, inner map[*ssa.BasicBlock]bool) (*scen, *scan) {
	s := n.scen(c, true)
	s.f.open = true
	sc := &scan{rets: map[*T][]scanEnd{}, reads: map[*T]bool{}, inner: map[*T]bool{}}
	read := s.read
	reads := map[*T]bool{}
	s.read = func(a *T, p string) *T {
		v := read(a, p)
		if v != nil && n.own(s, a) != nil && s.f.live {
			sc.reads[a.args[0].args[1]] = true
			reads[a.args[0]] = true
		}
		return v
	}
	type in struct {
		i, l *T
		e    *FEvent
	}
	var ins []in
	var nots []*T
	s.onEv = func(e *FEvent) {
		if e.kind != "store" {
			return
		}
		i := n.own(s, e.addr)
		if i == nil {
			return
		}
		if n.outer[header(i)] {
			nots = append(nots, i)
			return
		}
		ins = append(ins, in{i, e.addr.args[0].args[0], e})
	}
	s.f.onEdge = func(ctx *Ctx, from, to *ssa.BasicBlock, was, st *FState) {
		sc.edges = append(sc.edges, scanEdge{ctx, from, to, was.fork(), st.fork()})
	}
	s.f.onRet = func(vals []*T, rs []FRet) {
		for i, v := range vals {
			if v == nil || v.op != "phi" {
				continue
			}
			for _, x := range rs {
				if i < len(x.vals) && x.vals[i] != v {
					sc.rets[v] = append(sc.rets[v], scanEnd{x.vals[i], x.st})
				}
			}
		}
	}
	s.run(nil)
	s.f.onEdge, s.f.onRet = nil, nil
	if nots = dedupT(nots); len(nots) != 1 {
		undec("the index of the NOTs of %s is not found", n.list)
	}
	not := nots[0]
	sc.not = not
	for a := range reads {
		if inner[header(a.args[1])] {
			ins = append(ins, in{a.args[1], a.args[0], nil})
		}
	}
	seen := map[*T]bool{}
	for _, x := range ins {
		b, k := splitAdd(x.i)
		if seen[b] || b.op != "phi" {
			continue
		}
		seen[b] = true
		sc.inner[b] = true
		ph := phiOf(b)
		if ph == nil {
			undec("the index of the operand of NOT is not a loop variable")
		}
		lo, hi := (*T)(nil), not
		if x.l.op == "slice" && !isNilT(x.l.args[1]) {
			lo, hi = x.l.args[1], s.f.length(x.l)
			if x.l.args[2] != not {
				n.po.r.fail(n.key("until"), "%s: the operand of NOT does not end at the NOT", n.po.p.instrPos(phiOf(b)))
			}
		}
		for _, e := range sc.edges {
			if e.ctx != b.ctx {
				continue
			}
			body := b.ctx.loop[b.blk]
			switch {
			case e.to == b.blk && !body[e.from]:
				at := s.f.add(e.st.env[ph], k)
				if lo != nil {
					if z, ok := at.intVal(); !ok || z != 0 {
						undec("the first index of the operand of NOT is not found")
					}
					at = lo
				}
				n.ends(s, sc, at, e.st, map[*T]bool{})
			case e.to == b.blk:
				if y, d := splitAdd(e.st.env[ph]); y != b || d != 1 {
					n.po.r.fail(n.key("step"), "the operand of NOT is not visited one by one in %s", shortFn(b.blk.Parent()))
				}
			case body[e.from] && !body[e.to]:
				if lessFacts(e.st, x.i, hi) != 0 {
					n.po.r.fail(n.key("until"), "the loop over the operand of NOT in %s may end before the NOT", shortFn(b.blk.Parent()))
				}
			}
		}
		if x.e != nil && lessFacts(x.e.st, x.i, hi) != 1 {
			n.po.r.fail(n.key("until"), "%s: what comes after the NOT may be changed", n.po.p.instrPos(x.e.site))
		}
	}
	return s, sc
}

// ends collects the values the first index may have, with what is known there.
func (n *notElim) ends(s *scen, sc *scan, at *T, st *FState, seen map[*T]bool) {
	b, k := splitAdd(at)
	if rs := sc.rets[b]; len(rs) > 0 && !seen[b] {
		seen[b] = true
		for _, e := range rs {
			n.ends(s, sc, s.f.add(e.at, k), e.st, seen)
		}
		return
	}
	if ph := phiOf(b); ph != nil && b.ctx.loop[b.blk] == nil && !seen[b] {
		seen[b] = true
		for _, e := range sc.edges {
			if e.ctx == b.ctx && e.to == b.blk {
				n.ends(s, sc, s.f.add(e.st.env[ph], k), e.st, seen)
			}
		}
		return
	}
	if phiOf(b) != nil && !n.outer[b.blk] {
		// what is known where the loop is left
		body := b.ctx.loop[b.blk]
		for _, e := range sc.edges {
			if e.ctx == b.ctx && body[e.from] && !body[e.to] {
				sc.ends = append(sc.ends, scanEnd{at, e.st})
			}
		}
		return
	}
	sc.ends = append(sc.ends, scanEnd{at, st})
}

// lessFacts tells what the facts say of a < b.
func lessFacts(st *FState, a, b *T) int {
	A, ka := splitConst(a)
	B, kb := splitConst(b)
	for k, t := range st.facts {
		if k.op != "lt" {
			continue
		}
		U, ku := splitConst(k.args[0])
		W, kw := splitConst(k.args[1])
		switch {
		case U == A && W == B:
			if t && kw-ku <= kb-ka {
				return 1
			}
			if !t && kw-ku >= kb-ka {
				return 0
			}
		case U == B && W == A:
			ku, kw = kw, ku
			if t && kw-ku+1 >= kb-ka {
				return 0
			}
			if !t && kw-ku < kb-ka {
				return 1
			}
		}
	}
	return -1
}

// splitConst is splitAdd with constants as offsets from nothing.
func splitConst(a *T) (*T, int64) {
	if n, ok := a.intVal(); ok {
		return nil, n
	}
	return splitAdd(a)
}

// reached collects the constants for which the facts are "the value has
// reached it" (yes) or "it has not yet" (no); dir is the sign of an operand.
func reached(st *FState, n *T, dir int64) (yes, no []int64) {
	base, off := splitConst(n)
	if base == nil {
		return nil, nil
	}
	for k, t := range st.facts {
		if k.op != "eq" && k.op != "lt" {
			continue
		}
		a, ka := splitConst(k.args[0])
		b, kb := splitConst(k.args[1])
		var c int64 // n <op> c
		flip := false
		switch {
		case a == base && b == nil:
			c = kb - ka + off
		case b == base && a == nil:
			c, flip = ka-kb+off, true
		default:
			continue
		}
		if k.op == "eq" {
			if t {
				yes = append(yes, c)
			} else {
				no = append(no, c)
			}
			continue
		}
		// as n <= m or n >= m
		var m int64
		var le bool
		switch {
		case !flip && t:
			m, le = c-1, true
		case !flip:
			m, le = c, false
		case t:
			m, le = c+1, false
		default:
			m, le = c, true
		}
		if le == (dir < 0) { // an operand lowers the count: n <= m is having reached m
			yes = append(yes, m)
		} else if dir < 0 {
			no = append(no, m-1)
		} else {
			no = append(no, m+1)
		}
	}
	return yes, no
}

func hasInt(l []int64, n int64) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

// span: the operand of a NOT is the expression that ends right before it.
func (n *notElim) span() {
	r := n.po.r
	var leaf, start, target int64
	var counter *ssa.Phi
	inner := map[*ssa.BasicBlock]bool{}
	_, in := n.scanned(n.op["And"], nil)
	for b := range in.inner {
		inner[b.blk] = true
	}
	after := false // the end is looked for after an element was counted
	for _, c := range []struct {
		nm   string
		kind int64 // -1 an operand, 1 an operator, 0 nothing
	}{{"Unknown", -1}, {"FieldInfo", -1}, {"And", 1}, {"Or", 1}, {"Eq", 1}, {"NotEq", 1}, {"Lt", 1}, {"Le", 1}, {"Gt", 1}, {"Ge", 1}, {"Like", 1}, {"NotLike", 1}, {"In", 1}, {"NotIn", 1}, {"Includes", 1}, {"Excludes", 1}, {"Noop", 0}} {
		s, sc := n.scanned(n.op[c.nm], inner)
		// the scan reads at an index that falls
		var x *T
		for i := range sc.reads {
			b, _ := splitAdd(i)
			ph := phiOf(b)
			h := header(i)
			if ph == nil || h == nil || n.outer[h] || sc.inner[b] {
				continue
			}
			down, in := false, false
			for _, e := range sc.edges {
				if e.ctx == b.ctx && e.to == h && b.ctx.loop[h][e.from] {
					y, d := splitAdd(e.st.env[ph])
					down = down || y == b && d < 0
				}
			}
			for _, e := range sc.ends {
				y, _ := splitAdd(e.at)
				in = in || y == b
			}
			if down || in {
				if x != nil && x != i {
					undec("more than one index falls in the search for the operand of NOT")
				}
				x = i
			}
		}
		if x == nil {
			undec("the search for the operand of a NOT of %s is not found (%s)", n.list, c.nm)
		}
		p, k := splitAdd(x)
		pp, h := phiOf(p), p.blk
		body := p.ctx.loop[h]
		where := shortFn(h.Parent())
		if counter == nil {
			// the variable of the loop that changes by one and is known where it ends
			for _, e := range sc.edges {
				if e.ctx != p.ctx || e.to != h || !body[e.from] {
					continue
				}
				for _, in := range h.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok || ph == pp || !isInt(ph.Type()) {
						continue
					}
					a, ka := splitConst(e.was.env[ph])
					b, kb := splitConst(e.st.env[ph])
					if a == nil || a != b || kb-ka != 1 && kb-ka != -1 {
						continue
					}
					known := false
					for _, y := range sc.ends {
						yes, _ := reached(y.st, a, kb-ka)
						known = known || len(yes) > 0
					}
					if known {
						if counter != nil && counter != ph {
							undec("how the operands are counted is not found")
						}
						counter, leaf = ph, kb-ka
					}
				}
			}
			if counter == nil {
				r.fail(n.key("scan:"+c.nm), "%s: an operand is not counted in the search for the operand of a NOT of %s", where, n.list)
				return
			}
		}
		var cur *T // the count before an element
		delta, turns := int64(0), 0
		for _, e := range sc.edges {
			if e.ctx != p.ctx || e.to != h {
				continue
			}
			if !body[e.from] {
				v, ok := e.st.env[counter].intVal()
				if !ok {
					undec("the count of operands does not begin with a constant in %s", where)
				}
				if start = v; cur == nil {
					cur = e.st.env[counter]
				}
				if fb, fk := splitAdd(s.f.add(e.st.env[pp], k)); !n.outer[header(fb)] || s.f.add(fb, fk+1) != n.notAt(sc) {
					r.fail(n.key("scan:first"), "%s: the search for the operand of a NOT of %s does not begin right before the NOT", where, n.list)
				}
				continue
			}
			turns++
			if y, d := splitAdd(e.st.env[pp]); y != p || d != -1 {
				r.fail(n.key("scan:step"), "%s: the search for the operand of a NOT of %s leaves out elements", where, n.list)
			}
			a, ka := splitConst(e.was.env[counter])
			b, kb := splitConst(e.st.env[counter])
			if a != b || turns > 1 && kb-ka != delta {
				undec("how %s is counted in %s is not found", c.nm, where)
			}
			delta = kb - ka
			cur = e.was.env[counter]
		}
		if turns == 0 {
			r.fail(n.key("scan:"+c.nm), "%s: the search for the operand of a NOT of %s ends at the first %s", where, n.list, c.nm)
			continue
		}
		if want := -c.kind * leaf; delta != want {
			r.fail(n.key("scan:"+c.nm), "%s: %s counts by %d in the search for the operand of a NOT of %s, where an operand counts by %d", where, c.nm, delta, n.list, leaf)
			continue
		}
		target = start + leaf
		// where it ends
		good := 0
		at := target
		for _, e := range sc.ends {
			if lessFacts(e.st, x, s.f.intc(0)) == 1 {
				if z, ok := e.at.intVal(); ok && z == 0 || e.at == s.f.add(x, 1) {
					continue // there is nothing more
				}
			}
			if e.at == x && lessFacts(e.st, s.f.intc(0), x) == 0 {
				continue // it is the first of all
			}
			yes, _ := reached(e.st, cur, leaf)
			ok := false
			switch e.at {
			case x:
				ok, after = hasInt(yes, target-delta), true
				at = target - delta
			case s.f.add(x, 1):
				ok = hasInt(yes, target)
			}
			if !ok {
				r.fail(n.key("scan:end:"+c.nm), "%s: the operand of a NOT of %s is taken to begin at %s, where it is not known that one operand is complete (elements before: %s)", where, n.list, short(e.at), c.nm)
				continue
			}
			good++
		}
		if after {
			at = target - delta
		}
		// and where it goes on
		for _, e := range sc.edges {
			if e.ctx != p.ctx || e.to != h || !body[e.from] {
				continue
			}
			if v, ok := e.was.env[counter].intVal(); ok && v != at {
				continue // not counted, so never complete
			}
			if c.kind == 0 && after {
				continue // nothing new is counted
			}
			if _, no := reached(e.was, e.was.env[counter], leaf); !hasInt(no, at) {
				r.fail(n.key("scan:on:"+c.nm), "%s: the search for the operand of a NOT of %s may go on where one operand is complete (elements before: %s)", where, n.list, c.nm)
			}
		}
		r.sample("%s: %s counts by %d, %d ends", where, c.nm, delta, good)
		r.count("ends of the scan for the operand", good)
	}
}

// notAt is the index of the NOT.
func (n *notElim) notAt(sc *scan) *T { return sc.not }

// order: what takes the no-operations out leaves the rest in its order.
func (n *notElim) order(s *scen, e *FEvent) {
	if len(e.args) < 2 {
		return
	}
	l := e.args[0]
	if l.op == "iface" {
		l = l.args[0]
	}
	if anyIdx(s.path(l)) != n.list {
		return
	}
	if e.name != "sort.SliceStable" && e.name != "sort.Stable" {
		n.po.r.fail(n.key("order"), "%s: %s may change the order of the conditions of %s", n.po.p.instrPos(e.site), e.name, n.list)
	}
}
