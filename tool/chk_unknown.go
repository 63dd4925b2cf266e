package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "The function that writes Unknown into the filter of one object is found. For each operator assumed of the condition looked at, and each assumption on which of its operands are marked unknown: with one of them (for AND: both) unknown, every turn writes Unknown in its place and marks the result; "+
		"AND with one unknown operand is taken out; with none unknown nothing is written. A comparison on a field elsewhere, a function or a subquery is made Unknown and marked.", checkC23)
}

// unknowns looks at how Unknown spreads in the filter of an object.
type unknowns struct {
	po   *post
	op   map[string]int64
	fn   *ssa.Function
	at   map[*ssa.BasicBlock]bool // headers of the loops that write it
	root *T
}

const whereOpcode = "q.Where[].Opcode"

func checkC23(r *Run) {
	po := r.post()
	u := &unknowns{po: po, op: map[string]int64{}, fn: po.qFn, at: map[*ssa.BasicBlock]bool{}}
	for _, nm := range po.p.namedType(typesPkg, "SoqlConditionOpcode").Obj().Pkg().Scope().Names() {
		if strings.HasPrefix(nm, "SoqlConditionOpcode_") {
			u.op[strings.TrimPrefix(nm, "SoqlConditionOpcode_")] = po.p.constInt(typesPkg, nm)
		}
	}
	u.find()
	var tasks []func(r *Run)
	on := func(f func(u *unknowns)) {
		tasks = append(tasks, func(r *Run) { m := *u; m.po = po.on(r); f(&m) })
	}
	for _, nm := range sortedKeys(u.op) {
		nm := nm
		switch nm {
		case "Noop", "Unknown", "FieldInfo":
			continue
		case "Not":
			on(func(u *unknowns) { u.spread(nm, 1, "Unknown") })
		case "And":
			on(func(u *unknowns) { u.spread(nm, 3, "Unknown") })
			on(func(u *unknowns) { u.spread(nm, 1, "Noop") })
			on(func(u *unknowns) { u.spread(nm, 2, "Noop") })
		default:
			on(func(u *unknowns) { u.spread(nm, 1, "Unknown") })
			on(func(u *unknowns) { u.spread(nm, 2, "Unknown") })
		}
		on(func(u *unknowns) { u.none(nm) })
	}
	for _, k := range []string{"Field", "Function", "SubQuery"} {
		k := k
		on(func(u *unknowns) { u.leaf(k) })
	}
	r.par(tasks)
	r.floor("operators and unknown operands", 29)
	r.floor("kinds of comparisons", 3)
}

// find looks for the loops that write Unknown into a copy of the conditions.
func (u *unknowns) find() {
	s := u.po.whole(u.po.scen(u.po.qFn))
	s.atLeast("q.Where", 1).atLeast("q.From", 1)
	s.onEv = func(e *FEvent) {
		if i := u.cond(s, e); i != nil {
			if v, ok := e.val.intVal(); ok && v == u.op["Unknown"] {
				if b := header(i); b != nil {
					u.at[b] = true
				}
			}
		}
	}
	s.run(nil)
	if len(u.at) == 0 {
		undec("no loop that writes Unknown into a filter was found")
	}
	var fn *ssa.Function
	for b := range u.at {
		if fn != nil && fn != b.Parent() {
			return
		}
		fn = b.Parent()
	}
	k := 0
	for _, p := range fn.Params {
		if u.isList(p.Type()) {
			k++
		}
	}
	if k == 1 {
		u.fn = fn
	}
}

func (u *unknowns) isList(t types.Type) bool {
	return typeKey(t) == "[]"+typeKey(u.po.p.namedType(typesPkg, "SoqlCondition"))
}

// cond is the index of a condition whose operator is stored.
func (u *unknowns) cond(s *scen, e *FEvent) *T {
	if e.kind != "store" || e.addr.op != "fa" || e.addr.args[0].op != "ia" || anyIdx(s.path(e.addr)) != whereOpcode {
		return nil
	}
	return e.addr.args[0].args[1]
}

// set prepares a scenario.
func (u *unknowns) set(s *scen, c int64) {
	u.po.whole(s)
	s.atLeast("q.Where", 1).atLeast("q.From", 1)
	if u.fn != u.po.qFn {
		for i, p := range u.fn.Params {
			if u.isList(p.Type()) {
				s.copies[s.args[i]] = "q.Where"
			}
		}
	}
	typ := u.po.p.namedType(typesPkg, "SoqlConditionOpcode")
	s.read = func(a *T, p string) *T {
		if anyIdx(p) != whereOpcode {
			return nil
		}
		return s.f.cnst(constant.MakeInt64(c), typ)
	}
}

// mark is a test whether an operand was found to be unknown: what it looks at
// and the answer that means unknown.
func (u *unknowns) mark(s *scen, c *T) (place *T, yes bool) {
	elem := func(a *T) *T { // element of a list made here
		for a.op == "fa" {
			a = a.args[0]
		}
		if a.op == "ia" && s.path(a) == "" {
			return a
		}
		return nil
	}
	if c.op == "eq" {
		for _, p := range [][2]*T{{c.args[0], c.args[1]}, {c.args[1], c.args[0]}} {
			if v, ok := p[1].intVal(); ok && v == u.op["Unknown"] && p[0].op == "load" && strings.HasSuffix(typeKey(p[0].typ), "SoqlConditionOpcode") {
				return elem(p[0].args[0]), true
			}
		}
	}
	if c.op == "load" && c.args[0].op == "fa" {
		return elem(c.args[0]), true
	}
	return nil, false
}

// offset is the place of an operand from the end of the list of operands.
func (u *unknowns) offset(a *T) (int64, bool) {
	if a == nil {
		return 0, false
	}
	b, k := splitAdd(a.args[1])
	if b.op == "len" {
		b = b.args[0]
	}
	return k, u.at[header(b)]
}

// marks answers the tests for unknown operands: bit 0 for the last operand,
// bit 1 for the one before it.
func (u *unknowns) marks(s *scen, which int, seen map[int64]bool) {
	s.also = func(st *FState, c *T) int {
		a, yes := u.mark(s, c)
		k, ok := u.offset(a)
		if !ok || k != -1 && k != -2 {
			return -1
		}
		if s.f.live && seen != nil {
			seen[k] = true
		}
		if (which>>uint(-1-k)&1 == 1) == yes {
			return 1
		}
		return 0
	}
}

// marked is the place where a result is marked unknown.
func (u *unknowns) marked(s *scen, e *FEvent) *T {
	if e.kind != "store" {
		return nil
	}
	a := e.addr
	for a.op == "fa" {
		a = a.args[0]
	}
	if a.op != "ia" || s.path(a) != "" {
		return nil
	}
	b, _ := splitAdd(a.args[1])
	if !u.at[header(b)] || !u.isMark(e.val) {
		return nil
	}
	return a.args[1]
}

func (u *unknowns) isMark(v *T) bool {
	if v.op == "struct" {
		for _, x := range v.args {
			if u.isMark(x) {
				return true
			}
		}
		return false
	}
	if b, ok := v.boolVal(); ok {
		return b
	}
	n, ok := v.intVal()
	return ok && n == u.op["Unknown"] && strings.HasSuffix(typeKey(v.typ), "SoqlConditionOpcode")
}

// marksAreStored tells whether results are marked by stores at all.
func (u *unknowns) marksAreStored() bool {
	s := u.po.scen(u.fn)
	u.po.whole(s)
	if u.fn != u.po.qFn {
		for i, p := range u.fn.Params {
			if u.isList(p.Type()) {
				s.copies[s.args[i]] = "q.Where"
			}
		}
	}
	found := false
	s.onEv = func(e *FEvent) { found = found || u.marked(s, e) != nil }
	s.run(nil)
	return found
}

func (u *unknowns) where() string { return shortFn(u.fn) }

// spread: an operator with unknown operands.
func (u *unknowns) spread(nm string, which int, want string) {
	r := u.po.r
	r.count("operators and unknown operands", 1)
	text := map[int]string{1: "right operand", 2: "left operand", 3: "operands"}[which]
	if nm == "Not" {
		text = "operand"
	}
	seen := map[int64]bool{}
	put := func(s *scen, e *FEvent) *T {
		i := u.cond(s, e)
		if v, ok := storedInt(e); i != nil && ok && v == u.op[want] && u.at[header(i)] {
			return i
		}
		return nil
	}
	set := func(s *scen) {
		u.set(s, u.op[nm])
		u.marks(s, which, seen)
	}
	ok, why := u.po.everyTurn(u.fn, set, put)
	for k := int64(-1); k >= -2; k-- {
		if which>>uint(-1-k)&1 == 1 && !seen[k] && which != 3 {
			ok, why = false, "it is not tested for"
		}
	}
	if !ok {
		r.fail("unknown:"+nm+":"+text, "%s: where the %s of %s is unknown, %s may be left: %s", u.where(), text, nm, nm, why)
		return
	}
	// the elements of the operand are taken out
	s := u.po.scen(u.fn)
	set(s)
	s.f.open = true
	cleared, other := false, ""
	s.onEv = func(e *FEvent) {
		i := u.cond(s, e)
		if i == nil || u.at[header(i)] || !u.inTurn(e) {
			return
		}
		if v, ok := e.val.intVal(); !ok || v != u.op["Noop"] {
			return
		}
		cleared = true
		if which == 3 || want != "Noop" {
			return
		}
		b, _ := splitAdd(i)
		for _, x := range s.f.alts[b] {
			if x.op == "load" {
				y := x.args[0]
				for y.op == "fa" {
					y = y.args[0]
				}
				if y.op == "ia" {
					if k, ok := u.offset(y); ok && (k == -1 || k == -2) && which>>uint(-1-k)&1 == 0 {
						other = u.po.p.instrPos(e.site)
					}
				}
			}
		}
	}
	s.run(nil)
	if !cleared {
		r.fail("clear:"+nm+":"+text, "%s: where the %s of %s is unknown, nothing is taken out of the filter", u.where(), text, nm)
	}
	if other != "" {
		r.fail("clear:"+nm+":"+text, "%s: where the %s of %s is unknown, the other operand is taken out of the filter", other, text, nm)
	}
	if want == "Unknown" && u.marksAreStored() {
		if ok, why := u.po.everyTurn(u.fn, set, u.marked); !ok {
			r.fail("mark:"+nm+":"+text, "%s: where the %s of %s is unknown, its result may not be marked unknown: %s", u.where(), text, nm, why)
		}
	}
	r.sample("%s with unknown %s: %s", nm, text, want)
}

// none: an operator all operands of which are known stays.
func (u *unknowns) none(nm string) {
	s := u.po.scen(u.fn)
	u.set(s, u.op[nm])
	u.marks(s, 0, nil)
	s.f.open = true
	s.onEv = func(e *FEvent) {
		if i := u.cond(s, e); i != nil && u.at[header(i)] {
			if v, ok := e.val.intVal(); !ok || v != u.op[nm] {
				u.po.r.fail("known:"+nm, "%s: %s is replaced in a filter though its operands are known", u.po.p.instrPos(e.site), nm)
			}
		}
	}
	s.run(nil)
}

// leaf: what cannot be evaluated on the object alone.
func (u *unknowns) leaf(kind string) {
	r := u.po.r
	r.count("kinds of comparisons", 1)
	if ok, why := u.po.everyTurn(u.po.qFn, u.po.foreignTo(kind), u.po.intoUnknown); !ok {
		r.fail("leaf:"+kind, "a comparison of kind %s that is not one on a field of the object is not unknown in the filter of the object in %s: %s", kind, u.where(), why)
		return
	}
	if u.marksAreStored() {
		if ok, why := u.po.everyTurn(u.po.qFn, u.po.foreignTo(kind), u.marked); !ok {
			r.fail("mark:"+kind, "%s: a comparison of kind %s that is not one on a field of the object may not be marked unknown: %s", u.where(), kind, why)
		}
	}
}

func storedInt(e *FEvent) (int64, bool) {
	if e.val == nil {
		return 0, false
	}
	return e.val.intVal()
}

// inTurn tells whether an event happens in the loop over the conditions.
func (u *unknowns) inTurn(e *FEvent) bool {
	b := e.site.Block()
	for c := e.ctx; c != nil; c = c.up {
		for h := range u.at {
			if h.Parent() == c.fn && c.loop[h][b] {
				return true
			}
		}
		if c.call != nil {
			b = c.call.Block()
		}
	}
	return false
}
