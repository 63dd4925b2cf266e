package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file runs the dataflow analysis on the normalisation stage under
// assumptions about the statement (scenarios): members of the query have given
// kinds, names and lengths, map lookups have given answers. A rule says that
// no successful return can be reached under the assumptions at all, or not
// without passing a certain event.

type post struct {
	r       *Run
	p       *Program
	norm    *ssa.Function // the entry
	qFn     *ssa.Function // normalises one query, recursively
	fFn     *ssa.Function // normalises one field, recursively
	opaque  map[*ssa.Function]bool
	reaches func(a, b *ssa.Function) bool
	qParam  int // positions of the parameters
	parent  int
	place   int
	maps    []int
	fParam  int
	fQuery  int
	top     []*T // the arguments of the outermost call
	calls   map[string][]*fieldCall
	nested  map[string][]*fieldCall
	inScc   map[*ssa.Function]bool
}

// fieldCall is a call of the function that normalises a field.
type fieldCall struct {
	origin string // which member of the query
	args   []*T
	site   ssa.CallInstruction
}

func (r *Run) post() *post {
	p := r.program()
	po := &post{r: r, p: p, calls: map[string][]*fieldCall{}, nested: map[string][]*fieldCall{}, inScc: map[*ssa.Function]bool{}}
	parse := p.pkgFn(modPath+"/soql/parser", "Parse")
	isPtrTo := func(t types.Type, n string) bool {
		pt, ok := types.Unalias(t).(*types.Pointer)
		return ok && typeKey(pt.Elem()) == typeKey(p.namedType(typesPkg, n))
	}
	params := func(fn *ssa.Function, n string) []int {
		var is []int
		for i, x := range fn.Params {
			if isPtrTo(x.Type(), n) {
				is = append(is, i)
			}
		}
		return is
	}
	callees := func(fn *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if h := c.Common().StaticCallee(); h != nil && h.Blocks != nil && parserPkg(fnPkg(h)) {
							out = append(out, h)
						}
					}
				}
			}
			for _, a := range g.AnonFuncs {
				walk(a)
			}
		}
		walk(fn)
		return out
	}
	reaches := func(a, b *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function) bool
		walk = func(g *ssa.Function) bool {
			for _, h := range callees(g) {
				if h == b {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if walk(h) {
						return true
					}
				}
			}
			return false
		}
		return walk(a)
	}
	po.reaches = reaches
	bfs := func(from *ssa.Function, ok func(g *ssa.Function) bool) *ssa.Function {
		seen := map[*ssa.Function]bool{from: true}
		work := []*ssa.Function{from}
		for len(work) > 0 {
			g := work[0]
			work = work[1:]
			for _, h := range callees(g) {
				if seen[h] {
					continue
				}
				seen[h] = true
				if ok(h) {
					return h
				}
				work = append(work, h)
			}
		}
		return nil
	}
	for _, g := range callees(parse) {
		if len(params(g, "SoqlQuery")) > 0 && fnPkg(g) != fnPkg(parse) {
			po.norm = g
		}
	}
	if po.norm == nil {
		undec("Parse calls no function that normalises a query")
	}
	po.qFn = bfs(po.norm, func(g *ssa.Function) bool {
		return len(params(g, "SoqlQuery")) > 0 && reaches(g, g) && errIndex(g.Signature) >= 0
	})
	if po.qFn == nil {
		undec("%s reaches no recursive function that normalises a query", shortFn(po.norm))
	}
	po.fFn = bfs(po.qFn, func(g *ssa.Function) bool {
		return len(params(g, "SoqlFieldInfo")) == 1 && reaches(g, po.qFn) && errIndex(g.Signature) >= 0
	})
	if po.fFn == nil {
		undec("%s reaches no recursive function that normalises a field", shortFn(po.qFn))
	}
	_, op := p.units(parserPkg)
	po.opaque = map[*ssa.Function]bool{}
	for g := range op {
		if reaches(g, po.qFn) {
			po.inScc[g] = true
		}
		if g != po.qFn && g != po.norm && !po.inScc[g] {
			po.opaque[g] = true
		}
	}
	po.opaque[po.fFn] = true
	po.fParam = params(po.fFn, "SoqlFieldInfo")[0]
	if q := params(po.fFn, "SoqlQuery"); len(q) == 1 {
		po.fQuery = q[0]
	} else {
		undec("%s takes %d queries", shortFn(po.fFn), len(q))
	}
	// the roles of the parameters
	f := po.flow()
	f.opaque[po.qFn] = true
	n := 0
	var np *T
	for _, x := range po.norm.Params {
		if isPtrTo(x.Type(), "SoqlQuery") {
			np = f.param(x)
		}
	}
	f.onEv = func(e *FEvent) {
		if e.kind != "call" {
			return
		}
		if c, ok := e.site.(ssa.CallInstruction); ok && c.Common().StaticCallee() == po.qFn {
			n++
			po.qParam, po.parent, po.place = -1, -1, -1
			po.top = e.args
			for i, a := range e.args {
				t := po.qFn.Params[i].Type()
				switch {
				case a == np && np != nil:
					po.qParam = i
				case isPtrTo(t, "SoqlQuery") && isNilT(a):
					po.parent = i
				case isInt(t):
					if _, named := types.Unalias(t).(*types.Named); named {
						po.place = i
					}
				}
				if _, isMap := under(t).(*types.Map); isMap {
					po.maps = append(po.maps, i)
				}
			}
		}
	}
	f.start(po.norm, nil)
	if n != 1 || po.qParam < 0 || po.parent < 0 || po.place < 0 {
		undec("the call of %s in %s has an unexpected form", shortFn(po.qFn), shortFn(po.norm))
	}
	// the calls for the fields of a query
	s := po.scen(po.qFn)
	s.onEv = func(e *FEvent) {
		if c := s.fieldCall(e); c != nil {
			po.calls[c.origin] = append(po.calls[c.origin], c)
			if c.origin == "" && os.Getenv("VERIF_DEBUG") != "" {
				a := e.args[po.fParam]
				fmt.Println("??", a, po.p.instrPos(c.site), s.path(a))
				for k, v := range e.st.mem {
					if k.op == "fa" && k.args[0] == a {
						fmt.Println("   ", k.c, v)
					}
				}
			}
		}
	}
	s.run(nil)
	for _, c := range sortedKeys(po.calls) {
		r.count("members whose fields are normalised", 1)
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println("origin", c, len(po.calls[c]))
		}
	}
	return po
}

func (po *post) flow() *Flow {
	f := newFlow(po.p)
	f.opaque = map[*ssa.Function]bool{}
	for g := range po.opaque {
		f.opaque[g] = true
	}
	return f
}

// scen is a scenario.
type scen struct {
	po      *post
	f       *Flow
	fn      *ssa.Function
	args    []*T
	q       *T // the query
	fld     *T // the field
	vals    map[string]*T
	minLen  map[string]int
	maxLen  map[string]int
	isa     map[string]string
	has     func(st *FState, a *T) int // the answer of a map lookup
	stop    func(e *FEvent) bool
	onEv    func(e *FEvent)
	rets    []FRet
	inl     []string                   // members whose calls are analysed in place
	copies  map[*T]string              // local copies of elements
	copyIdx map[*T]*T                  // and their indices
	onAny   func(e *FEvent)            // called for every event, in every pass
	also    func(st *FState, c *T) int // a further assumption on conditions
	read    func(a *T, path string) *T // what is found at an address
	keep    map[string]*T              // values the normalisation of other members leaves as they were
}

func (po *post) scen(fn *ssa.Function) *scen {
	s := &scen{po: po, f: po.flow(), fn: fn, vals: map[string]*T{}, minLen: map[string]int{}, maxLen: map[string]int{}, isa: map[string]string{}, copies: map[*T]string{}, copyIdx: map[*T]*T{}}
	delete(s.f.opaque, fn)
	for _, x := range fn.Params {
		s.args = append(s.args, s.f.param(x))
	}
	switch fn {
	case po.qFn:
		s.q = s.args[po.qParam]
		s.f.opaque[po.fFn] = true
	case po.fFn:
		s.q, s.fld = s.args[po.fQuery], s.args[po.fParam]
	}
	return s
}

// with takes over the constant arguments of a recorded call.
func (s *scen) with(c *fieldCall) *scen {
	for i, a := range c.args {
		if i != s.po.fParam && i != s.po.fQuery && isConstT(a) {
			s.args[i] = s.retype(a)
		}
	}
	return s
}

// retype makes a constant of another analysis a constant of this one.
func (s *scen) retype(a *T) *T {
	if a.op == "struct" {
		var as []*T
		for _, x := range a.args {
			as = append(as, s.retype(x))
		}
		return s.f.mk("struct", a.c, a.typ, as...)
	}
	if isNilT(a) {
		return s.f.nilc()
	}
	return s.f.cnst(a.cv, a.typ)
}

func isConstT(a *T) bool {
	if a.op == "struct" {
		for _, x := range a.args {
			if !isConstT(x) {
				return false
			}
		}
		return true
	}
	return a.op == "const"
}

// path names an address or what is loaded from it, as seen from the query or the field.
func (s *scen) path(a *T) string { return s.path1(a, map[*T]bool{}) }

func (s *scen) path1(a *T, seen map[*T]bool) string {
	switch a.op {
	case "fa":
		if b := s.path1(a.args[0], seen); b != "" {
			return b + "." + a.c
		}
	case "ia":
		if b := s.path1(a.args[0], seen); b != "" {
			if n, ok := a.args[1].intVal(); ok {
				return fmt.Sprintf("%s[%d]", b, n)
			}
			return b + "[]"
		}
	case "appall":
		if b := a.args[0]; b.op == "makeslice" || isNilT(b) {
			if n, ok := int64(0), true; isNilT(b) || func() bool { n, ok = b.args[0].intVal(); return ok && n == 0 }() {
				return s.path1(a.args[1], seen) // a copy
			}
		}
		return s.path1(a.args[0], seen)
	case "load", "app", "assert":
		return s.path1(a.args[0], seen)
	case "slice":
		return s.path1(a.args[0], seen)
	case "phi":
		if seen[a] {
			return ""
		}
		seen[a] = true
		p := ""
		for _, x := range s.f.alts[a] {
			if isNilT(x) {
				continue
			}
			y := s.path1(x, seen)
			if y == "" && x.op == "phi" && seen[x] {
				continue
			}
			if y == "" || p != "" && p != y {
				return ""
			}
			p = y
		}
		return p
	}
	if p := s.copies[a]; p != "" {
		return p
	}
	switch a {
	case s.q:
		return "q"
	case s.fld:
		return "f"
	}
	return ""
}

// anyIdx replaces the constant indices of a path.
func anyIdx(p string) string {
	var sb strings.Builder
	for i := 0; i < len(p); i++ {
		sb.WriteByte(p[i])
		if p[i] == '[' {
			for i+1 < len(p) && p[i+1] != ']' {
				i++
			}
		}
	}
	return sb.String()
}

func lookupPath[V any](m map[string]V, p string) (V, bool) {
	if v, ok := m[p]; ok {
		return v, true
	}
	v, ok := m[anyIdx(p)]
	return v, ok
}

func (s *scen) str(p, v string) *scen {
	s.vals[p] = s.f.cnst(constant.MakeString(v), types.Typ[types.String])
	return s
}
func (s *scen) num(p string, v int64) *scen { s.vals[p] = s.f.intc(v); return s }
func (s *scen) bool(p string, v bool) *scen { s.vals[p] = s.f.boolc(v); return s }
func (s *scen) nil_(p string) *scen         { s.vals[p] = s.f.nilc(); s.maxLen[p] = 0; return s }
func (s *scen) atLeast(p string, n int) *scen {
	s.minLen[p] = n
	return s
}
func (s *scen) exactly(p string, n int) *scen {
	s.minLen[p], s.maxLen[p] = n, n
	return s
}

// enum gives the value of a named constant of the package of the types.
func (po *post) enum(n string) int64 {
	return po.p.constInt(typesPkg, n)
}
func (s *scen) kind(p, name string) *scen {
	return s.num(p+".Type", s.po.enum("SoqlFieldInfo_"+name))
}

// bounds of an integer term.
func (s *scen) bounds(t *T) (lo, hi int64, okLo, okHi bool) {
	if n, ok := t.intVal(); ok {
		return n, n, true, true
	}
	x, d := splitAdd(t)
	if x.op == "len" {
		if p := s.path(x.args[0]); p != "" && x.args[0].op != "slice" {
			if n, ok := lookupPath(s.minLen, p); ok {
				lo, okLo = int64(n)+d, true
			}
			if n, ok := lookupPath(s.maxLen, p); ok && x.args[0].op != "app" && x.args[0].op != "appall" {
				hi, okHi = int64(n)+d, true
			}
		}
		if !okLo {
			lo, okLo = d, true
		}
	}
	return
}

func (s *scen) truth(st *FState, c *T) int {
	switch c.op {
	case "lt":
		lo1, hi1, a, b := s.bounds(c.args[0])
		lo2, hi2, d, e := s.bounds(c.args[1])
		if b && d && hi1 < lo2 {
			return 1
		}
		if a && e && lo1 >= hi2 {
			return 0
		}
	case "eq":
		x, y := c.args[0], c.args[1]
		if v, ok := y.strVal(); ok {
			if p := s.path(x); p != "" {
				if n, ok := lookupPath(s.minLen, p); ok && n > len(v) {
					return 0
				}
			}
			return -1
		}
		if isNilT(x) || isNilT(y) {
			if isNilT(x) {
				x = y
			}
			if p := s.path(x); p != "" && x.op != "slice" {
				if n, ok := lookupPath(s.minLen, p); ok && n > 0 {
					return 0
				}
			}
			return -1
		}
		if !isInt(x.typ) && x.op != "len" && x.op != "add" {
			return -1
		}
		lo1, hi1, a, b := s.bounds(x)
		lo2, hi2, d, e := s.bounds(y)
		if b && d && hi1 < lo2 || a && e && lo1 > hi2 {
			return 0
		}
		if a && b && d && e && lo1 == hi1 && lo2 == hi2 && lo1 == lo2 {
			return 1
		}
	case "isa":
		if p := s.path(c.args[0]); p != "" {
			if k, ok := lookupPath(s.isa, p); ok {
				if k == c.c {
					return 1
				}
				return 0
			}
		}
	case "load":
		if s.has != nil && c.args[0].op == "ma" {
			return s.has(st, c.args[0])
		}
	}
	return -1
}

// run analyses the function and tells whether it can succeed.
func (s *scen) run(setup func(st *FState)) bool {
	f := s.f
	f.onRead = func(a *T, typ types.Type) *T {
		if len(s.vals) == 0 && s.read == nil {
			return nil
		}
		p := s.path(a)
		if p == "" {
			return nil
		}
		if s.read != nil {
			if v := s.read(a, p); v != nil {
				return v
			}
		}
		if v, ok := lookupPath(s.vals, p); ok {
			if v.cv != nil {
				return f.cnst(v.cv, typ)
			}
			return v
		}
		return nil
	}
	f.onTruth = s.truth
	if s.also != nil {
		f.onTruth = func(st *FState, c *T) int {
			if n := s.also(st, c); n >= 0 {
				return n
			}
			return s.truth(st, c)
		}
	}
	f.stop = func(e *FEvent) bool {
		if e.kind == "copy" && e.args[0].op == "makeslice" && s.copies[e.args[0]] == "" {
			if p := s.path(e.args[1]); p != "" {
				s.copies[e.args[0]] = p
				f.gen++
			}
		}
		if s.onAny != nil {
			s.onAny(e)
		}
		return s.stop != nil && s.stop(e)
	}
	f.onEv = func(e *FEvent) {
		if s.onEv != nil {
			s.onEv(e)
		}
	}
	f.onCall = func(f *Flow, st *FState, c *FCall) ([]FRet, bool) {
		if c.fn != nil && c.fn == s.po.qFn && len(s.keep) > 0 {
			return s.kept(st, c), true
		}
		if c.fn == nil || c.fn != s.po.fFn {
			return nil, false
		}
		n := 0
		for x := c.ctx; x != nil; x = x.up {
			if x.fn == c.fn {
				n++
			}
		}
		o := s.origin(st, c.args[s.po.fParam])
		if o != "" {
			a, p := c.args[s.po.fParam], o
			for a.op == "fa" && strings.HasSuffix(p, "."+a.c) {
				a, p = a.args[0], strings.TrimSuffix(p, "."+a.c)
			}
			if a.op == "alloc" {
				if s.copies[a] != p {
					s.copies[a] = p
					f.gen++
				}
				if i := s.originIdx(st, c.args[s.po.fParam]); i != nil && s.copyIdx[a] != i {
					s.copyIdx[a] = i
					f.gen++
				}
			}
		}
		for _, m := range s.inl {
			if n < 3 && (o == m || strings.HasPrefix(o, m+".Parameters[]")) {
				return f.run(c.fn, f.context(c.ctx, c.site, c.fn), c.args, nil, st), true
			}
		}
		if len(s.keep) > 0 {
			return s.kept(st, c), true
		}
		return nil, false
	}
	st := newFState()
	if setup != nil {
		setup(st)
	}
	f.live = true
	s.rets = f.run(s.fn, f.context(nil, nil, s.fn), s.args, nil, st)
	s.po.r.count("scenarios analysed", 1)
	return s.succeeds()
}

// kept is a call that leaves some values as they were.
func (s *scen) kept(st *FState, c *FCall) []FRet {
	was := map[string]*T{}
	for _, k := range sortedKeys(s.keep) {
		was[k] = s.at(st, s.keep[k], nil)
	}
	rs := s.f.opaqueCall(st, c)
	for _, r := range rs {
		for _, k := range sortedKeys(s.keep) {
			if was[k] != nil {
				r.st.mem[s.addrAt(r.st, s.keep[k].args[0], nil)] = was[k]
			}
		}
	}
	return rs
}

// at gives the present value of what was loaded from a chain of members of a
// parameter; addrAt the address it is loaded from. The roots may be replaced.
func (s *scen) at(st *FState, v *T, root func(a *T) *T) *T {
	if v.op != "load" {
		return nil
	}
	a := s.addrAt(st, v.args[0], root)
	if a == nil {
		return nil
	}
	return s.f.load(st, a, v.typ)
}

func (s *scen) addrAt(st *FState, a *T, root func(a *T) *T) *T {
	switch a.op {
	case "fa":
		b := s.addrAt(st, a.args[0], root)
		if b == nil {
			return nil
		}
		if b == a.args[0] {
			return a
		}
		pt, ok := under(b.typ).(*types.Pointer)
		if !ok {
			return nil
		}
		u := under(pt.Elem()).(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == a.c {
				return s.f.fa(b, pt.Elem(), i)
			}
		}
	case "load":
		return s.at(st, a, root)
	}
	for _, x := range s.args {
		if x == a {
			if root != nil {
				return root(a)
			}
			return a
		}
	}
	return nil
}

func (s *scen) succeeds() bool { return len(s.good()) > 0 }

// good are the returns that may report success.
func (s *scen) good() []FRet {
	var g []FRet
	for _, r := range s.rets {
		if r.pan {
			continue
		}
		if len(r.vals) == 0 {
			g = append(g, r)
			continue
		}
		if e := r.vals[len(r.vals)-1]; s.f.truth(r.st, s.f.eq(e, s.f.nilc())) != 0 {
			g = append(g, r)
		}
	}
	return g
}

// origin tells which member of the query a field passed on by its address is (a copy of).
func (s *scen) origin(st *FState, a *T) string {
	if p := s.path(a); p != "" {
		return anyIdx(p)
	}
	votes := map[string]int{}
	for k, v := range st.mem {
		if k.op == "fa" && k.args[0] == a && v.op == "load" {
			if p := s.path(v.args[0]); strings.HasSuffix(p, "."+k.c) {
				votes[anyIdx(strings.TrimSuffix(p, "."+k.c))]++
			}
		}
	}
	best := ""
	for _, k := range sortedKeys(votes) {
		if best == "" || votes[k] > votes[best] {
			best = k
		}
	}
	return best
}

// originIdx gives the index of the element a field is (a copy of).
func (s *scen) originIdx(st *FState, a *T) *T {
	find := func(x *T) *T {
		for x.op == "fa" {
			x = x.args[0]
		}
		if x.op == "ia" {
			return x.args[1]
		}
		return nil
	}
	if i := find(a); i != nil {
		return i
	}
	var ks []*T
	for k, v := range st.mem {
		if k.op == "fa" && k.args[0] == a && v.op == "load" && s.path(v.args[0]) != "" {
			ks = append(ks, v)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, v := range ks {
		if i := find(v.args[0]); i != nil {
			return i
		}
	}
	return nil
}

// fieldCall recognises a call of the function that normalises a field.
func (s *scen) fieldCall(e *FEvent) *fieldCall {
	if e.kind != "call" {
		return nil
	}
	c, ok := e.site.(ssa.CallInstruction)
	if !ok || c.Common().StaticCallee() != s.po.fFn {
		return nil
	}
	return &fieldCall{origin: s.origin(e.st, e.args[s.po.fParam]), args: e.args, site: c}
}

// oneCall gives the calls recorded for a member of the query.
func (po *post) callsOf(origin string) []*fieldCall {
	cs := po.calls[origin]
	if len(cs) == 0 {
		undec("no call of %s for %s was found", shortFn(po.fFn), origin)
	}
	// distinct by their constant arguments
	var out []*fieldCall
	seen := map[string]bool{}
	for _, c := range cs {
		k := ""
		for i, a := range c.args {
			if i != po.fParam && isConstT(a) {
				k += fmt.Sprintf("|%d:%s", i, a)
			}
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	return out
}

// everyTurn tells whether each turn of the loops in which something happens to
// the elements of a list comes to it: at gives the index at which it happens.
// Nothing is known of the loop variables, so no turn is special. Where the
// index is not to be seen at the event itself, uses tells it at others.
func (po *post) everyTurn(fn *ssa.Function, setup func(s *scen), at func(s *scen, e *FEvent) *T, uses ...func(s *scen, e *FEvent) *T) (ok bool, why string) {
	type loop struct {
		ctx *Ctx
		b   *ssa.BasicBlock
	}
	in, back, seen := map[loop]bool{}, map[loop]bool{}, map[loop]bool{}
	hdr := func(i *T) (loop, bool) {
		b, _ := splitAdd(i)
		return loop{b.ctx, b.blk}, b.op == "phi"
	}
	s := po.scen(fn)
	setup(s)
	s.f.open = true
	s.f.onBack = func(ctx *Ctx, b *ssa.BasicBlock, st *FState) { back[loop{ctx, b}] = true }
	s.stop = func(e *FEvent) bool {
		for _, use := range uses {
			if i := use(s, e); i != nil {
				if l, ok := hdr(i); ok {
					seen[l] = true
				}
			}
		}
		i := at(s, e)
		if i == nil {
			return false
		}
		if l, ok := hdr(i); ok {
			in[l] = true
		}
		for l := range seen {
			b := e.site.Block()
			for c := e.ctx; c != nil; c = c.up {
				if c == l.ctx && c.loop[l.b][b] {
					in[l] = true
				}
				if c.call != nil {
					b = c.call.Block()
				}
			}
		}
		return true
	}
	s.run(nil)
	if len(in) == 0 {
		return false, "no loop was found"
	}
	for l := range in {
		if back[l] {
			return false, "a turn of a loop of " + shortFn(l.b.Parent()) + " may go by without it"
		}
	}
	return true, ""
}

// visitsAll tells whether an index runs over all elements of a list: it starts
// at 0, grows by one, and every success return comes after it reached the length.
func (s *scen) visitsAll(idx *T, list string) (bool, string) {
	if idx == nil {
		return false, "no index"
	}
	base, d := splitAdd(idx)
	if base.op != "phi" {
		return false, "the index is " + short(idx)
	}
	start, step := false, true
	for _, x := range s.f.alts[base] {
		if n, ok := x.intVal(); ok && n+d == 0 {
			start = true
			continue
		}
		if y, k := splitAdd(x); y == base && k == 1 {
			continue
		}
		step = false
	}
	if !start || !step {
		return false, "the index does not run from 0 by one"
	}
	for _, r := range s.good() {
		ok := false
		for k, v := range r.st.facts {
			if k.op == "lt" && !v && k.args[0] == idx && k.args[1].op == "len" && anyIdx(s.path(k.args[1].args[0])) == list {
				ok = true
			}
		}
		if !ok {
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Println("idx", idx, base.c, base.ctx.id, base.blk.Parent().Name(), s.f.alts[base])
				for k, v := range r.st.facts {
					if a := k.args; k.op == "lt" && !v && a[0].op == "phi" {
						fmt.Println("  fact", a[0], a[0].c, a[0].ctx.id, a[0].blk.Parent().Name(), a[1], a[1].args[0].c)
					}
				}
				s.paths()
			}
			return false, "a successful return does not come after the last element"
		}
	}
	return true, ""
}
