package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way in which a call can end.
type Outcome struct {
	w     *World
	res   Val
	panic bool
}

// Interp is the abstract interpreter.
type Interp struct {
	p       *Program
	base    *Heap
	next    int
	fresh   int
	syms    map[string]int // symbolic objects by term key
	symObjs map[int]*Obj   // their initial content
	globals map[*ssa.Global]int
	infos   map[*ssa.Function]*fnInfo
	stack   []*ssa.Function
	mods    []*modSet
	steps   int
	maxStep int
	quiet   bool

	// hooks
	onCall   func(in *Interp, w *World, site ssa.Instruction, fn *ssa.Function, args []Val) ([]Outcome, bool)
	onStore  func(w *World, site ssa.Instruction, p *PtrV, v Val)
	onMapUpd func(w *World, site ssa.Instruction, m Val, key, v Val, del bool)
	onLookup func(w *World, site ssa.Instruction, m Val, key Val)
	onIndex  func(w *World, site ssa.Instruction, seq Val, ln, idx Val)
	onAssert func(w *World, site ssa.Instruction, x Val, t types.Type)
	onNilDer func(w *World, site ssa.Instruction, x Val)
	onDyn    func(in *Interp, w *World, site ssa.Instruction, f Val, args []Val) ([]Outcome, bool)
	onLoop   func(w *World, li *LoopInfo)
	onExtern func(in *Interp, w *World, site ssa.Instruction, fn *ssa.Function, args []Val) ([]Outcome, bool)
	onAppend func(w *World, site ssa.Instruction, a, b *SliceV)
	onInvoke func(in *Interp, w *World, site ssa.Instruction, m *types.Func, recv Val, args []Val) ([]Outcome, bool)
	gramMemo map[string]*gramMemoEnt
	grams    []*Gram

	decided, undecidedExit int
	watch                  []watched
	openHead               map[*ssa.BasicBlock]bool
	loopNo, quietDepth     int
	accs                   map[string]*AccInfo

	// what the loops of one of several related evaluations change: all of
	// them treat it as changing
	evalBase           int
	loopSeed, loopVary map[string]bool
}

// LoopInfo is the generic iteration of a summarised loop.
type LoopInfo struct {
	id     int
	header *ssa.BasicBlock
	phis   map[*ssa.Phi]Val   // generic value
	init   map[*ssa.Phi]Val   // value on entry
	back   []map[*ssa.Phi]Val // values carried to the next iteration
	backW  []*World
	guard  *guard
}

type modSet struct {
	limit int
	m     map[string]modEnt
}
type modEnt struct {
	obj  int
	path []PathEl
}

type fnInfo struct {
	num   map[ssa.Value]int
	n     int
	rpo   map[*ssa.BasicBlock]int
	order []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	live  map[*ssa.BasicBlock][]int
}

func newInterp(p *Program) *Interp {
	return &Interp{p: p, base: &Heap{m: map[int]*Obj{}}, next: 1,
		syms: map[string]int{}, symObjs: map[int]*Obj{}, globals: map[*ssa.Global]int{},
		infos: map[*ssa.Function]*fnInfo{}, maxStep: 40000000, gramMemo: map[string]*gramMemoEnt{}}
}

func (in *Interp) world() *World {
	return &World{heap: in.base.fork(), facts: newFacts(), ghost: map[string]Val{}}
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if i, ok := in.infos[fn]; ok {
		return i
	}
	i := &fnInfo{num: map[ssa.Value]int{}, rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, live: map[*ssa.BasicBlock][]int{}}
	add := func(v ssa.Value) {
		i.num[v] = i.n
		i.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// reverse post order
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for j := len(post) - 1; j >= 0; j-- {
		i.rpo[post[j]] = len(i.order)
		i.order = append(i.order, post[j])
	}
	for _, b := range i.order {
		for _, s := range b.Succs {
			if i.rpo[s] <= i.rpo[b] {
				if !s.Dominates(b) {
					undec("irreducible control flow in %s", shortFn(fn))
				}
				body := i.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					i.loops[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// liveness
	liveIn := map[*ssa.BasicBlock]map[int]bool{}
	for _, b := range i.order {
		liveIn[b] = map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for j := len(i.order) - 1; j >= 0; j-- {
			b := i.order[j]
			lv := map[int]bool{}
			for _, s := range b.Succs {
				for v := range liveIn[s] {
					lv[v] = true
				}
			}
			for _, s := range b.Succs {
				for _, ins := range s.Instrs {
					if ph, ok := ins.(*ssa.Phi); ok {
						delete(lv, i.num[ph])
					}
				}
			}
			for _, s := range b.Succs {
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						if ph, ok := ins.(*ssa.Phi); ok {
							if n, ok := i.num[ph.Edges[pi]]; ok {
								lv[n] = true
							}
						}
					}
				}
			}
			for x := len(b.Instrs) - 1; x >= 0; x-- {
				ins := b.Instrs[x]
				if v, ok := ins.(ssa.Value); ok {
					delete(lv, i.num[v])
				}
				if _, ok := ins.(*ssa.Phi); ok {
					if v, ok := ins.(ssa.Value); ok {
						lv[i.num[v]] = true // a phi is live at the block entry (already assigned)
					}
					continue
				}
				var ops [16]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if *o != nil {
						if n, ok := i.num[*o]; ok {
							lv[n] = true
						}
					}
				}
			}
			if len(lv) != len(liveIn[b]) {
				liveIn[b] = lv
				ch = true
			}
		}
	}
	for b, l := range liveIn {
		for n := 0; n < i.n; n++ {
			if l[n] {
				i.live[b] = append(i.live[b], n)
			}
		}
	}
	in.infos[fn] = i
	return i
}

type deferred struct {
	f    Val
	call *ssa.CallCommon
	args []Val
	site ssa.Instruction
}

type state struct {
	w      *World
	regs   []Val
	defers []deferred
}

func (s *state) fork() *state {
	return &state{w: s.w.fork(), regs: append([]Val{}, s.regs...), defers: s.defers}
}

type frame struct {
	fn   *ssa.Function
	inf  *fnInfo
	rets []Outcome
	h0   *Heap
}

// call evaluates a function.
func (in *Interp) call(fn *ssa.Function, args, binds []Val, w *World, site ssa.Instruction) []Outcome {
	if len(fn.Blocks) == 0 {
		undec("function %s has no body", fn.RelString(nil))
	}
	if len(in.stack) > 200 {
		undec("call depth exceeded at %s", shortFn(fn))
	}
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	inf := in.info(fn)
	st := &state{w: w, regs: make([]Val, inf.n)}
	for i, p := range fn.Params {
		if i < len(args) {
			st.regs[inf.num[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			st.regs[inf.num[p]] = binds[i]
		}
	}
	fr := &frame{fn: fn, inf: inf, h0: w.heap}
	exits := in.region(fr, nil, fn.Blocks[0], []*state{st})
	if len(exits) > 0 {
		undec("internal: region exits of %s", shortFn(fn))
	}
	return fr.rets
}

// region evaluates the blocks of a region (nil: the whole function) from entry.
// States that leave the region or return to its entry are given back.
func (in *Interp) region(fr *frame, blocks map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, init []*state) map[*ssa.BasicBlock][]*state {
	exits := map[*ssa.BasicBlock][]*state{}
	pend := map[*ssa.BasicBlock][]*state{entry: init}
	first := true
	start := fr.inf.rpo[entry]
	for oi := start; oi < len(fr.inf.order); oi++ {
		b := fr.inf.order[oi]
		if blocks != nil && !blocks[b] {
			continue
		}
		sts := pend[b]
		delete(pend, b)
		if len(sts) == 0 {
			continue
		}
		out := func(to *ssa.BasicBlock, s *state) {
			if (blocks != nil && !blocks[to]) || (blocks != nil && to == entry) {
				exits[to] = append(exits[to], s)
			} else {
				pend[to] = append(pend[to], s)
			}
		}
		if !(first && b == entry) || blocks == nil {
			if body := fr.inf.loops[b]; body != nil {
				sts = in.merge(fr, b, sts)
				for _, s := range sts {
					for to, ss := range in.loop(fr, b, body, s) {
						for _, x := range ss {
							out(to, x)
						}
					}
				}
				first = false
				continue
			}
		}
		first = false
		sts = in.merge(fr, b, sts)
		if len(sts) > 3000 {
			undec("too many paths in %s", shortFn(fr.fn))
		}
		for _, s := range sts {
			in.block(fr, b, s, out)
		}
		if blocks != nil && in.openHead[entry] && len(in.watch) > 0 && in.watch[len(in.watch)-1].h == entry {
			return exits // cannot be unrolled
		}
	}
	return exits
}

func (in *Interp) stateKey(fr *frame, b *ssa.BasicBlock, s *state) string {
	var sb strings.Builder
	for _, n := range fr.inf.live[b] {
		if s.regs[n] != nil {
			sb.WriteString(s.regs[n].k())
		}
		sb.WriteByte(';')
	}
	ch := s.w.heap.changed(fr.h0)
	ks := make([]int, 0, len(ch))
	for k := range ch {
		ks = append(ks, k)
	}
	sortInts(ks)
	for _, k := range ks {
		o := ch[k]
		if h := fr.h0.get(k); h != nil && (h == o || h.k() == o.k()) {
			continue
		}
		sb.WriteString(strconv.Itoa(k))
		sb.WriteByte(':')
		sb.WriteString(o.k())
		sb.WriteByte(';')
	}
	sb.WriteString(s.w.ghostKey())
	for _, d := range s.defers {
		sb.WriteString(fmt.Sprintf("%p", d.site))
	}
	return sb.String()
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j-1] > a[j]; j-- {
			a[j-1], a[j] = a[j], a[j-1]
		}
	}
}

// merge joins states that differ only in what is known about the past.
func (in *Interp) merge(fr *frame, b *ssa.BasicBlock, sts []*state) []*state {
	if len(sts) < 2 {
		return sts
	}
	idx := map[string]*state{}
	var r []*state
	for _, s := range sts {
		k := in.stateKey(fr, b, s)
		if o, ok := idx[k]; ok {
			o.w.facts = o.w.facts.meet(s.w.facts)
			continue
		}
		idx[k] = s
		r = append(r, s)
	}
	return r
}

func (in *Interp) reg(s *state, fr *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Global:
		return in.global(x)
	case *ssa.Builtin:
		return &FuncV{builtin: x.Name()}
	}
	n, ok := fr.inf.num[v]
	if !ok {
		undec("unknown value %s in %s", v.Name(), shortFn(fr.fn))
	}
	r := s.regs[n]
	if r == nil {
		undec("value %s of %s is not computed", v.Name(), shortFn(fr.fn))
	}
	return r
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return kBool(constant.BoolVal(c.Value))
	case constant.String:
		return kStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := under(c.Type()).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return kFlt(c.Value.ExactString())
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return kInt(i)
		}
		return mk("const:"+c.Value.ExactString(), c.Type())
	case constant.Float:
		if b, ok := under(c.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return kInt(i)
			}
		}
		return kFlt(c.Value.ExactString())
	}
	return mk("const:"+c.Value.ExactString(), c.Type())
}

func (in *Interp) global(g *ssa.Global) Val {
	id, ok := in.globals[g]
	if !ok {
		id = in.next
		in.next++
		in.globals[g] = id
		et := under(g.Type()).(*types.Pointer).Elem()
		var v Val
		if g.Pkg != nil && (isRepoPath(g.Pkg.Pkg.Path())) {
			v = zero(et)
		} else {
			v = mk("global:"+g.RelString(nil), et)
		}
		in.symObjs[id] = &Obj{kind: 'c', typ: et, v: v, tag: "global " + g.RelString(nil)}
	}
	return &PtrV{obj: id}
}

func (in *Interp) freshName(s string) string {
	in.fresh++
	return s + "#" + strconv.Itoa(in.fresh)
}

// sym returns the object behind a symbolic pointer, slice or map.
func (in *Interp) sym(t *Term) int {
	id, ok := in.syms[t.key]
	if !ok {
		id = in.next
		in.next++
		in.syms[t.key] = id
		o := &Obj{sym: true, tag: t.key}
		switch u := under(t.typ).(type) {
		case *types.Pointer:
			o.kind = 'c'
			o.typ = u.Elem()
			o.v = symVal(mk("*", u.Elem(), t))
			if at, ok := under(u.Elem()).(*types.Array); ok {
				o.kind, o.typ = 'a', at.Elem()
				o.arr = &ArrC{base: termElems{mk("*", u.Elem(), t), at.Elem()}, elty: at.Elem()}
			}
		case *types.Slice:
			o.kind = 'a'
			o.typ = u.Elem()
			o.arr = &ArrC{base: termElems{t, u.Elem()}, elty: u.Elem()}
		case *types.Map:
			o.kind = 'm'
			o.typ = t.typ
			o.mp = &MapC{base: t.key, elty: u.Elem(), kty: u.Key()}
		default:
			undec("no object behind %s of type %s", t.key, t.typ)
		}
		in.symObjs[id] = o
	}
	return id
}

func symVal(v Val) Val { return v }

func (in *Interp) obj(w *World, id int) *Obj {
	if o := w.heap.get(id); o != nil {
		return o
	}
	if o := in.symObjs[id]; o != nil {
		return o
	}
	undec("internal: object %d is unknown", id)
	return nil
}

func (in *Interp) set(w *World, id int, o *Obj, path []PathEl) {
	w.heap.m[id] = o
	for _, ms := range in.mods {
		if id < ms.limit {
			e := modEnt{id, path}
			k := strconv.Itoa(id)
			for _, p := range path {
				if p.idx != nil {
					k += "[]"
				} else {
					k += p.k()
				}
			}
			if _, ok := ms.m[k]; !ok {
				ms.m[k] = e
			}
		}
	}
}

func (in *Interp) alloc(w *World, o *Obj) int {
	id := in.next
	in.next++
	w.heap.m[id] = o
	return id
}

// field selects a field of a struct value.
func field(v Val, i int, styp types.Type) Val {
	if s, ok := v.(*StructV); ok {
		return s.f[i]
	}
	st := under(styp).(*types.Struct)
	return mk("."+st.Field(i).Name(), st.Field(i).Type(), v)
}

func expand(v Val, styp types.Type) *StructV {
	if s, ok := v.(*StructV); ok {
		return s
	}
	st := under(styp).(*types.Struct)
	n := &StructV{typ: styp}
	for i := 0; i < st.NumFields(); i++ {
		n.f = append(n.f, field(v, i, styp))
	}
	return n
}

// load reads through a pointer.
func (in *Interp) load(w *World, p *PtrV) Val {
	o := in.obj(w, p.obj)
	var v Val
	var t types.Type
	path := p.path
	switch o.kind {
	case 'c':
		v, t = o.v, o.typ
	case 'a':
		if len(path) == 0 {
			return mk("arrval", nil, kStr(o.arr.k()))
		}
		if path[0].idx == nil {
			undec("internal: field of an array object")
		}
		v, t = o.arr.load(in, w, path[0].idx), o.typ
		path = path[1:]
	default:
		undec("internal: load of a map object")
	}
	for _, e := range path {
		if e.idx != nil {
			v, t = mk("elem", elemType(t), v, e.idx), elemType(t)
			continue
		}
		v = field(v, e.field, t)
		t = under(t).(*types.Struct).Field(e.field).Type()
	}
	return w.resolve(v)
}

func elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func (in *Interp) store(w *World, p *PtrV, v Val) {
	o := in.obj(w, p.obj)
	n := *o
	n.key = ""
	var upd func(old Val, t types.Type, path []PathEl) Val
	upd = func(old Val, t types.Type, path []PathEl) Val {
		if len(path) == 0 {
			return v
		}
		if path[0].idx != nil {
			return mk("upd", t, old, path[0].idx, v)
		}
		s := expand(old, t)
		ft := under(t).(*types.Struct).Field(path[0].field).Type()
		return s.with(path[0].field, upd(s.f[path[0].field], ft, path[1:]))
	}
	switch o.kind {
	case 'c':
		n.v = upd(o.v, o.typ, p.path)
	case 'a':
		if len(p.path) == 0 {
			n.arr = &ArrC{base: termElems{v, o.typ}, elty: o.typ}
			break
		}
		old := Val(nil)
		if len(p.path) > 1 {
			old = o.arr.load(in, w, p.path[0].idx)
		}
		n.arr = o.arr.store(w, p.path[0].idx, upd(old, o.typ, p.path[1:]))
	default:
		undec("internal: store to a map object")
	}
	in.set(w, p.obj, &n, p.path)
}

// asPtr converts a pointer value.
func (in *Interp) asPtr(w *World, v Val, site ssa.Instruction) *PtrV {
	switch x := v.(type) {
	case *PtrV:
		return x
	case *Term:
		if x.typ == nil {
			break
		}
		if in.onNilDer != nil {
			in.onNilDer(w, site, v)
		}
		return &PtrV{obj: in.sym(x)}
	case NilV:
		if in.onNilDer != nil {
			in.onNilDer(w, site, v)
		}
		return nil
	}
	undec("dereference of %s", v.k())
	return nil
}

func (in *Interp) asSlice(v Val) *SliceV {
	switch x := v.(type) {
	case *SliceV:
		return x
	case NilV:
		return &SliceV{arr: 0, off: kInt(0), ln: kInt(0), cp: kInt(0)}
	case *Term:
		if x.typ != nil {
			if _, ok := under(x.typ).(*types.Slice); ok {
				return &SliceV{arr: in.sym(x), off: kInt(0), ln: lenOf(x), cp: mk("cap", nil, x)}
			}
		}
	}
	undec("slice expected, got %s", v.k())
	return nil
}

func lenOf(v Val) Val { return mk("len", types.Typ[types.Int], v) }

func (in *Interp) length(w *World, v Val) Val {
	switch x := v.(type) {
	case *Konst:
		return kInt(int64(len(x.s)))
	case *SliceV:
		return w.resolve(x.ln)
	case NilV:
		return kInt(0)
	case *Term:
		if x.op == "concat" {
			var n Val = kInt(0)
			for _, a := range x.args {
				n = linAdd(n, in.length(w, a), 1)
			}
			return w.resolve(n)
		}
		if x.op == "substr" {
			return w.resolve(linAdd(x.args[2], x.args[1], -1))
		}
		return w.resolve(lenOf(x))
	case *MapV:
		o := in.obj(w, x.obj)
		if o.mp.base == "" && len(o.mp.wr) == 0 {
			return kInt(0)
		}
		return mk("len", types.Typ[types.Int], kStr(o.mp.k()))
	case *PtrV:
		return mk("len", types.Typ[types.Int], x)
	}
	undec("length of %s", v.k())
	return nil
}

// elems returns the elements of a slice of known length.
func (in *Interp) elems(w *World, v Val) ([]Val, bool) {
	s := in.asSlice(v)
	n, ok := asInt(w.resolve(s.ln))
	if !ok {
		return nil, false
	}
	var r []Val
	for i := int64(0); i < n; i++ {
		r = append(r, in.load(w, &PtrV{obj: s.arr, path: []PathEl{{idx: linAdd(s.off, kInt(i), 1)}}}))
	}
	return r, true
}

func (in *Interp) newSlice(w *World, elty types.Type, vs []Val, tag string) *SliceV {
	c := &ArrC{base: zeroElems{elty}, elty: elty}
	for i, v := range vs {
		c.wr = append(c.wr, arrW{kInt(int64(i)), v})
	}
	id := in.alloc(w, &Obj{kind: 'a', typ: elty, arr: c, tag: tag})
	n := kInt(int64(len(vs)))
	return &SliceV{arr: id, off: kInt(0), ln: n, cp: n}
}

// content gives an identity for the elements of a slice (by value).
func (in *Interp) content(w *World, v Val) Val {
	if t, ok := v.(*Term); ok {
		id := in.sym(t)
		if w.heap.get(id) == nil {
			return t
		}
	}
	if _, ok := v.(NilV); ok {
		return mk("seq", nil)
	}
	s := in.asSlice(v)
	if es, ok := in.elems(w, s); ok {
		return mk("seq", nil, es...)
	}
	o := in.obj(w, s.arr)
	return in.segVal(w, Seg{o.arr, s.off, s.ln})
}

func (in *Interp) segVal(w *World, g Seg) Val {
	ps := in.segParts(w, g)
	if len(ps) == 1 {
		if t, ok := isTerm(ps[0], "all"); ok {
			if c, ok := asInt(t.args[1]); ok && c == 0 && t.args[2].k() == lenOf(t.args[0]).k() {
				return t.args[0]
			}
		}
	}
	return mk("seq", nil, ps...)
}

func (in *Interp) segParts(w *World, g Seg) []Val {
	g.ln = w.resolve(g.ln)
	g.off = w.resolve(g.off)
	if n, ok := asInt(g.ln); ok {
		var r []Val
		for i := int64(0); i < n; i++ {
			r = append(r, w.resolve(g.c.load(in, w, linAdd(g.off, kInt(i), 1))))
		}
		return r
	}
	if c, ok := g.c.base.(catElems); ok {
		// locate the segments covered
		var r []Val
		off, ln := g.off, g.ln
		ok := true
		var pos Val = kInt(0)
		hiPos := linAdd(off, ln, 1)
		for i, s := range c.segs {
			end := linAdd(pos, s.ln, 1)
			last := i == len(c.segs)-1
			// part of [off,hiPos) within [pos,end)
			var lo, hi Val
			if w.ge0(linAdd(off, pos, -1)) {
				lo = off
			} else if w.ge0(linAdd(pos, off, -1)) {
				lo = pos
			} else {
				ok = false
				break
			}
			if w.ge0(linAdd(end, hiPos, -1)) || last {
				hi = hiPos
			} else if w.ge0(linAdd(hiPos, end, -1)) {
				hi = end
			} else {
				ok = false
				break
			}
			n := linAdd(hi, lo, -1)
			if w.ge0(linMul(n, -1)) {
				pos = end
				continue
			}
			r = append(r, in.segParts(w, Seg{s.c, linAdd(s.off, linAdd(lo, pos, -1), 1), n})...)
			pos = end
		}
		if ok {
			// overlay writes at known positions
			if len(g.c.wr) == 0 {
				return r
			}
			if r2, ok := in.overlay(w, r, g); ok {
				return r2
			}
		}
	}
	if len(g.c.wr) == 0 {
		switch b := g.c.base.(type) {
		case termElems:
			return []Val{mk("all", nil, b.t, g.off, g.ln)}
		}
	}
	// trailing writes: an unknown prefix and known elements at the end
	if len(g.c.wr) > 0 {
		last := linAdd(linAdd(g.off, g.ln, 1), kInt(1), -1)
		for _, x := range g.c.wr {
			if w.resolve(x.idx).k() == last.k() {
				rest := in.segParts(w, Seg{g.c, g.off, linAdd(g.ln, kInt(1), -1)})
				return append(append([]Val{}, rest...), x.v)
			}
		}
		// writes entirely past the segment do not matter
		var keep []arrW
		end := linAdd(g.off, g.ln, 1)
		for _, x := range g.c.wr {
			if w.ge0(linAdd(x.idx, end, -1)) {
				continue
			}
			keep = append(keep, x)
		}
		if len(keep) < len(g.c.wr) {
			return in.segParts(w, Seg{&ArrC{base: g.c.base, wr: keep, elty: g.c.elty}, g.off, g.ln})
		}
	}
	return []Val{mk("part", nil, kStr(g.c.k()), g.off, g.ln)}
}

// overlay replaces single elements of a list of parts.
func (in *Interp) overlay(w *World, parts []Val, g Seg) ([]Val, bool) {
	r := append([]Val{}, parts...)
	for _, x := range g.c.wr {
		// position relative to the start
		rel := linAdd(x.idx, g.off, -1)
		if w.ge0(linAdd(rel, g.ln, -1)) {
			continue
		}
		var pos Val = kInt(0)
		done := false
		for i, p := range r {
			n := partLen(p)
			if pos.k() == w.resolve(rel).k() && n == nil {
				r[i] = x.v
				done = true
				break
			}
			if n == nil {
				pos = linAdd(pos, kInt(1), 1)
			} else {
				pos = linAdd(pos, n, 1)
			}
			pos = w.resolve(pos)
		}
		if !done {
			return nil, false
		}
	}
	return r, true
}

// partLen is nil for a single element.
func partLen(p Val) Val {
	if t, ok := p.(*Term); ok && (t.op == "all" || t.op == "part") && len(t.args) == 3 {
		return t.args[2]
	}
	return nil
}

func (in *Interp) block(fr *frame, b *ssa.BasicBlock, s *state, out func(*ssa.BasicBlock, *state)) {
	in.instrs(fr, b, 0, s, out)
}

// jump assigns the phis of the target.
func (in *Interp) jump(fr *frame, from, to *ssa.BasicBlock, s *state) {
	var pi = -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var vs []Val
	var ns []int
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, s.w.resolve(in.reg(s, fr, ph.Edges[pi])))
		ns = append(ns, fr.inf.num[ph])
	}
	for i, n := range ns {
		s.regs[n] = vs[i]
	}
}

func (in *Interp) instrs(fr *frame, b *ssa.BasicBlock, i0 int, s *state, out func(*ssa.BasicBlock, *state)) {
	for i := i0; i < len(b.Instrs); i++ {
		in.steps++
		if in.steps > in.maxStep {
			undec("the analysis of %s takes too many steps", shortFn(fr.fn))
		}
		ins := b.Instrs[i]
		set := func(st *state, v Val) { st.regs[fr.inf.num[ins.(ssa.Value)]] = v }
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			in.jump(fr, b, b.Succs[0], s)
			out(b.Succs[0], s)
			return
		case *ssa.If:
			c := in.reg(s, fr, x.Cond)
			tr := s.w.truth(c)
			in.noteExit(fr.fn, b, tr >= 0)
			switch tr {
			case 1:
				in.jump(fr, b, b.Succs[0], s)
				out(b.Succs[0], s)
			case 0:
				in.jump(fr, b, b.Succs[1], s)
				out(b.Succs[1], s)
			default:
				t := s.fork()
				if s.w.assume(c, true) {
					in.jump(fr, b, b.Succs[0], s)
					out(b.Succs[0], s)
				}
				if t.w.assume(c, false) {
					in.jump(fr, b, b.Succs[1], t)
					out(b.Succs[1], t)
				}
			}
			return
		case *ssa.Return:
			var r Val
			switch len(x.Results) {
			case 0:
				r = &TupleV{}
			case 1:
				r = s.w.resolve(in.reg(s, fr, x.Results[0]))
			default:
				t := &TupleV{}
				for _, v := range x.Results {
					t.v = append(t.v, s.w.resolve(in.reg(s, fr, v)))
				}
				r = t
			}
			fr.rets = append(fr.rets, Outcome{w: s.w, res: r})
			return
		case *ssa.Panic:
			fr.rets = append(fr.rets, Outcome{w: s.w, panic: true, res: in.reg(s, fr, x.X)})
			return
		case *ssa.RunDefers:
			ds := s.defers
			s.defers = nil
			cur := []*state{s}
			for j := len(ds) - 1; j >= 0; j-- {
				var nx []*state
				for _, c := range cur {
					for _, o := range in.apply(c.w, ds[j].site, ds[j].f, ds[j].args) {
						nx = append(nx, &state{w: o.w, regs: c.regs})
					}
				}
				cur = nx
			}
			if len(cur) == 1 {
				s = cur[0]
				continue
			}
			for _, c := range cur {
				c.regs = append([]Val{}, c.regs...)
				in.instrs(fr, b, i+1, c, out)
			}
			return
		case *ssa.Defer:
			var args []Val
			for _, a := range x.Call.Args {
				args = append(args, in.reg(s, fr, a))
			}
			if x.Call.IsInvoke() {
				undec("deferred interface method call in %s", shortFn(fr.fn))
			}
			s.defers = append(append([]deferred{}, s.defers...), deferred{f: in.reg(s, fr, x.Call.Value), args: args, site: x})
		case *ssa.Call:
			outs := in.doCall(fr, s, x)
			var live []Outcome
			for _, o := range outs {
				if o.panic {
					fr.rets = append(fr.rets, o)
				} else {
					live = append(live, o)
				}
			}
			if len(live) == 0 {
				return
			}
			if len(live) == 1 {
				s.w = live[0].w
				set(s, live[0].res)
				continue
			}
			// continue each outcome; join again those that are alike
			var sts []*state
			for _, o := range live {
				n := &state{w: o.w, regs: append([]Val{}, s.regs...), defers: s.defers}
				n.regs[fr.inf.num[x]] = o.res
				sts = append(sts, n)
			}
			for _, n := range sts {
				in.instrs(fr, b, i+1, n, out)
			}
			return
		case *ssa.Store:
			p := in.asPtr(s.w, in.reg(s, fr, x.Addr), x)
			if p == nil {
				fr.rets = append(fr.rets, Outcome{w: s.w, panic: true, res: kStr("nil dereference at " + in.sitePos(ins))})
				return
			}
			v := in.reg(s, fr, x.Val)
			in.store(s.w, p, v)
			if in.onStore != nil {
				in.onStore(s.w, x, p, v)
			}
		case *ssa.MapUpdate:
			in.mapUpdate(s.w, x, in.reg(s, fr, x.Map), in.reg(s, fr, x.Key), in.reg(s, fr, x.Value), false)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				p := in.asPtr(s.w, in.reg(s, fr, x.X), x)
				if p == nil {
					fr.rets = append(fr.rets, Outcome{w: s.w, panic: true, res: kStr("nil dereference at " + in.sitePos(ins))})
					return
				}
				set(s, in.load(s.w, p))
				continue
			}
			set(s, in.unop(s, fr, x))
		case *ssa.TypeAssert:
			sts := in.typeAssert(s, fr, x)
			if len(sts) == 0 {
				return
			}
			for _, n := range sts[1:] {
				in.instrs(fr, b, i+1, n, out)
			}
			s = sts[0]
		case *ssa.Lookup:
			sts := in.lookup(s, fr, x)
			for _, n := range sts[1:] {
				in.instrs(fr, b, i+1, n, out)
			}
			s = sts[0]
		case ssa.Value:
			set(s, in.value(s, fr, x))
		default:
			undec("unsupported instruction %s in %s", ins, shortFn(fr.fn))
		}
	}
}

func (in *Interp) unop(s *state, fr *frame, x *ssa.UnOp) Val {
	v := s.w.resolve(in.reg(s, fr, x.X))
	switch x.Op {
	case token.NOT:
		return notVal(v)
	case token.SUB:
		if c, ok := v.(*Konst); ok && c.kind == 'f' {
			return kFlt("-" + c.f)
		}
		return linMul(v, -1)
	}
	return mk("un"+x.Op.String(), x.Type(), v)
}

func (in *Interp) value(s *state, fr *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Alloc:
		et := under(x.Type()).(*types.Pointer).Elem()
		tag := in.p.instrPos(x)
		if at, ok := under(et).(*types.Array); ok {
			return &PtrV{obj: in.alloc(s.w, &Obj{kind: 'a', typ: at.Elem(), arr: &ArrC{base: zeroElems{at.Elem()}, elty: at.Elem()}, tag: tag})}
		}
		return &PtrV{obj: in.alloc(s.w, &Obj{kind: 'c', typ: et, v: zero(et), tag: tag})}
	case *ssa.BinOp:
		return in.binop(s.w, x.Op, in.reg(s, fr, x.X), in.reg(s, fr, x.Y), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		return in.reg(s, fr, x.X)
	case *ssa.ChangeInterface:
		return in.reg(s, fr, x.X)
	case *ssa.MakeInterface:
		return &IfaceV{dyn: x.X.Type(), v: in.reg(s, fr, x.X)}
	case *ssa.Convert:
		return in.convert(s.w, in.reg(s, fr, x.X), x.X.Type(), x.Type())
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.b = append(f.b, in.reg(s, fr, b))
		}
		return f
	case *ssa.MakeMap:
		mt := under(x.Type()).(*types.Map)
		return &MapV{in.alloc(s.w, &Obj{kind: 'm', typ: x.Type(), mp: &MapC{elty: mt.Elem(), kty: mt.Key()}, tag: in.p.instrPos(x)})}
	case *ssa.MakeSlice:
		et := elemType(x.Type())
		id := in.alloc(s.w, &Obj{kind: 'a', typ: et, arr: &ArrC{base: zeroElems{et}, elty: et}, tag: in.p.instrPos(x)})
		if in.onIndex != nil {
			in.onIndex(s.w, x, nil, nil, in.reg(s, fr, x.Len))
		}
		return &SliceV{arr: id, off: kInt(0), ln: in.reg(s, fr, x.Len), cp: in.reg(s, fr, x.Cap)}
	case *ssa.FieldAddr:
		p := in.asPtr(s.w, in.reg(s, fr, x.X), x)
		if p == nil {
			undec("field of a nil pointer at %s", in.p.instrPos(x))
		}
		return p.ext(PathEl{field: x.Field})
	case *ssa.Field:
		return s.w.resolve(field(in.reg(s, fr, x.X), x.Field, x.X.Type()))
	case *ssa.IndexAddr:
		b := in.reg(s, fr, x.X)
		idx := s.w.resolve(in.reg(s, fr, x.Index))
		if p, ok := b.(*PtrV); ok {
			return p.ext(PathEl{idx: idx})
		}
		sl := in.asSlice(b)
		if in.onIndex != nil {
			in.onIndex(s.w, x, b, sl.ln, idx)
		}
		return &PtrV{obj: sl.arr, path: []PathEl{{idx: linAdd(sl.off, idx, 1)}}}
	case *ssa.Index:
		b := in.reg(s, fr, x.X)
		idx := s.w.resolve(in.reg(s, fr, x.Index))
		if st, ok := asStr(b); ok {
			if n, ok := asInt(idx); ok && n >= 0 && n < int64(len(st)) {
				return kInt(int64(st[n]))
			}
		}
		if in.onIndex != nil {
			in.onIndex(s.w, x, b, in.length(s.w, b), idx)
		}
		return mk("at", x.Type(), b, idx)
	case *ssa.Slice:
		return in.slice(s, fr, x)
	case *ssa.Extract:
		t := in.reg(s, fr, x.Tuple)
		if tv, ok := t.(*TupleV); ok {
			return s.w.resolve(tv.v[x.Index])
		}
		return s.w.resolve(mk("res"+strconv.Itoa(x.Index), x.Type(), t))
	case *ssa.Range:
		return mk(in.freshName("range"), nil, in.reg(s, fr, x.X))
	case *ssa.Next:
		it := in.reg(s, fr, x.Iter).(*Term)
		n := in.freshName("next")
		tt := x.Type().(*types.Tuple)
		k := mk(n+".k", tt.At(1).Type())
		v := mk(n+".v", tt.At(2).Type())
		if x.IsString {
			return &TupleV{[]Val{mk(n+".ok", types.Typ[types.Bool]), k, v}}
		}
		// tie the key and the value to the map
		k.x = it.args[0]
		v.x = it.args[0]
		if tt.At(1).Type() == types.Typ[types.Invalid] {
			rm := it.args[0]
			if m, ok := rm.(*MapV); ok {
				o := in.obj(s.w, m.obj)
				k.typ, v.typ = o.mp.kty, o.mp.elty
			}
		}
		if m, ok := it.args[0].(*MapV); ok {
			o := in.obj(s.w, m.obj)
			if k.typ == nil || k.typ == types.Typ[types.Invalid] {
				k.typ = o.mp.kty
			}
			if v.typ == nil || v.typ == types.Typ[types.Invalid] {
				v.typ = o.mp.elty
			}
		}
		return &TupleV{[]Val{mk(n+".ok", types.Typ[types.Bool], it.args[0]), k, v}}
	}
	undec("unsupported instruction %T in %s", v, shortFn(fr.fn))
	return nil
}

func (in *Interp) slice(s *state, fr *frame, x *ssa.Slice) Val {
	b := in.reg(s, fr, x.X)
	var lo, hi, mx Val
	if x.Low != nil {
		lo = s.w.resolve(in.reg(s, fr, x.Low))
	}
	if x.High != nil {
		hi = s.w.resolve(in.reg(s, fr, x.High))
	}
	if x.Max != nil {
		mx = s.w.resolve(in.reg(s, fr, x.Max))
	}
	if bt, ok := under(x.X.Type()).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		if lo == nil {
			lo = kInt(0)
		}
		n := in.length(s.w, b)
		if hi == nil {
			hi = n
		}
		if in.onIndex != nil {
			in.onIndex(s.w, x, b, linAdd(n, kInt(1), 1), hi)
			in.onIndex(s.w, x, b, linAdd(hi, kInt(1), 1), lo)
		}
		if st, ok := asStr(b); ok {
			a, ok1 := asInt(lo)
			z, ok2 := asInt(hi)
			if ok1 && ok2 && a >= 0 && a <= z && z <= int64(len(st)) {
				return kStr(st[a:z])
			}
		}
		return mk("substr", x.Type(), b, lo, hi)
	}
	if p, ok := b.(*PtrV); ok { // pointer to array
		at, isArr := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		if !isArr {
			undec("slice of %s", b.k())
		}
		if len(p.path) > 0 {
			undec("slice of an array inside an object")
		}
		n := kInt(at.Len())
		if lo == nil {
			lo = kInt(0)
		}
		if hi == nil {
			hi = n
		}
		return &SliceV{arr: p.obj, off: lo, ln: linAdd(hi, lo, -1), cp: linAdd(n, lo, -1)}
	}
	sl := in.asSlice(b)
	if lo == nil && hi == nil && mx == nil {
		return b
	}
	if lo == nil {
		lo = kInt(0)
	}
	if hi == nil {
		hi = sl.ln
	}
	if in.onIndex != nil {
		in.onIndex(s.w, x, b, linAdd(sl.cp, kInt(1), 1), hi)
		in.onIndex(s.w, x, b, linAdd(hi, kInt(1), 1), lo)
	}
	cp := linAdd(sl.cp, lo, -1)
	if mx != nil {
		cp = linAdd(mx, lo, -1)
	}
	if _, ok := b.(NilV); ok {
		return b
	}
	return &SliceV{arr: sl.arr, off: linAdd(sl.off, lo, 1), ln: linAdd(hi, lo, -1), cp: cp}
}

func (in *Interp) binop(w *World, op token.Token, a, b Val, opT, rT types.Type) Val {
	a, b = w.resolve(a), w.resolve(b)
	bt, _ := under(opT).(*types.Basic)
	isInt := bt != nil && bt.Info()&types.IsInteger != 0
	isStr := bt != nil && bt.Info()&types.IsString != 0
	switch op {
	case token.EQL:
		return eqVal(a, b)
	case token.NEQ:
		return notVal(eqVal(a, b))
	}
	if isInt {
		x, okx := asInt(a)
		y, oky := asInt(b)
		switch op {
		case token.ADD:
			return linAdd(a, b, 1)
		case token.SUB:
			return linAdd(a, b, -1)
		case token.MUL:
			if okx {
				return linMul(b, x)
			}
			if oky {
				return linMul(a, y)
			}
		case token.LSS:
			return ge0Val(linAdd(linAdd(b, a, -1), kInt(1), -1))
		case token.LEQ:
			return ge0Val(linAdd(b, a, -1))
		case token.GTR:
			return ge0Val(linAdd(linAdd(a, b, -1), kInt(1), -1))
		case token.GEQ:
			return ge0Val(linAdd(a, b, -1))
		}
		if okx && oky {
			switch op {
			case token.QUO:
				if y != 0 {
					return kInt(x / y)
				}
			case token.REM:
				if y != 0 {
					return kInt(x % y)
				}
			case token.AND:
				return kInt(x & y)
			case token.OR:
				return kInt(x | y)
			case token.XOR:
				return kInt(x ^ y)
			case token.SHL:
				if y >= 0 && y < 63 {
					return kInt(x << uint(y))
				}
			case token.SHR:
				if y >= 0 {
					return kInt(x >> uint(y))
				}
			}
		}
		if op == token.QUO && oky && y > 0 {
			// exact division of a linear expression
			l := toLin(a)
			exact := l.c%y == 0
			for _, c := range l.m {
				if c%y != 0 {
					exact = false
				}
			}
			if exact {
				l.c /= y
				for k := range l.m {
					l.m[k] /= y
				}
				return l.finish()
			}
		}
		return mk("op"+op.String(), rT, a, b)
	}
	if isStr {
		x, okx := asStr(a)
		y, oky := asStr(b)
		switch op {
		case token.ADD:
			return concatVal(a, b)
		case token.LSS:
			if okx && oky {
				return kBool(x < y)
			}
		case token.GTR:
			if okx && oky {
				return kBool(x > y)
			}
		}
		return mk("op"+op.String(), rT, a, b)
	}
	if x, ok := asBool(a); ok {
		if y, ok := asBool(b); ok {
			switch op {
			case token.AND:
				return kBool(x && y)
			case token.OR:
				return kBool(x || y)
			}
		}
	}
	return mk("op"+op.String(), rT, a, b)
}

func concatVal(a, b Val) Val {
	var ps []Val
	add := func(v Val) {
		if t, ok := isTerm(v, "concat"); ok {
			for _, x := range t.args {
				ps = append(ps, x)
			}
			return
		}
		ps = append(ps, v)
	}
	add(a)
	add(b)
	var r []Val
	for _, p := range ps {
		if s, ok := asStr(p); ok {
			if s == "" {
				continue
			}
			if len(r) > 0 {
				if q, ok := asStr(r[len(r)-1]); ok {
					r[len(r)-1] = kStr(q + s)
					continue
				}
			}
		}
		r = append(r, p)
	}
	if len(r) == 0 {
		return kStr("")
	}
	if len(r) == 1 {
		return r[0]
	}
	return mk("concat", types.Typ[types.String], r...)
}

func (in *Interp) convert(w *World, v Val, from, to types.Type) Val {
	fb, _ := under(from).(*types.Basic)
	tb, _ := under(to).(*types.Basic)
	if fb != nil && tb != nil {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return v // value ranges are not modelled
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return v
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			if i, ok := asInt(v); ok {
				return kStr(string(rune(i)))
			}
			return mk("strOfRune", to, v)
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0 {
			if i, ok := asInt(v); ok {
				return kFlt(strconv.FormatInt(i, 10))
			}
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if _, ok := under(to).(*types.Slice); ok {
			return mk("bytes", to, v)
		}
	}
	if _, ok := under(from).(*types.Slice); ok && tb != nil && tb.Info()&types.IsString != 0 {
		if t, ok := isTerm(v, "bytes"); ok {
			return t.args[0]
		}
		return mk("strOfBytes", to, in.content(w, v))
	}
	if types.Identical(under(from), under(to)) {
		return v
	}
	return mk("conv:"+typeKey(to), to, v)
}

// dynIs tells whether the dynamic type of an interface value is T.
func (in *Interp) typeAssert(s *state, fr *frame, x *ssa.TypeAssert) []*state {
	v := s.w.resolve(in.reg(s, fr, x.X))
	n := fr.inf.num[x]
	T := x.AssertedType
	_, toIface := under(T).(*types.Interface)
	okRes := func(st *state, val Val, ok bool) {
		if x.CommaOk {
			if !ok {
				val = zero(T)
			}
			st.regs[n] = &TupleV{[]Val{val, kBool(ok)}}
		} else {
			st.regs[n] = val
		}
	}
	fail := func(st *state) []*state {
		if x.CommaOk {
			okRes(st, nil, false)
			return []*state{st}
		}
		if in.onAssert != nil {
			in.onAssert(st.w, x, v, T)
		}
		fr.rets = append(fr.rets, Outcome{w: st.w, panic: true, res: kStr("the value at " + in.sitePos(x) + " is not of type " + typeKey(T))})
		return nil
	}
	switch i := v.(type) {
	case NilV:
		return fail(s)
	case *IfaceV:
		if toIface {
			if types.AssertableTo(under(T).(*types.Interface), i.dyn) && types.Implements(i.dyn, under(T).(*types.Interface)) {
				okRes(s, v, true)
				return []*state{s}
			}
			return fail(s)
		}
		if types.Identical(i.dyn, T) {
			okRes(s, i.v, true)
			return []*state{s}
		}
		return fail(s)
	}
	// unknown dynamic type
	if toIface {
		c := mk("impl", types.Typ[types.Bool], v, kStr(typeKey(T)))
		switch s.w.truth(c) {
		case 1:
			okRes(s, v, true)
			return []*state{s}
		case 0:
			return fail(s)
		}
		t := s.fork()
		s.w.assume(c, true)
		t.w.assume(c, false)
		okRes(s, v, true)
		return append([]*state{s}, fail(t)...)
	}
	c := mk("isa", types.Typ[types.Bool], v, kStr(typeKey(T)))
	unb := mk("unbox", T, v, kStr(typeKey(T)))
	switch s.w.truth(c) {
	case 1:
		okRes(s, unb, true)
		return []*state{s}
	case 0:
		return fail(s)
	}
	t := s.fork()
	var r []*state
	if s.w.assume(c, true) {
		okRes(s, unb, true)
		r = append(r, s)
	}
	if t.w.assume(c, false) {
		r = append(r, fail(t)...)
	}
	return r
}

func (in *Interp) asMap(w *World, v Val) *MapV {
	switch x := v.(type) {
	case *MapV:
		return x
	case *Term:
		if x.typ != nil {
			if _, ok := under(x.typ).(*types.Map); ok {
				return &MapV{in.sym(x)}
			}
		}
	}
	return nil
}

func (in *Interp) mapUpdate(w *World, site ssa.Instruction, m, key, v Val, del bool) {
	key = w.resolve(key)
	mv := in.asMap(w, m)
	if in.onMapUpd != nil {
		in.onMapUpd(w, site, m, key, v, del)
	}
	if mv == nil {
		if _, ok := m.(NilV); ok {
			if !del && in.onNilDer != nil {
				in.onNilDer(w, site, m)
			}
			return
		}
		undec("map expected, got %s", m.k())
	}
	o := *in.obj(w, mv.obj)
	o.key = ""
	c := &MapC{base: o.mp.base, elty: o.mp.elty, kty: o.mp.kty}
	for _, x := range o.mp.wr {
		if x.key.k() != key.k() {
			c.wr = append(c.wr, x)
		}
	}
	c.wr = append(c.wr, mapW{key, v, del})
	o.mp = c
	in.set(w, mv.obj, &o, nil)
}

func (in *Interp) lookup(s *state, fr *frame, x *ssa.Lookup) []*state {
	m := in.reg(s, fr, x.X)
	key := s.w.resolve(in.reg(s, fr, x.Index))
	n := fr.inf.num[x]
	if bt, ok := under(x.X.Type()).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		if in.onIndex != nil {
			in.onIndex(s.w, x, m, in.length(s.w, m), key)
		}
		if st, ok := asStr(m); ok {
			if i, ok := asInt(key); ok && i >= 0 && i < int64(len(st)) {
				s.regs[n] = kInt(int64(st[i]))
				return []*state{s}
			}
		}
		s.regs[n] = mk("at", x.Type(), m, key)
		return []*state{s}
	}
	if in.onLookup != nil {
		in.onLookup(s.w, x, m, key)
	}
	et := under(x.X.Type()).(*types.Map).Elem()
	res := func(st *state, v Val, ok bool) {
		if x.CommaOk {
			st.regs[n] = &TupleV{[]Val{v, kBool(ok)}}
		} else {
			st.regs[n] = v
		}
	}
	if _, ok := m.(NilV); ok {
		res(s, zero(et), false)
		return []*state{s}
	}
	mv := in.asMap(s.w, m)
	if mv == nil {
		undec("map expected, got %s", m.k())
	}
	mp := in.obj(s.w, mv.obj).mp
	var outs []*state
	cur := s
	for i := len(mp.wr) - 1; i >= 0; i-- {
		e := mp.wr[i]
		c := eqVal(e.key, key)
		switch cur.w.truth(c) {
		case 1:
			if e.del {
				res(cur, zero(et), false)
			} else {
				res(cur, e.v, true)
			}
			return append(outs, cur)
		case 0:
			continue
		}
		t := cur.fork()
		if t.w.assume(c, true) {
			if e.del {
				res(t, zero(et), false)
			} else {
				res(t, e.v, true)
			}
			outs = append(outs, t)
		}
		if !cur.w.assume(c, false) {
			if len(outs) == 0 {
				undec("internal: contradictory facts at a map lookup")
			}
			return outs
		}
	}
	if mp.base == "" {
		res(cur, zero(et), false)
		return append(outs, cur)
	}
	has := mk("has", types.Typ[types.Bool], kStr(mp.base), key)
	val := mk("mapval", et, kStr(mp.base), key)
	switch cur.w.truth(has) {
	case 1:
		res(cur, val, true)
		return append(outs, cur)
	case 0:
		res(cur, zero(et), false)
		return append(outs, cur)
	}
	if !x.CommaOk {
		if _, isScalar := under(et).(*types.Basic); !isScalar {
			t := cur.fork()
			cur.w.assume(has, true)
			res(cur, val, true)
			t.w.assume(has, false)
			res(t, zero(et), false)
			return append(outs, cur, t)
		}
	}
	t := cur.fork()
	cur.w.assume(has, true)
	res(cur, val, true)
	t.w.assume(has, false)
	res(t, zero(et), false)
	return append(outs, cur, t)
}

var _ = math.Inf
