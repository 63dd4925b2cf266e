package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loop evaluates a natural loop from one entry state: it is unrolled when its
// exit is decided by constants, otherwise its generic iteration is analysed.
func (in *Interp) loop(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, s *state) map[*ssa.BasicBlock][]*state {
	// try to unroll
	save := s.fork()
	saveRets := len(fr.rets)
	exits := map[*ssa.BasicBlock][]*state{}
	cur := []*state{s}
	ok := true
	sub := &frame{fn: fr.fn, inf: fr.inf, h0: fr.h0}
	if in.openHead == nil {
		in.openHead = map[*ssa.BasicBlock]bool{}
	}
	delete(in.openHead, h)
	for it := 0; len(cur) > 0; it++ {
		if it > 700 || len(cur) > 64 {
			ok = false
			break
		}
		pre := in.decided
		in.decided = 0
		und := in.undecidedExit
		in.undecidedExit = 0
		in.watch = append(in.watch, watched{h, body, fr.fn})
		ex := in.region(sub, body, h, cur)
		in.watch = in.watch[:len(in.watch)-1]
		dec, unk := in.decided, in.undecidedExit
		in.decided = pre
		in.undecidedExit = und
		if unk > 0 && (dec == 0 || in.openHead[h]) {
			ok = false
			break
		}
		cur = in.merge(fr, h, ex[h])
		for to, ss := range ex {
			if to != h {
				exits[to] = append(exits[to], ss...)
			}
		}
	}
	if ok {
		fr.rets = append(fr.rets, sub.rets...)
		return exits
	}
	fr.rets = fr.rets[:saveRets]
	return in.genericLoop(fr, h, body, save)
}

type watched struct {
	h    *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	fn   *ssa.Function
}

// noteExit records whether a branch that can leave the innermost loop is decided.
func (in *Interp) noteExit(fn *ssa.Function, b *ssa.BasicBlock, decided bool) {
	if len(in.watch) == 0 {
		return
	}
	wd := in.watch[len(in.watch)-1]
	if wd.h == nil || wd.fn != fn || !wd.body[b] {
		return
	}
	if wd.body[b.Succs[0]] && wd.body[b.Succs[1]] {
		return
	}
	if !decided && b.Dominates(wd.h) { // only the header itself dominates the header
		in.openHead[b] = true
	}
	if decided {
		in.decided++
	} else {
		in.undecidedExit++
	}
}

func (in *Interp) genericLoop(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, s0 *state) map[*ssa.BasicBlock][]*state {
	in.loopNo++
	id := in.loopNo
	var phis []*ssa.Phi
	for _, ins := range h.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	if in.quietDepth == 0 {
		in.quietDepth = 0
	}
	mods := map[string]modEnt{}
	inv := map[*ssa.Phi]bool{}
	for _, p := range phis {
		st, ok := in.step(fr, p, body)
		inv[p] = !ok || st == 0
	}
	hk := fmt.Sprintf("%s#%d:", fr.fn.RelString(nil), h.Index)
	if in.loopSeed != nil {
		for _, p := range phis {
			if in.loopSeed[hk+p.Name()] {
				inv[p] = false
			}
		}
		in.seedMods(hk, s0.w, mods)
	}
	name := func(p *ssa.Phi) string {
		return "lv" + strconv.Itoa(id) + "." + p.Comment + p.Name()
	}
	type roundRes struct {
		exits map[*ssa.BasicBlock][]*state
		rets  []Outcome
		li    *LoopInfo
	}
	hooks := in.saveHooks()
	var last roundRes
	for round := 0; ; round++ {
		if round > 8 {
			undec("the summary of a loop of %s does not converge", shortFn(fr.fn))
		}
		final := false
	again:
		s := s0.fork()
		li := &LoopInfo{id: id, header: h, phis: map[*ssa.Phi]Val{}, init: map[*ssa.Phi]Val{}}
		for _, p := range phis {
			n := fr.inf.num[p]
			li.init[p] = s.regs[n]
			if !inv[p] {
				t := mk(name(p), p.Type())
				if st, ok := in.stride(fr, p, body); ok && isIntVal(li.init[p]) && (st > 1 || st < -1) {
					it := mk(name(p)+"#", types.Typ[types.Int])
					l := toLin(it)
					s.w.facts.lin[l.finish().k()] = l
					v := linAdd(li.init[p], linMul(it, st), 1)
					s.regs[n] = v
					li.phis[p] = v
					continue
				}
				s.regs[n] = t
				li.phis[p] = t
			} else {
				li.phis[p] = s.regs[n]
			}
		}
		// induction variables
		for _, p := range phis {
			if inv[p] {
				continue
			}
			if step, ok := in.step(fr, p, body); ok {
				init := li.init[p]
				if isIntVal(init) {
					if step > 0 {
						d := toLin(linAdd(li.phis[p], init, -1))
						s.w.facts.lin[d.finish().k()] = d
					} else if step < 0 {
						d := toLin(linAdd(init, li.phis[p], -1))
						s.w.facts.lin[d.finish().k()] = d
					}
				}
			}
		}
		for _, k := range sortedKeys(mods) {
			in.havoc(s.w, mods[k], id, k)
		}
		gd := in.guardOf(fr, h, body, s, li, inv)
		if gd != nil {
			s.w.facts.lin[gd.le.finish().k()] = gd.le
		}
		li.guard = gd
		if in.onLoop != nil && final {
			in.onLoop(s.w, li)
		}
		ms := &modSet{limit: in.next, m: map[string]modEnt{}}
		in.mods = append(in.mods, ms)
		if !final {
			in.clearHooks()
		}
		sub := &frame{fn: fr.fn, inf: fr.inf, h0: fr.h0}
		in.watch = append(in.watch, watched{})
		ex := in.region(sub, body, h, []*state{s})
		in.watch = in.watch[:len(in.watch)-1]
		in.mods = in.mods[:len(in.mods)-1]
		if !final {
			in.restoreHooks(hooks)
		}
		grew := false
		for k, e := range ms.m {
			if _, ok := mods[k]; !ok {
				mods[k] = e
				grew = true
			}
		}
		for _, b := range ex[h] {
			bv := map[*ssa.Phi]Val{}
			for _, p := range phis {
				v := b.regs[fr.inf.num[p]]
				bv[p] = v
				if inv[p] && v.k() != li.init[p].k() {
					inv[p] = false
					grew = true
				}
			}
			li.back = append(li.back, bv)
			li.backW = append(li.backW, b.w)
		}
		delete(ex, h)
		last = roundRes{ex, sub.rets, li}
		if !grew && final {
			break
		}
		if !grew {
			final = true
			goto again
		}
	}
	if in.loopVary != nil {
		for _, p := range phis {
			if !inv[p] {
				in.loopVary[hk+p.Name()] = true
			}
		}
		for _, e := range mods {
			in.loopVary[hk+in.modKey(e)] = true
		}
	}
	in.finishLoop(fr, last.li, phis, inv, mods, s0, last.exits)
	fr.rets = append(fr.rets, last.rets...)
	return last.exits
}

// modKey names a memory location in a way that is common to the evaluations of
// a transformation.
func (in *Interp) modKey(e modEnt) string {
	k := "!abs" + strconv.Itoa(e.obj)
	if e.obj >= in.evalBase {
		k = "!rel" + strconv.Itoa(e.obj-in.evalBase)
	}
	for _, p := range e.path {
		if p.idx != nil {
			k += "[]"
			break
		}
		k += p.k()
	}
	return k
}

func (in *Interp) seedMods(hk string, w *World, mods map[string]modEnt) {
	for _, k := range sortedKeys(in.loopSeed) {
		if !startsWith(k, hk+"!") {
			continue
		}
		t := k[len(hk)+4:]
		rel := k[len(hk)+1:len(hk)+4] == "rel"
		var path []PathEl
		num := t
		for i := 0; i < len(t); i++ {
			if t[i] == '.' || t[i] == '[' {
				num = t[:i]
				for _, f := range strings.FieldsFunc(t[i:], func(r rune) bool { return r == '.' }) {
					if strings.HasPrefix(f, "[") {
						path = append(path, PathEl{idx: mk("anyidx", intT)})
						break
					}
					n, err := strconv.Atoi(strings.TrimSuffix(f, "[]"))
					if err != nil {
						undec("internal: location %s", k)
					}
					path = append(path, PathEl{field: n})
					if strings.HasSuffix(f, "[]") {
						path = append(path, PathEl{idx: mk("anyidx", intT)})
						break
					}
				}
				break
			}
		}
		n, err := strconv.Atoi(num)
		if err != nil {
			undec("internal: location %s", k)
		}
		if rel {
			n += in.evalBase
		}
		if w.heap.get(n) == nil {
			continue
		}
		mk2 := strconv.Itoa(n)
		for _, p := range path {
			if p.idx != nil {
				mk2 += "[]"
			} else {
				mk2 += p.k()
			}
		}
		if _, ok := mods[mk2]; !ok {
			mods[mk2] = modEnt{n, path}
		}
	}
}

// guard is a loop condition x < n tested in the header.
type guard struct {
	iters Val  // the number of iterations when the loop ends at the guard, nil if not linear
	le    *Lin // n + step - 1 - x, never negative at the header
}

// guardOf recognises a header of the form x < n where x is a counter moved by a
// fixed step up to n and n does not change in the loop.
func (in *Interp) guardOf(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, s *state, li *LoopInfo, inv map[*ssa.Phi]bool) *guard {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != h {
		return nil
	}
	op := cmp.Op
	X, N := cmp.X, cmp.Y
	in0, in1 := body[h.Succs[0]], body[h.Succs[1]]
	if in0 == in1 {
		return nil
	}
	if in1 { // the loop continues when the condition is false
		switch op {
		case token.GEQ:
			op = token.LSS
		case token.LSS:
			op = token.GEQ
		case token.EQL:
			op = token.NEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		default:
			return nil
		}
	}
	var try func(X, N ssa.Value, op token.Token) *guard
	try = func(X, N ssa.Value, op token.Token) *guard {
		plus := int64(0)
		switch op {
		case token.LSS, token.NEQ:
		case token.LEQ:
			plus = 1
		default:
			return nil
		}
		var c int64
		p, ok := X.(*ssa.Phi)
		if !ok {
			b, ok := X.(*ssa.BinOp)
			if !ok || b.Block() != h {
				return nil
			}
			p, ok = b.X.(*ssa.Phi)
			k, ok2 := b.Y.(*ssa.Const)
			if !ok || !ok2 || k.Value == nil || k.Value.Kind() != constant.Int {
				return nil
			}
			switch b.Op {
			case token.ADD:
				c = k.Int64()
			case token.SUB:
				c = -k.Int64()
			default:
				return nil
			}
		}
		if p.Block() != h || inv[p] {
			return nil
		}
		st, ok := in.stride(fr, p, body)
		if !ok || st < 1 || (op == token.NEQ && st != 1) {
			return nil
		}
		if bt, ok := under(p.Type()).(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 || bt.Info()&types.IsUnsigned != 0 {
			return nil
		}
		var n Val
		if k, ok := N.(*ssa.Const); ok {
			n = constVal(k)
		} else if ins, ok := N.(ssa.Instruction); !ok || !body[ins.Block()] {
			n = in.reg(s, fr, N)
		} else if call, ok := N.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				a := call.Call.Args[0]
				if ains, ok := a.(ssa.Instruction); ok && body[ains.Block()] {
					return nil
				}
				switch under(a.Type()).(type) {
				case *types.Slice, *types.Basic:
					n = in.length(s.w, in.reg(s, fr, a))
				}
			}
		}
		if n == nil || !isIntVal(n) {
			return nil
		}
		n = linAdd(s.w.resolve(n), kInt(plus), 1)
		x0 := linAdd(li.init[p], kInt(c), 1)
		// base case: the first x is at most n + step - 1
		if !s.w.ge0(linAdd(linAdd(n, kInt(st-1), 1), x0, -1)) {
			return nil
		}
		x := linAdd(li.phis[p], kInt(c), 1)
		g := &guard{le: floorDiv(toLin(linAdd(linAdd(n, kInt(st-1), 1), x, -1)))}
		d := linAdd(n, x0, -1)
		if st == 1 {
			g.iters = d
		} else if q, ok := divExact(d, st); ok {
			g.iters = q
		}
		return g
	}
	if g := try(X, N, op); g != nil {
		return g
	}
	switch op {
	case token.GTR:
		return try(N, X, token.LSS)
	case token.GEQ:
		return try(N, X, token.LEQ)
	case token.NEQ:
		return try(N, X, token.NEQ)
	}
	return nil
}

// floorDiv divides l >= 0 by the common factor of its coefficients.
func floorDiv(l *Lin) *Lin {
	var g int64
	for _, c := range l.m {
		if c < 0 {
			c = -c
		}
		for c != 0 {
			g, c = c, g%c
		}
	}
	if g <= 1 {
		return l
	}
	r := &Lin{m: map[string]int64{}, at: l.at}
	for k, c := range l.m {
		r.m[k] = c / g
	}
	r.c = l.c / g
	if l.c < 0 && l.c%g != 0 {
		r.c--
	}
	return toLin(r.finish())
}

func divExact(v Val, n int64) (Val, bool) {
	l := toLin(v)
	r := &Lin{m: map[string]int64{}, at: l.at}
	for k, c := range l.m {
		if c%n != 0 {
			return nil, false
		}
		r.m[k] = c / n
	}
	if l.c%n != 0 {
		return nil, false
	}
	r.c = l.c / n
	return r.finish(), true
}

// stride is the increment of a loop counter when it is the same on every path.
func (in *Interp) stride(fr *frame, p *ssa.Phi, body map[*ssa.BasicBlock]bool) (int64, bool) {
	var st int64
	for i, e := range p.Edges {
		if !body[p.Block().Preds[i]] {
			continue
		}
		x, ok := incOf(e, p, 0)
		if !ok || (st != 0 && st != x) {
			return 0, false
		}
		st = x
	}
	return st, st != 0
}

// iterations is the number of completed iterations of a loop.
func (in *Interp) iterations(fr *frame, li *LoopInfo, phis []*ssa.Phi, inv map[*ssa.Phi]bool) Val {
	for _, p := range phis {
		if inv[p] {
			continue
		}
		if st, ok := in.stride(fr, p, fr.inf.loops[li.header]); ok && isIntVal(li.init[p]) {
			if q, ok := divExact(linAdd(li.phis[p], li.init[p], -1), st); ok {
				return q
			}
		}
	}
	return nil
}

// step finds the constant increment of a loop counter.
func (in *Interp) step(fr *frame, p *ssa.Phi, body map[*ssa.BasicBlock]bool) (int64, bool) {
	var st int64
	found := false
	for i, e := range p.Edges {
		if !body[p.Block().Preds[i]] {
			continue
		}
		x, ok := incOf(e, p, 0)
		if !ok {
			return 0, false
		}
		if found && (x > 0) != (st > 0) {
			return 0, false
		}
		st, found = x, true
	}
	return st, found
}

func incOf(v ssa.Value, p *ssa.Phi, depth int) (int64, bool) {
	if depth > 6 {
		return 0, false
	}
	if b, ok := v.(*ssa.BinOp); ok {
		if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
			n := c.Int64()
			if b.Op.String() == "-" {
				n = -n
			} else if b.Op.String() != "+" {
				return 0, false
			}
			if b.X == ssa.Value(p) {
				return n, true
			}
			if m, ok := incOf(b.X, p, depth+1); ok && (m > 0) == (n > 0) {
				return m + n, true
			}
		}
	}
	return 0, false
}

// havoc forgets a memory location.
func (in *Interp) havoc(w *World, e modEnt, id int, k string) {
	o := in.obj(w, e.obj)
	n := *o
	n.key = ""
	nm := "hv" + strconv.Itoa(id) + ":" + k
	switch o.kind {
	case 'a':
		n.arr = &ArrC{base: termElems{mk(nm, types.NewSlice(o.typ), kStr(o.tag)), o.typ}, elty: o.typ}
		w.heap.m[e.obj] = &n
	case 'm':
		n.mp = &MapC{base: nm, elty: o.mp.elty, kty: o.mp.kty}
		w.heap.m[e.obj] = &n
	case 'c':
		t := o.typ
		var path []PathEl
		for _, p := range e.path {
			if p.idx != nil {
				break
			}
			t = under(t).(*types.Struct).Field(p.field).Type()
			path = append(path, p)
		}
		nv := mk(nm, t)
		saved := in.mods
		in.store(w, &PtrV{obj: e.obj, path: path}, nv)
		in.mods = saved
	}
	for _, ms := range in.mods { // an enclosing summary must know
		if e.obj < ms.limit {
			if _, ok := ms.m[k]; !ok {
				ms.m[k] = e
			}
		}
	}
}

// finishLoop recognises comprehensions: arrays filled element by element.
func (in *Interp) finishLoop(fr *frame, li *LoopInfo, phis []*ssa.Phi, inv map[*ssa.Phi]bool, mods map[string]modEnt, s0 *state, exits map[*ssa.BasicBlock][]*state) {
	// the counter
	for _, p := range phis {
		if inv[p] {
			continue
		}
		step, ok := in.step(fr, p, fr.inf.loops[li.header])
		if !ok || step != 1 {
			continue
		}
		I := li.phis[p]
		init := li.init[p]
		for _, k := range sortedKeys(mods) {
			e := mods[k]
			o0 := in.obj(s0.w, e.obj)
			if o0.kind != 'a' {
				continue
			}
			hv := "hv" + strconv.Itoa(li.id) + ":" + k
			// every iteration writes exactly the element at I+c
			var val Val
			var off Val
			good := len(li.backW) > 0
			multi := false
			for _, w := range li.backW {
				o := in.obj(w, e.obj)
				te, isT := o.arr.base.(termElems)
				if !isT || !startsWith(te.t.k(), hv) || len(o.arr.wr) != 1 {
					good = false
					break
				}
				d := linAdd(o.arr.wr[0].idx, I, -1)
				if mentions(d, I.k()) || (off != nil && off.k() != d.k()) {
					good = false
					break
				}
				off = d
				if val != nil && val.k() != o.arr.wr[0].v.k() {
					multi = true
				}
				val = o.arr.wr[0].v
			}
			if !good {
				continue
			}
			deep := in.deep(li.backW[0], val)
			if multi {
				var alts, deeps []Val
				for _, w := range li.backW {
					o := in.obj(w, e.obj)
					c := kStr(w.facts.String())
					alts = append(alts, mk("when", nil, c, o.arr.wr[0].v))
					deeps = append(deeps, mk("when", nil, c, in.deep(w, o.arr.wr[0].v)))
				}
				val = mk("alt", o0.typ, alts...)
				val.(*Term).x = li
				deep = mk("alt", o0.typ, deeps...)
			}
			// element index t = I + off, so I = t - off
			comp := compElems{ivar: I, lo: linAdd(init, off, 1), v: val, dv: deep, elty: o0.typ, other: arrElems{o0.arr}}
			if off.k() != "0" {
				sh := mk(I.k()+"'", types.Typ[types.Int])
				comp.v = subst(val, map[string]Val{I.k(): linAdd(sh, off, -1)})
				comp.dv = subst(deep, map[string]Val{I.k(): linAdd(sh, off, -1)})
				comp.ivar = sh
			}
			for _, ss := range exits {
				for _, s := range ss {
					o := in.obj(s.w, e.obj)
					te, isT := o.arr.base.(termElems)
					if isT && startsWith(te.t.k(), hv) && len(o.arr.wr) == 0 {
						n := *o
						n.key = ""
						c := comp
						c.hi = linAdd(I, off, 1)
						n.arr = &ArrC{base: c, elty: o.typ}
						s.w.heap.m[e.obj] = &n
					}
				}
			}
		}
	}
	// accumulators: a slice that every iteration leaves alone or appends to
	for _, p := range phis {
		if inv[p] {
			continue
		}
		if _, ok := under(p.Type()).(*types.Slice); !ok {
			continue
		}
		lv := li.phis[p]
		var alts []Val
		good := len(li.back) > 0
		for i, b := range li.back {
			v := b[p]
			if v.k() == lv.k() {
				alts = append(alts, mk("when", nil, kStr(li.backW[i].facts.String()), mk("seq", nil)))
				continue
			}
			sl, ok := v.(*SliceV)
			if !ok {
				good = false
				break
			}
			o := in.obj(li.backW[i], sl.arr)
			parts := in.segParts(li.backW[i], Seg{o.arr, sl.off, sl.ln})
			if len(parts) == 0 {
				good = false
				break
			}
			h, ok := isTerm(parts[0], "all")
			if !ok || h.args[0].k() != lv.k() {
				good = false
				break
			}
			alts = append(alts, mk("when", nil, kStr(li.backW[i].facts.String()), mk("seq", nil, parts[1:]...)))
		}
		if !good {
			continue
		}
		if t, ok := lv.(*Term); ok {
			if in.accs == nil {
				in.accs = map[string]*AccInfo{}
			}
			in.accs[t.key] = &AccInfo{init: li.init[p], alts: alts, li: li}
		}
		in.accumulate(fr, li, p, alts, in.iterations(fr, li, phis, inv), s0, exits)
	}
}

// accumulate gives a slice to which every iteration appends one element its
// elements at the exits of the loop.
func (in *Interp) accumulate(fr *frame, li *LoopInfo, p *ssa.Phi, alts []Val, K Val, s0 *state, exits map[*ssa.BasicBlock][]*state) {
	if K == nil || len(alts) == 0 {
		return
	}
	elty := elemType(p.Type())
	var val, deep Val
	var vs, ds []Val
	multi := false
	for i, a := range alts {
		w := a.(*Term)
		seq, ok := isTerm(w.args[1], "seq")
		if !ok || len(seq.args) != 1 || partLen(seq.args[0]) != nil {
			return
		}
		v := seq.args[0]
		if val != nil && val.k() != v.k() {
			multi = true
		}
		val = v
		deep = in.deep(li.backW[i], v)
		vs = append(vs, mk("when", nil, w.args[0], v))
		ds = append(ds, mk("when", nil, w.args[0], deep))
	}
	lv := li.phis[p]
	if mentions(val, lv.k()) || mentions(deep, lv.k()) {
		return
	}
	if multi {
		t := mk("alt", elty, vs...)
		t.x = li
		val = t
		deep = mk("alt", elty, ds...)
	}
	// the element made by iteration k, counted from 0
	it := mk("it"+strconv.Itoa(li.id), types.Typ[types.Int])
	sb := map[string]Val{}
	kl := toLin(K)
	for a, c := range kl.m {
		if c == 1 && startsWith(a, "lv"+strconv.Itoa(li.id)+".") {
			sb[a] = linAdd(it, linAdd(K, kl.at[a], -1), -1)
		}
	}
	if len(sb) != 1 {
		return
	}
	val, deep = subst(val, sb), subst(deep, sb)
	init := li.init[p]
	for _, to := range sortedBlocks(exits) {
		for _, s := range exits[to] {
			used := false
			for _, r := range s.regs {
				if r != nil && r.k() == lv.k() {
					used = true
				}
			}
			if !used {
				continue
			}
			n := s.w.resolve(K)
			if g := li.guard; g != nil && g.iters != nil && s.w.ge0(linAdd(n, g.iters, -1)) && s.w.ge0(linAdd(g.iters, n, -1)) {
				n = s.w.resolve(g.iters)
			}
			comp := compElems{ivar: it, lo: kInt(0), hi: n, v: val, dv: deep, elty: elty, other: zeroElems{elty}}
			c := &ArrC{base: comp, elty: elty}
			n0 := s.w.resolve(in.length(s.w, init))
			total := n
			if c0, ok := asInt(n0); !ok || c0 != 0 {
				si := in.asSlice(init)
				o := in.obj(s.w, si.arr)
				c = &ArrC{base: catElems{segs: []Seg{{o.arr, si.off, n0}, {c, kInt(0), n}}, elty: elty}, elty: elty}
				total = linAdd(n0, n, 1)
			}
			id := in.alloc(s.w, &Obj{kind: 'a', typ: elty, arr: c, tag: "appends in a loop"})
			v := &SliceV{arr: id, off: kInt(0), ln: total, cp: mk("cap", types.Typ[types.Int], kStr("S"+strconv.Itoa(id)))}
			for i, r := range s.regs {
				if r != nil && r.k() == lv.k() {
					s.regs[i] = v
				}
			}
		}
	}
}

func sortedBlocks(m map[*ssa.BasicBlock][]*state) []*ssa.BasicBlock {
	var r []*ssa.BasicBlock
	for b := range m {
		r = append(r, b)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Index < r[j].Index })
	return r
}

// arrElems are the elements of an earlier version of an array.
type arrElems struct{ a *ArrC }

func (z arrElems) elem(in *Interp, w *World, idx Val) Val { return z.a.load(in, w, idx) }
func (z arrElems) k() string                              { return z.a.k() }

// AccInfo describes a slice built by appending in a loop.
type AccInfo struct {
	init Val
	alts []Val
	li   *LoopInfo
}

func startsWith(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

type hookSet struct {
	a func(w *World, site ssa.Instruction, p *PtrV, v Val)
	b func(w *World, site ssa.Instruction, m Val, key, v Val, del bool)
	c func(w *World, site ssa.Instruction, m Val, key Val)
	d func(w *World, site ssa.Instruction, seq Val, ln, idx Val)
	e func(w *World, site ssa.Instruction, x Val, t types.Type)
	f func(w *World, site ssa.Instruction, x Val)
	g func(w *World, li *LoopInfo)
}

func (in *Interp) saveHooks() hookSet {
	return hookSet{in.onStore, in.onMapUpd, in.onLookup, in.onIndex, in.onAssert, in.onNilDer, in.onLoop}
}
func (in *Interp) clearHooks() {
	in.onStore, in.onMapUpd, in.onLookup, in.onIndex, in.onAssert, in.onNilDer, in.onLoop = nil, nil, nil, nil, nil, nil, nil
}
func (in *Interp) restoreHooks(h hookSet) {
	in.onStore, in.onMapUpd, in.onLookup, in.onIndex, in.onAssert, in.onNilDer, in.onLoop = h.a, h.b, h.c, h.d, h.e, h.f, h.g
}
