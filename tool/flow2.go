package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func siteName(i ssa.Instruction) string {
	if v, ok := i.(ssa.Value); ok && v.Name() != "" {
		return fmt.Sprintf("%p.%s", i.Parent(), v.Name())
	}
	b := i.Block()
	for n, x := range b.Instrs {
		if x == i {
			return fmt.Sprintf("%p.b%d.%d", i.Parent(), b.Index, n)
		}
	}
	return fmt.Sprintf("%p", i)
}

// val gives the value of an SSA value in a state.
func (f *Flow) val(st *FState, v ssa.Value) *T {
	if t := st.env[v]; t != nil {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return f.zero(x.Type())
		}
		return f.cnst(x.Value, x.Type())
	case *ssa.Global:
		return f.mk("global", x.RelString(nil), x.Type())
	case *ssa.Function:
		t := f.mk("func", fmt.Sprintf("%p", x), x.Type())
		t.obj = x
		return t
	case *ssa.Builtin:
		return f.mk("builtin", x.Name(), x.Type())
	}
	undec("no value for %s in %s", v.Name(), shortFn(v.Parent()))
	return nil
}

func (f *Flow) event(e *FEvent) {
	if f.live && f.onEv != nil {
		f.onEv(e)
	}
	if f.stop != nil && f.stop(e) {
		e.st.dead = true
	}
}

// block analyses the instructions of a block.
func (f *Flow) block(ctx *Ctx, b *ssa.BasicBlock, cur []*FState) (outs [][]*FState, rets []FRet) {
	outs = make([][]*FState, len(b.Succs))
	for _, in := range b.Instrs {
		if f.live {
			f.nInstr++
		}
		switch x := in.(type) {
		case *ssa.If:
			for _, s := range cur {
				c := f.val(s, x.Cond)
				t := f.truth(s, c)
				f.event(&FEvent{kind: "branch", site: in, ctx: ctx, val: c, st: s})
				if t != 0 {
					y := s.fork()
					f.assume(y, c, true)
					outs[0] = append(outs[0], y)
				}
				if t != 1 {
					y := s.fork()
					f.assume(y, c, false)
					outs[1] = append(outs[1], y)
				}
			}
			return
		case *ssa.Jump:
			outs[0] = cur
			return
		case *ssa.Return:
			for _, s := range cur {
				var vs []*T
				for _, r := range x.Results {
					vs = append(vs, f.val(s, r))
				}
				f.event(&FEvent{kind: "return", site: in, ctx: ctx, args: vs, st: s})
				rets = append(rets, FRet{st: s, vals: vs})
			}
			return
		case *ssa.Panic:
			for _, s := range cur {
				f.event(&FEvent{kind: "panic", site: in, ctx: ctx, val: f.val(s, x.X), st: s})
				_ = s
			}
			return
		}
		var next []*FState
		for _, s := range cur {
			for _, y := range f.instr(ctx, in, s) {
				if !y.dead {
					next = append(next, y)
				}
			}
		}
		cur = next
		if len(cur) > 64 {
			undec("too many cases in %s", f.p.instrPos(in))
		}
	}
	return
}

func (f *Flow) one(st *FState, x ssa.Value, t *T) []*FState {
	st.env[x] = t
	return []*FState{st}
}

func (f *Flow) instr(ctx *Ctx, in ssa.Instruction, st *FState) []*FState {
	switch x := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
		return []*FState{st}
	case *ssa.Alloc:
		a := f.sym("alloc", siteName(x), x.Type(), ctx, x.Block())
		for k := range st.mem {
			if rootOf(k) == a {
				delete(st.mem, k)
			}
		}
		delete(st.esc, a)
		et := x.Type().(*types.Pointer).Elem()
		f.store(st, a, f.zero(et), et, nil)
		return f.one(st, x, a)
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
			if f.live && hasStr(x.X.Type(), map[types.Type]bool{}) {
				f.event(&FEvent{kind: "cmp", site: in, ctx: ctx, args: []*T{f.val(st, x.X), f.val(st, x.Y)}, st: st})
			}
		}
		return f.one(st, x, f.binop(x.Op, f.val(st, x.X), f.val(st, x.Y), x.Type()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := f.val(st, x.X)
			v := f.load(st, a, x.Type())
			f.event(&FEvent{kind: "load", site: in, ctx: ctx, addr: a, val: v, st: st})
			return f.one(st, x, v)
		case token.NOT:
			return f.one(st, x, f.not(f.val(st, x.X)))
		case token.SUB:
			v := f.val(st, x.X)
			if n, ok := v.intVal(); ok {
				return f.one(st, x, f.intc(-n))
			}
			return f.one(st, x, f.mk("op", "neg", x.Type(), v))
		case token.XOR:
			return f.one(st, x, f.mk("op", "inv", x.Type(), f.val(st, x.X)))
		}
		if x.Op == token.ARROW && f.val(st, x.X).op == "makechan" {
			return nil // nobody sends
		}
		undec("the operation %s at %s", x.Op, f.p.instrPos(in))
	case *ssa.Store:
		a, v := f.val(st, x.Addr), f.val(st, x.Val)
		f.event(&FEvent{kind: "store", site: in, ctx: ctx, addr: a, val: v, st: st})
		f.store(st, a, v, x.Val.Type(), f.sym("ep", siteName(in), nil, ctx, in.Block()))
		return []*FState{st}
	case *ssa.FieldAddr:
		t := x.X.Type()
		return f.one(st, x, f.fa(f.val(st, x.X), under(t).(*types.Pointer).Elem(), x.Field))
	case *ssa.Field:
		return f.one(st, x, f.field(f.val(st, x.X), x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		et := x.Type().(*types.Pointer).Elem()
		a := f.ia(f.val(st, x.X), f.val(st, x.Index), et)
		f.event(&FEvent{kind: "index", site: in, ctx: ctx, addr: a, args: []*T{f.val(st, x.X), f.val(st, x.Index)}, st: st})
		return f.one(st, x, a)
	case *ssa.Index:
		f.event(&FEvent{kind: "index", site: in, ctx: ctx, args: []*T{f.val(st, x.X), f.val(st, x.Index)}, st: st})
		return f.one(st, x, f.mk("index", "", x.Type(), f.val(st, x.X), f.val(st, x.Index)))
	case *ssa.ChangeType:
		return f.one(st, x, f.val(st, x.X))
	case *ssa.ChangeInterface:
		return f.one(st, x, f.val(st, x.X))
	case *ssa.Convert:
		v := f.val(st, x.X)
		if v.op == "const" && v.cv != nil && isInt(x.Type()) && isInt(x.X.Type()) {
			return f.one(st, x, f.cnst(v.cv, x.Type()))
		}
		return f.one(st, x, f.mk("conv", "", x.Type(), v))
	case *ssa.MultiConvert:
		return f.one(st, x, f.mk("conv", "", x.Type(), f.val(st, x.X)))
	case *ssa.MakeInterface:
		return f.one(st, x, f.mk("iface", "", x.X.Type(), f.val(st, x.X)))
	case *ssa.TypeAssert:
		v := f.val(st, x.X)
		var r, ok *T
		if v.op == "iface" && !types.IsInterface(x.AssertedType) {
			same := types.Identical(v.typ, x.AssertedType)
			ok = f.boolc(same)
			if same {
				r = v.args[0]
			} else {
				r = f.zero(x.AssertedType)
			}
		} else {
			r = f.mk("assert", typeKey(x.AssertedType), x.AssertedType, v)
			ok = f.mk("isa", typeKey(x.AssertedType), types.Typ[types.Bool], v)
		}
		if x.CommaOk {
			return f.one(st, x, f.mk("tuple", "", x.Type(), r, ok))
		}
		f.event(&FEvent{kind: "assert", site: in, ctx: ctx, val: v, args: []*T{ok}, st: st})
		return f.one(st, x, r)
	case *ssa.Extract:
		t := f.val(st, x.Tuple)
		if t.op == "tuple" {
			return f.one(st, x, t.args[x.Index])
		}
		return f.one(st, x, f.mk("ext", fmt.Sprint(x.Index), x.Type(), t))
	case *ssa.Lookup:
		m, k := f.val(st, x.X), f.val(st, x.Index)
		if mt, ok := under(x.X.Type()).(*types.Map); ok {
			f.event(&FEvent{kind: "mapget", site: in, ctx: ctx, addr: m, args: []*T{k}, st: st})
			v := f.mapRead(st, m, k, mt, "")
			if x.CommaOk {
				return f.one(st, x, f.mk("tuple", "", x.Type(), v, f.mapRead(st, m, k, mt, "has")))
			}
			return f.one(st, x, v)
		}
		return f.one(st, x, f.mk("index", "", x.Type(), m, k))
	case *ssa.MapUpdate:
		m, k, v := f.val(st, x.Map), f.val(st, x.Key), f.val(st, x.Value)
		f.event(&FEvent{kind: "mapset", site: in, ctx: ctx, addr: m, args: []*T{k}, val: v, st: st})
		mt := under(x.Map.Type()).(*types.Map)
		f.mapWrite(st, m, k, v, f.boolc(true), mt, f.sym("ep", siteName(in), nil, ctx, in.Block()))
		return []*FState{st}
	case *ssa.MakeMap:
		m := f.sym("makemap", siteName(x), x.Type(), ctx, x.Block())
		for k := range st.mem {
			if rootOf(k) == m {
				delete(st.mem, k)
			}
		}
		delete(st.esc, m)
		return f.one(st, x, m)
	case *ssa.MakeSlice:
		s := f.sym("makeslice", siteName(x), x.Type(), ctx, x.Block(), f.val(st, x.Len))
		for k := range st.mem {
			if rootOf(k) == s {
				delete(st.mem, k)
			}
		}
		delete(st.esc, s)
		return f.one(st, x, s)
	case *ssa.Slice:
		v := f.val(st, x.X)
		lo, hi := f.intc(0), f.nilc()
		if x.Low != nil {
			lo = f.val(st, x.Low)
		}
		if x.High != nil {
			hi = f.val(st, x.High)
		}
		f.event(&FEvent{kind: "slice", site: in, ctx: ctx, val: v, args: []*T{lo, hi}, st: st})
		if pt, ok := under(x.X.Type()).(*types.Pointer); ok {
			n := under(pt.Elem()).(*types.Array).Len()
			t := f.mk("slice", fmt.Sprint(n), x.Type(), v, lo, hi)
			t.obj = n
			return f.one(st, x, t)
		}
		if l, ok := lo.intVal(); ok && l == 0 && isNilT(hi) {
			return f.one(st, x, v)
		}
		return f.one(st, x, f.mk("slice", "", x.Type(), v, lo, hi))
	case *ssa.MakeClosure:
		var as []*T
		for _, b := range x.Bindings {
			as = append(as, f.val(st, b))
		}
		t := f.mk("closure", fmt.Sprintf("%p", x.Fn), x.Type(), as...)
		t.obj = x.Fn.(*ssa.Function)
		return f.one(st, x, t)
	case *ssa.Range:
		return f.one(st, x, f.mk("range", "", x.X.Type(), f.val(st, x.X)))
	case *ssa.Next:
		it := f.val(st, x.Iter)
		tt := x.Type().(*types.Tuple)
		ok := f.sym("sym", "ok."+siteName(x), types.Typ[types.Bool], ctx, x.Block())
		k := f.sym("key", siteName(x), tt.At(1).Type(), ctx, x.Block(), it)
		var v *T
		if mt, isMap := under(it.typ).(*types.Map); isMap {
			v = f.mapRead(st, it.args[0], k, mt, "")
		} else {
			v = f.mk("index", "", tt.At(2).Type(), it.args[0], k)
		}
		return f.one(st, x, f.mk("tuple", "", x.Type(), ok, k, v))
	case *ssa.MakeChan:
		return f.one(st, x, f.sym("makechan", siteName(x), x.Type(), ctx, x.Block()))
	case *ssa.Select:
		if len(x.States) == 0 && x.Blocking {
			return nil
		}
	case *ssa.Call:
		return f.call(ctx, x, st)
	case *ssa.Defer:
		st.defs = append(st.defs, f.callInfo(ctx, x, st))
		return []*FState{st}
	case *ssa.RunDefers:
		cur := []*FState{st}
		ds := st.defs
		st.defs = nil
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*FState
			for _, s := range cur {
				for _, r := range f.doCall(s, ds[i]) {
					if !r.pan {
						next = append(next, r.st)
					}
				}
			}
			cur = next
		}
		for _, s := range cur {
			s.defs = nil
		}
		return cur
	}
	undec("the instruction %T at %s", in, f.p.instrPos(in))
	return nil
}

func (f *Flow) mapAddr(m, k *T, mt *types.Map, what string) *T {
	typ := mt.Elem()
	if what == "has" {
		typ = types.Typ[types.Bool]
	}
	t := f.mk("ma", what, types.NewPointer(typ), m, k)
	return t
}

func (f *Flow) mapRead(st *FState, m, k *T, mt *types.Map, what string) *T {
	a := f.mapAddr(m, k, mt, what)
	if v := st.mem[a]; v != nil {
		return v
	}
	v := f.read(st, a, a.typ.(*types.Pointer).Elem())
	st.mem[a] = v
	return v
}

func (f *Flow) mapWrite(st *FState, m, k, v, has *T, mt *types.Map, ep *T) {
	a, h := f.mapAddr(m, k, mt, ""), f.mapAddr(m, k, mt, "has")
	cl := f.class(a)
	for x := range st.mem {
		if x.op == "ma" && x != a && x != h && f.class(x) == cl && !f.distinct(st, a, x) && !f.distinct(st, h, x) {
			delete(st.mem, x)
		}
	}
	r := rootOf(m)
	if !(isFresh(r) && !st.esc[r]) {
		st.ep[cl] = ep
	}
	st.mem[a] = v
	st.mem[h] = has
	f.escape(st, v)
	f.escape(st, k)
}

// ---- calls

func (f *Flow) callInfo(ctx *Ctx, x ssa.CallInstruction, st *FState) *FCall {
	c := x.Common()
	r := &FCall{site: x, ctx: ctx}
	if c.IsInvoke() {
		r.name = "(" + typeKey(c.Value.Type()) + ")." + c.Method.Name()
		r.args = append(r.args, f.val(st, c.Value))
	} else {
		r.fv = f.val(st, c.Value)
		if fn, ok := r.fv.obj.(*ssa.Function); ok && (r.fv.op == "func" || r.fv.op == "closure") {
			r.fn = fn
			r.name = fullName(fn)
		} else if r.fv.op == "builtin" {
			r.name = r.fv.c
		}
	}
	for _, a := range c.Args {
		r.args = append(r.args, f.val(st, a))
	}
	return r
}

func (f *Flow) call(ctx *Ctx, x *ssa.Call, st *FState) []*FState {
	c := f.callInfo(ctx, x, st)
	var out []*FState
	for _, r := range f.doCall(st, c) {
		if r.pan {
			continue
		}
		var t *T
		switch len(r.vals) {
		case 0:
			t = f.mk("tuple", "", x.Type())
		case 1:
			t = r.vals[0]
		default:
			t = f.mk("tuple", "", x.Type(), r.vals...)
		}
		r.st.env[x] = t
		out = append(out, r.st)
	}
	return out
}

func (f *Flow) onStack(ctx *Ctx, fn *ssa.Function) bool {
	for c := ctx; c != nil; c = c.up {
		if c.fn == fn {
			return true
		}
	}
	return false
}

func (f *Flow) doCall(st *FState, c *FCall) []FRet {
	if c.fv != nil && c.fv.op == "builtin" {
		return f.builtin(st, c)
	}
	f.event(&FEvent{kind: "call", site: c.site, ctx: c.ctx, name: c.name, args: c.args, val: c.fv, st: st})
	if st.dead {
		return nil
	}
	if f.onCall != nil {
		if r, ok := f.onCall(f, st, c); ok {
			return r
		}
	}
	if c.fn != nil && c.fn.Blocks != nil && isRepoPath(fnPkg(c.fn)) && !f.opaque[c.fn] && !f.onStack(c.ctx, c.fn) {
		var binds []*T
		if c.fv != nil && c.fv.op == "closure" {
			binds = c.fv.args
		}
		return f.run(c.fn, f.context(c.ctx, c.site, c.fn), c.args, binds, st)
	}
	return f.opaqueCall(st, c)
}

// pure are packages whose functions only compute a result from their arguments.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "errors": true, "fmt": true, "math": true, "unicode": true, "unicode/utf8": true, "encoding/base64": true, nameutl: true}

// opaqueCall replaces a call by its effects.
func (f *Flow) opaqueCall(st *FState, c *FCall) []FRet {
	sig := c.site.Common().Signature()
	blk := c.site.Block()
	if c.fn == nil && c.fv != nil { // unknown function value
		for _, a := range c.args {
			f.escape(st, a)
		}
		for a := range st.mem {
			if r := rootOf(a); !isFresh(r) || st.esc[r] {
				delete(st.mem, a)
			}
		}
		st.ep = map[string]*T{"*": f.sym("ep", siteName(c.site), nil, c.ctx, blk)}
	}
	repo := c.fn != nil && isRepoPath(fnPkg(c.fn))
	if repo {
		for _, a := range c.args {
			f.escape(st, a)
		}
		if c.fv != nil {
			f.escape(st, c.fv)
		}
		ep := f.sym("ep", siteName(c.site), nil, c.ctx, blk)
		f.havoc(st, f.modset(c.fn), ep)
	} else if c.fn != nil {
		switch n := fullName(c.fn); {
		case n == "sort.Slice" || n == "sort.SliceStable" || strings.HasPrefix(n, "slices.Sort") || n == "slices.Reverse":
			s := c.args[0]
			if s.op == "iface" {
				s = s.args[0]
			}
			if sl, ok := under(s.typ).(*types.Slice); ok {
				m := map[string]bool{}
				leafClasses(sl.Elem(), "", m)
				f.havoc(st, m, f.sym("ep", siteName(c.site), nil, c.ctx, blk))
			}
			for _, a := range c.args {
				if a.op == "closure" {
					f.havoc(st, f.modset(a.obj.(*ssa.Function)), f.sym("ep", siteName(c.site)+".fn", nil, c.ctx, blk))
				}
			}
		}
	}
	pure := c.fn != nil && !repo && (purePkgs[fnPkg(c.fn)] || strings.HasSuffix(fullName(c.fn), ".GetLineAndColPosition") && strings.Contains(fnPkg(c.fn), "/takenoco/") || fullName(c.fn) == "encoding/json.Marshal")
	if c.fn == nil && c.site.Common().IsInvoke() && c.site.Common().Method.Name() == "Error" {
		pure = true
	}
	var vals []*T
	res := sig.Results()
	if pure {
		// the elements of variadic arguments are part of the call
		var as []*T
		for _, a := range c.args {
			as = append(as, f.spread(st, a))
		}
		if len(as) == 1 && res.Len() == 1 {
			if s, ok := as[0].strVal(); ok {
				switch c.name {
				case "strings.ToLower":
					return []FRet{{st: st, vals: []*T{f.cnst(constant.MakeString(strings.ToLower(s)), res.At(0).Type())}}}
				case "strings.ToUpper":
					return []FRet{{st: st, vals: []*T{f.cnst(constant.MakeString(strings.ToUpper(s)), res.At(0).Type())}}}
				}
			}
		}
		base := f.mk("call", c.name, c.site.Common().Signature().Results(), as...)
		if res.Len() == 1 {
			base.typ = res.At(0).Type()
			vals = []*T{base}
		} else {
			for i := 0; i < res.Len(); i++ {
				vals = append(vals, f.mk("ext", fmt.Sprint(i), res.At(i).Type(), base))
			}
		}
	} else {
		for i := 0; i < res.Len(); i++ {
			v := f.sym("res", fmt.Sprintf("%s.%d", siteName(c.site), i), res.At(i).Type(), c.ctx, blk)
			v.obj = c.name
			if c.name == "" {
				v.obj = c.fv.String()
			}
			vals = append(vals, v)
		}
	}
	n := res.Len()
	if n > 0 && types.Identical(res.At(n-1).Type(), errorType()) && !nonNil(vals[n-1]) && !f.noFork {
		good := st.fork()
		gv := append([]*T{}, vals...)
		gv[n-1] = f.nilc()
		e := vals[n-1]
		f.assume(st, f.eq(e, f.nilc()), false)
		e.nn = true
		f.assume(good, f.mk("failed", "", types.Typ[types.Bool], e), false)
		f.assume(st, f.mk("failed", "", types.Typ[types.Bool], e), true)
		st.pend[e] = true
		return []FRet{{st: good, vals: gv}, {st: st, vals: vals}}
	}
	return []FRet{{st: st, vals: vals}}
}

// spread replaces a slice of a local array by its elements.
func (f *Flow) spread(st *FState, a *T) *T {
	if a.op == "slice" && a.args[0].op == "alloc" && a.obj != nil {
		if n := a.obj.(int64); n <= 16 {
			var es []*T
			et := under(a.typ).(*types.Slice).Elem()
			for i := int64(0); i < n; i++ {
				es = append(es, f.load(st, f.ia(a.args[0], f.intc(i), et), et))
			}
			return f.mk("list", "", a.typ, es...)
		}
	}
	return a
}

func leafClasses(t types.Type, cl string, m map[string]bool) {
	if u, ok := under(t).(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			leafClasses(u.Field(i).Type(), classOf(t, i), m)
		}
		return
	}
	if cl == "" {
		cl = "*" + typeKey(t)
	}
	m[cl] = true
}

func (f *Flow) havoc(st *FState, set map[string]bool, ep *T) {
	cls := map[string]bool{}
	for c := range set {
		cls[c] = true
		if t := f.p.takenMembers()[c]; t != "" {
			cls[t] = true
		}
	}
	for a := range st.mem {
		if cls[f.class(a)] {
			r := rootOf(a)
			if isFresh(r) && !st.esc[r] {
				continue
			}
			delete(st.mem, a)
		}
	}
	for c := range cls {
		st.ep[c] = ep
	}
}

// modset gives the classes a function may write, with everything it calls.
func (f *Flow) modset(fn *ssa.Function) map[string]bool {
	if m := f.mods[fn]; m != nil {
		return m
	}
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if g == nil || seen[g] {
			return
		}
		seen[g] = true
		for _, a := range g.AnonFuncs {
			walk(a)
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if _, ok := x.Addr.(*ssa.Alloc); ok && !x.Addr.(*ssa.Alloc).Heap {
						continue
					}
					f.addrClasses(x.Addr, m)
				case *ssa.MapUpdate:
					m["map "+typeKey(x.Map.Type())] = true
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy":
							if sl, ok := under(c.Common().Args[0].Type()).(*types.Slice); ok {
								leafClasses(sl.Elem(), "", m)
							}
						case "delete", "clear":
							m["map "+typeKey(c.Common().Args[0].Type())] = true
						}
						continue
					}
					if cal := c.Common().StaticCallee(); cal != nil {
						if isRepoPath(fnPkg(cal)) {
							walk(cal)
						} else if strings.HasPrefix(fullName(cal), "sort.") {
							a := c.Common().Args[0]
							if mi, ok := a.(*ssa.MakeInterface); ok {
								a = mi.X
							}
							if sl, ok := under(a.Type()).(*types.Slice); ok {
								leafClasses(sl.Elem(), "", m)
							}
						}
					}
					for _, a := range c.Common().Args {
						if g2, ok := a.(*ssa.Function); ok && isRepoPath(fnPkg(g2)) {
							walk(g2)
						}
					}
				}
			}
		}
	}
	walk(fn)
	f.mods[fn] = m
	return m
}

// addrClasses gives the classes written by a store to an SSA address.
func (f *Flow) addrClasses(a ssa.Value, m map[string]bool) {
	et := under(a.Type()).(*types.Pointer).Elem()
	if fa, ok := a.(*ssa.FieldAddr); ok {
		st := under(fa.X.Type()).(*types.Pointer).Elem()
		leafClasses(et, classOf(st, fa.Field), m)
		return
	}
	leafClasses(et, "", m)
}

func (f *Flow) builtin(st *FState, c *FCall) []FRet {
	ret := func(t *T) []FRet { return []FRet{{st: st, vals: []*T{t}}} }
	typ := types.Type(nil)
	if v, ok := c.site.(ssa.Value); ok {
		typ = v.Type()
	}
	switch c.name {
	case "len":
		return ret(f.length(c.args[0]))
	case "cap":
		return ret(f.mk("cap", "", typ, c.args[0]))
	case "append":
		f.event(&FEvent{kind: "append", site: c.site, ctx: c.ctx, addr: c.args[0], args: c.args[1:], st: st})
		a, b := c.args[0], c.args[1]
		et := under(typ).(*types.Slice).Elem()
		var r *T
		if b.op == "slice" && b.args[0].op == "alloc" && b.obj != nil && b.obj.(int64) <= 16 && isNilT(b.args[2]) {
			as := []*T{a}
			if a.op == "app" {
				as = append([]*T{}, a.args...)
			}
			for i := int64(0); i < b.obj.(int64); i++ {
				v := f.load(st, f.ia(b.args[0], f.intc(i), et), et)
				f.escape(st, v)
				as = append(as, v)
			}
			r = f.mk("app", "", typ, as...)
		} else if isNilT(b) {
			r = a
		} else {
			r = f.mk("appall", "", typ, a, b)
		}
		return ret(r)
	case "copy":
		s := c.args[0]
		if sl, ok := under(s.typ).(*types.Slice); ok {
			m := map[string]bool{}
			leafClasses(sl.Elem(), "", m)
			f.havoc(st, m, f.sym("ep", siteName(c.site), nil, c.ctx, c.site.Block()))
			for a := range st.mem {
				if m[f.class(a)] && rootOf(a) == rootOf(s) {
					delete(st.mem, a)
				}
			}
		}
		f.event(&FEvent{kind: "copy", site: c.site, ctx: c.ctx, args: c.args, st: st})
		return ret(f.mk("copied", "", types.Typ[types.Int], c.args...))
	case "delete":
		f.event(&FEvent{kind: "mapdel", site: c.site, ctx: c.ctx, addr: c.args[0], args: c.args[1:], st: st})
		mt := under(c.args[0].typ).(*types.Map)
		f.mapWrite(st, c.args[0], c.args[1], f.zero(mt.Elem()), f.boolc(false), mt, f.sym("ep", siteName(c.site), nil, c.ctx, c.site.Block()))
		return []FRet{{st: st}}
	case "min", "max":
		return ret(f.mk("op", c.name, typ, c.args...))
	case "print", "println":
		return []FRet{{st: st}}
	}
	undec("the builtin %s at %s", c.name, f.p.instrPos(c.site))
	return nil
}

// start analyses a function from an unknown state.
func (f *Flow) start(fn *ssa.Function, setup func(st *FState, args []*T)) []FRet {
	st := newFState()
	var args []*T
	for _, p := range fn.Params {
		args = append(args, f.param(p))
	}
	if setup != nil {
		setup(st, args)
	}
	f.live = true
	return f.run(fn, f.context(nil, nil, fn), args, nil, st)
}

// param is the value a parameter of the function analysed is called with.
func (f *Flow) param(p *ssa.Parameter) *T {
	t := f.mk("param", p.Parent().Name()+"."+p.Name(), p.Type())
	t.obj = p
	return t
}

// takenMembers are the members whose address is passed on, with the class of
// what a pointer of that type points to: both may be the same memory.
func (p *Program) takenMembers() map[string]string {
	p.takenOnce.Do(func() {
		p.taken = map[string]string{}
		for _, fn := range p.repoFuncs(nil) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					et := under(fa.Type()).(*types.Pointer).Elem()
					if _, ok := under(et).(*types.Struct); ok {
						continue
					}
					for _, u := range *fa.Referrers() {
						switch x := u.(type) {
						case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
							continue
						case *ssa.Store:
							if x.Val != ssa.Value(fa) {
								continue
							}
						}
						p.taken[classOf(under(fa.X.Type()).(*types.Pointer).Elem(), fa.Field)] = "*" + typeKey(et)
					}
				}
			}
		}
	})
	return p.taken
}
