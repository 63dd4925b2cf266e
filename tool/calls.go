package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type gramMemoEnt struct{ v Val }

// doCall evaluates a call instruction.
func (in *Interp) doCall(fr *frame, s *state, x *ssa.Call) []Outcome {
	c := &x.Call
	var args []Val
	for _, a := range c.Args {
		args = append(args, s.w.resolve(in.reg(s, fr, a)))
	}
	if c.IsInvoke() {
		recv := s.w.resolve(in.reg(s, fr, c.Value))
		if i, ok := recv.(*IfaceV); ok && i.dyn != types.Type(errDyn) {
			if fn := in.p.Prog.LookupMethod(i.dyn, c.Method.Pkg(), c.Method.Name()); fn != nil {
				return in.apply(s.w, x, &FuncV{fn: fn}, append([]Val{i.v}, args...))
			}
		}
		if _, ok := recv.(NilV); ok {
			if in.onNilDer != nil {
				in.onNilDer(s.w, x, recv)
			}
			return []Outcome{{w: s.w, panic: true, res: kStr("nil method call")}}
		}
		return in.extInvoke(s.w, x, c.Method, recv, args)
	}
	f := s.w.resolve(in.reg(s, fr, c.Value))
	if b, ok := f.(*FuncV); ok && b.builtin != "" {
		return []Outcome{{w: s.w, res: in.builtin(s.w, x, b.builtin, args, x.Type())}}
	}
	return in.apply(s.w, x, f, args)
}

// apply calls a function value.
func (in *Interp) apply(w *World, site ssa.Instruction, f Val, args []Val) []Outcome {
	switch x := f.(type) {
	case *FuncV:
		if x.builtin != "" {
			return []Outcome{{w: w, res: in.builtin(w, site, x.builtin, args, nil)}}
		}
		fn := x.fn
		if in.onCall != nil {
			if r, ok := in.onCall(in, w, site, fn, append(append([]Val{}, args...), x.b...)); ok {
				return r
			}
		}
		if r, ok := in.prim(w, site, fn, args, x.b); ok {
			return r
		}
		if in.inlinable(fn) {
			return in.inline(w, site, fn, args, x.b)
		}
		if in.onExtern != nil {
			if r, ok := in.onExtern(in, w, site, fn, args); ok {
				return r
			}
		}
		return in.extern(w, site, fn, args)
	case NilV:
		if in.onNilDer != nil {
			in.onNilDer(w, site, f)
		}
		return []Outcome{{w: w, panic: true, res: kStr("call of nil")}}
	}
	if in.onDyn != nil {
		if r, ok := in.onDyn(in, w, site, f, args); ok {
			return r
		}
	}
	undec("call of an unknown function value %s at %s", f.k(), in.sitePos(site))
	return nil
}

func (in *Interp) sitePos(site ssa.Instruction) string {
	if site == nil {
		return "?"
	}
	return in.p.instrPos(site)
}

func (in *Interp) inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	pk := fnPkg(fn)
	return isRepoPath(pk) || strings.HasPrefix(pk, "github.com/shellyln/takenoco/")
}

func fnPkg(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

// isParserType tells whether t is the parser function type of takenoco.
func isParserType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "ParserFn" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == tkBase
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// inline evaluates the body of a function; parser constructors are shared.
func (in *Interp) inline(w *World, site ssa.Instruction, fn *ssa.Function, args, binds []Val) []Outcome {
	res := fn.Signature.Results()
	if res.Len() == 1 && isParserType(res.At(0).Type()) && fn.Parent() == nil {
		key := fullName(fn)
		for _, a := range args {
			k := a.k()
			if s, ok := a.(*SliceV); ok {
				k = in.content(w, s).k()
			}
			key += "|" + k
		}
		if e, ok := in.gramMemo[key]; ok {
			if e.v == nil {
				undec("the parser constructor %s calls itself without delay", shortFn(fn))
			}
			return []Outcome{{w: w, res: e.v}}
		}
		e := &gramMemoEnt{}
		in.gramMemo[key] = e
		outs := in.call(fn, args, binds, w, site)
		if len(outs) != 1 || outs[0].panic {
			undec("the parser constructor %s has %d outcomes", shortFn(fn), len(outs))
		}
		if g := in.asGram(outs[0].w, outs[0].res); g != nil {
			outs[0].res = &GramV{g}
			if g.name == "" {
				g.name = shortFn(fn)
			}
		}
		e.v = outs[0].res
		return outs
	}
	return in.call(fn, args, binds, w, site)
}

func (in *Interp) builtin(w *World, site ssa.Instruction, name string, args []Val, rt types.Type) Val {
	switch name {
	case "len":
		return in.length(w, args[0])
	case "cap":
		switch x := args[0].(type) {
		case *SliceV:
			return x.cp
		case NilV:
			return kInt(0)
		}
		return mk("cap", types.Typ[types.Int], args[0])
	case "append":
		return in.appendTo(w, site, args[0], args[1])
	case "copy":
		return in.copySlice(w, site, args[0], args[1])
	case "delete":
		in.mapUpdate(w, site, args[0], args[1], nil2(), true)
		return &TupleV{}
	case "print", "println":
		return &TupleV{}
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		if len(args) == 2 {
			a, oka := asInt(args[0])
			b, okb := asInt(args[1])
			if oka && okb {
				if (a < b) == (name == "min") {
					return kInt(a)
				}
				return kInt(b)
			}
		}
		return mk(in.freshName(name), rt, args...)
	}
	undec("builtin %s is not supported at %s", name, in.sitePos(site))
	return nil
}

func nil2() Val { return NilV{} }

// appendTo builds the result of append(a, b...). The result may or may not
// share the array of a: a write into spare capacity is reported to onAppend.
func (in *Interp) appendTo(w *World, site ssa.Instruction, a, b Val) Val {
	var elty types.Type
	if site != nil {
		if v, ok := site.(ssa.Value); ok {
			elty = elemType(v.Type())
		}
	}
	if t, ok := b.(*Term); ok && t.typ != nil {
		if bt, ok := under(t.typ).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return mk("appendstr", types.NewSlice(types.Typ[types.Byte]), a, b)
		}
	}
	if c, ok := b.(*Konst); ok {
		return mk("appendstr", types.NewSlice(types.Typ[types.Byte]), a, c)
	}
	sb := in.asSlice(b)
	nb := w.resolve(sb.ln)
	if c, ok := asInt(nb); ok && c == 0 {
		return a
	}
	sa := in.asSlice(a)
	na := w.resolve(sa.ln)
	if in.onAppend != nil {
		in.onAppend(w, site, sa, sb)
	}
	if elty == nil {
		elty = in.obj(w, sb.arr).typ
	}
	// elements of b
	bs, known := in.elems(w, sb)
	// in place when the capacity is known to suffice
	if sa.arr != 0 && known {
		need := linAdd(na, nb, 1)
		if c, ok := asInt(linAdd(sa.cp, need, -1)); ok && c >= 0 {
			for i, e := range bs {
				in.store(w, &PtrV{obj: sa.arr, path: []PathEl{{idx: linAdd(linAdd(sa.off, na, 1), kInt(int64(i)), 1)}}}, e)
			}
			return &SliceV{arr: sa.arr, off: sa.off, ln: need, cp: sa.cp}
		}
	}
	var c *ArrC
	if n, ok := asInt(na); ok && n < 400 && known {
		as, _ := in.elems(w, sa)
		if sa.arr == 0 {
			as = nil
		}
		c = &ArrC{base: zeroElems{elty}, elty: elty}
		for i, v := range append(append([]Val{}, as...), bs...) {
			c.wr = append(c.wr, arrW{kInt(int64(i)), v})
		}
	} else {
		var segs []Seg
		if n, ok := asInt(na); !(ok && n == 0) {
			o := in.obj(w, sa.arr)
			if ce, ok := o.arr.base.(catElems); ok && len(o.arr.wr) == 0 && sa.off.k() == "0" && w.resolve(ce.total()).k() == na.k() {
				segs = append(segs, ce.segs...)
			} else {
				segs = append(segs, Seg{o.arr, sa.off, na})
			}
		}
		ob := in.obj(w, sb.arr)
		segs = append(segs, Seg{ob.arr, sb.off, nb})
		c = &ArrC{base: catElems{segs: segs, elty: elty}, elty: elty}
	}
	tag := "append"
	if site != nil {
		tag = "append at " + in.p.instrPos(site)
	}
	id := in.alloc(w, &Obj{kind: 'a', typ: elty, arr: c, tag: tag})
	n := linAdd(na, nb, 1)
	return &SliceV{arr: id, off: kInt(0), ln: n, cp: mk("cap", types.Typ[types.Int], kStr("S"+strconv.Itoa(id)))}
}

func (z catElems) total() Val {
	var r Val = kInt(0)
	for _, s := range z.segs {
		r = linAdd(r, s.ln, 1)
	}
	return r
}

func (in *Interp) copySlice(w *World, site ssa.Instruction, dst, src Val) Val {
	sd := in.asSlice(dst)
	if _, ok := src.(*SliceV); !ok {
		if t, isT := src.(*Term); !isT || t.typ == nil {
			undec("copy from %s at %s", src.k(), in.sitePos(site))
		} else if _, isS := under(t.typ).(*types.Slice); !isS {
			undec("copy from a string at %s", in.sitePos(site))
		}
	}
	ss := in.asSlice(src)
	nd, ns := w.resolve(sd.ln), w.resolve(ss.ln)
	n := nd
	if w.ge0(linAdd(nd, ns, -1)) {
		n = ns
	} else if !w.ge0(linAdd(ns, nd, -1)) {
		undec("copy with unknown lengths at %s", in.sitePos(site))
	}
	if sd.arr == 0 {
		return n
	}
	od := *in.obj(w, sd.arr)
	od.key = ""
	if in.onStore != nil && site != nil {
		in.onStore(w, site, &PtrV{obj: sd.arr, path: []PathEl{{idx: sd.off}}}, mk("copied", nil, in.content(w, src)))
	}
	if ss.arr == 0 {
		return n
	}
	os := in.obj(w, ss.arr)
	if es, ok := in.elems(w, &SliceV{ss.arr, ss.off, n, n}); ok {
		for i, e := range es {
			in.store(w, &PtrV{obj: sd.arr, path: []PathEl{{idx: linAdd(sd.off, kInt(int64(i)), 1)}}}, e)
		}
		return n
	}
	var segs []Seg
	if sd.off.k() != "0" {
		segs = append(segs, Seg{od.arr, kInt(0), sd.off})
	}
	segs = append(segs, Seg{os.arr, ss.off, n})
	if rest := linAdd(nd, n, -1); rest.k() != "0" {
		segs = append(segs, Seg{od.arr, linAdd(sd.off, n, 1), rest})
	}
	od.arr = &ArrC{base: catElems{segs: segs, elty: od.typ}, elty: od.typ}
	in.set(w, sd.arr, &od, []PathEl{{idx: kInt(0)}})
	return n
}
