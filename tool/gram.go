package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Gram is a parser built from the combinators of takenoco.
type Gram struct {
	id       int
	op       string
	kids     []*Gram
	strs     []string
	ranges   [][2]rune
	min, max int // max < 0: unbounded
	asts     []Val
	trs      []Val
	fn       Val // lazy constructor or predicate
	heap     *Heap
	msg      Val
	res      *Gram // resolution of a lazy parser
	name     string
	site     string
}

func (g *Gram) String() string {
	switch g.op {
	case "Seq", "SeqI":
		return fmt.Sprintf("%s(%q)", g.op, g.strs[0])
	}
	return fmt.Sprintf("%s#%d", g.op, g.id)
}

func (in *Interp) newGram(op string, site ssa.Instruction) *Gram {
	g := &Gram{id: len(in.grams), op: op}
	if site != nil {
		g.site = in.p.instrPos(site)
	}
	in.grams = append(in.grams, g)
	return g
}

// asGram turns a parser value into a grammar node.
func (in *Interp) asGram(w *World, v Val) *Gram {
	switch x := v.(type) {
	case *GramV:
		return x.g
	case *FuncV:
		key := "lazy:" + x.k()
		if e, ok := in.gramMemo[key]; ok {
			return e.v.(*GramV).g
		}
		g := in.newGram("lazy", nil)
		g.fn = x
		w.heap = w.heap.fork()
		g.heap = w.heap.base
		if x.fn != nil {
			g.site = in.p.pos(x.fn)
			g.name = shortFn(x.fn)
		}
		in.gramMemo[key] = &gramMemoEnt{&GramV{g}}
		return g
	}
	return nil
}

func (in *Interp) mustGram(w *World, v Val, site ssa.Instruction) *Gram {
	g := in.asGram(w, v)
	if g == nil {
		undec("a parser is not known at %s: %s", in.sitePos(site), v.k())
	}
	return g
}

func (in *Interp) gramList(w *World, v Val, site ssa.Instruction) []*Gram {
	es, ok := in.elems(w, v)
	if !ok {
		undec("the list of parsers at %s is not known", in.sitePos(site))
	}
	var r []*Gram
	for _, e := range es {
		r = append(r, in.mustGram(w, e, site))
	}
	return r
}

func (in *Interp) mustStr(v Val, site ssa.Instruction) string {
	s, ok := asStr(v)
	if !ok {
		undec("a string that must be constant is %s at %s", v.k(), in.sitePos(site))
	}
	return s
}

func (in *Interp) strList(w *World, v Val, site ssa.Instruction) []string {
	es, ok := in.elems(w, v)
	if !ok {
		undec("a list of strings that must be constant is not at %s", in.sitePos(site))
	}
	var r []string
	for _, e := range es {
		r = append(r, in.mustStr(e, site))
	}
	return r
}

func (in *Interp) rangeList(w *World, v Val, site ssa.Instruction) [][2]rune {
	es, ok := in.elems(w, v)
	if !ok {
		undec("a list of ranges that must be constant is not at %s", in.sitePos(site))
	}
	var r [][2]rune
	for _, e := range es {
		s, ok := e.(*StructV)
		if !ok {
			undec("a character range is not constant at %s", in.sitePos(site))
		}
		a, ok1 := asInt(s.f[0])
		b, ok2 := asInt(s.f[1])
		if !ok1 || !ok2 {
			undec("a character range is not constant at %s", in.sitePos(site))
		}
		r = append(r, [2]rune{rune(a), rune(b)})
	}
	return r
}

var charSets = map[string][][2]rune{
	"Whitespace":            {{9, 13}, {32, 32}, {0x85, 0x85}, {0xa0, 0xa0}},
	"WhitespaceNoLineBreak": {{9, 9}, {11, 12}, {32, 32}, {0xa0, 0xa0}},
	"LineBreak":             {{10, 10}, {13, 13}, {0x85, 0x85}},
	"Alpha":                 {{'A', 'Z'}, {'a', 'z'}},
	"Number":                {{'0', '9'}},
	"Alnum":                 {{'0', '9'}, {'A', 'Z'}, {'a', 'z'}},
	"BinNumber":             {{'0', '1'}},
	"OctNumber":             {{'0', '7'}},
	"HexNumber":             {{'0', '9'}, {'A', 'F'}, {'a', 'f'}},
}

// ProdRule is a production rule transformer.
type ProdRule struct {
	precs []Prec
	check *Gram
	site  string
}

type Prec struct {
	rules []*Gram
	rtol  bool
}

// prim intercepts the primitives of takenoco.
func (in *Interp) prim(w *World, site ssa.Instruction, fn *ssa.Function, args, binds []Val) ([]Outcome, bool) {
	if fn.Parent() != nil {
		return nil, false
	}
	pk := fnPkg(fn)
	name := fn.Name()
	if fn.Signature.Recv() != nil {
		return nil, false
	}
	ret := func(g *Gram) ([]Outcome, bool) { return one(w, &GramV{g}), true }
	ng := func(op string) *Gram { return in.newGram(op, site) }
	switch pk {
	case tkBase:
		switch name {
		case "FlatGroup", "Group", "First", "LookAhead", "LookAheadN":
			g := ng(name)
			g.kids = in.gramList(w, args[0], site)
			if name == "FlatGroup" || name == "Group" {
				g.op = "Group"
				if name == "Group" {
					t := ng("Trans")
					t.kids = []*Gram{g}
					t.trs = []Val{&FuncV{fn: in.p.pkgFn(tkBase, "GroupingTransform")}}
					return ret(t)
				}
			}
			return ret(g)
		case "Repeat", "Once", "ZeroOrOnce", "ZeroOrMoreTimes", "OneOrMoreTimes":
			g := ng("Repeat")
			kidsArg := args[0]
			switch name {
			case "Repeat":
				t, ok := args[0].(*StructV)
				if !ok {
					undec("the number of repetitions is not constant at %s", in.sitePos(site))
				}
				a, ok1 := asInt(t.f[0])
				b, ok2 := asInt(t.f[1])
				if !ok1 || !ok2 {
					undec("the number of repetitions is not constant at %s", in.sitePos(site))
				}
				g.min, g.max = int(a), int(b)
				kidsArg = args[1]
			case "Once":
				g.min, g.max = 1, 1
			case "ZeroOrOnce":
				g.min, g.max = 0, 1
			case "ZeroOrMoreTimes":
				g.min, g.max = 0, -1
			case "OneOrMoreTimes":
				g.min, g.max = 1, -1
			}
			g.kids = in.gramList(w, kidsArg, site)
			return ret(g)
		case "Trans":
			g := ng("Trans")
			g.kids = []*Gram{in.mustGram(w, args[0], site)}
			es, ok := in.elems(w, args[1])
			if !ok {
				undec("the list of transformers at %s is not known", in.sitePos(site))
			}
			g.trs = es
			w.heap = w.heap.fork()
			g.heap = w.heap.base
			return ret(g)
		case "Error":
			g := ng("Error")
			g.msg = args[0]
			return ret(g)
		case "Unmatched":
			return ret(ng("Unmatched"))
		case "Start":
			return ret(ng("Start"))
		case "Zero":
			g := ng("Zero")
			es, ok := in.elems(w, args[0])
			if !ok {
				undec("the list of tree nodes at %s is not known", in.sitePos(site))
			}
			g.asts = es
			return ret(g)
		case "If":
			b, ok := asBool(w.resolve(args[0]))
			if !ok {
				undec("the condition of If is not constant at %s", in.sitePos(site))
			}
			if b {
				return one(w, args[1]), true
			}
			return one(w, args[2]), true
		case "Indirect":
			g := ng("indirect")
			g.fn = args[0]
			w.heap = w.heap.fork()
			g.heap = w.heap.base
			return ret(g)
		case "ProductionRule":
			es, ok := in.elems(w, args[0])
			if !ok {
				undec("the precedences at %s are not known", in.sitePos(site))
			}
			pr := &ProdRule{site: in.sitePos(site)}
			for _, e := range es {
				s, ok := e.(*StructV)
				if !ok {
					undec("a precedence at %s is not known", in.sitePos(site))
				}
				rt, ok := asBool(s.f[1])
				if !ok {
					undec("the direction of a precedence at %s is not known", in.sitePos(site))
				}
				pr.precs = append(pr.precs, Prec{in.gramList(w, s.f[0], site), rt})
			}
			pr.check = in.mustGram(w, args[1], site)
			t := mk(in.freshName("production"), fn.Signature.Results().At(0).Type())
			t.x = pr
			return one(w, t), true
		}
	case tkStr:
		switch name {
		case "Seq", "SeqI":
			g := ng(name)
			g.strs = []string{in.mustStr(args[0], site)}
			return ret(g)
		case "Any", "End", "WordBoundary":
			return ret(ng(name))
		case "CharRange", "CharRangeN":
			g := ng(name)
			g.ranges = in.rangeList(w, args[0], site)
			return ret(g)
		case "CharClass", "CharClassN":
			g := ng(name)
			g.strs = in.strList(w, args[0], site)
			return ret(g)
		case "CharClassFn":
			undec("CharClassFn at %s is not supported", in.sitePos(site))
		}
		if cs, ok := charSets[name]; ok && len(args) == 0 {
			g := ng("CharRange")
			g.ranges = cs
			return ret(g)
		}
	case tkObj:
		switch name {
		case "Any", "End":
			return ret(ng("Obj" + name))
		case "ObjClassFn":
			g := ng("ObjClassFn")
			g.fn = args[0]
			w.heap = w.heap.fork()
			g.heap = w.heap.base
			return ret(g)
		}
	}
	if strings.HasPrefix(pk, "github.com/shellyln/takenoco/") && pk != tkExtra {
		res := fn.Signature.Results()
		if res.Len() == 1 && isParserType(res.At(0).Type()) {
			undec("the parser combinator %s.%s is not supported (at %s)", pk, name, in.sitePos(site))
		}
	}
	return nil, false
}

// resolve finds the parser behind a delayed one.
func (in *Interp) resolveGram(g *Gram) *Gram {
	for i := 0; i < 20; i++ {
		if g.op != "lazy" && g.op != "indirect" {
			return g
		}
		if g.res == nil {
			g.res = in.resolveOne(g)
		}
		g = g.res
	}
	undec("the delayed parser at %s does not lead to a parser", g.site)
	return nil
}

func (in *Interp) resolveOne(g *Gram) *Gram {
	w := &World{heap: g.heap.fork(), facts: newFacts(), ghost: map[string]Val{}}
	if g.op == "indirect" {
		outs := in.apply(w, nil, g.fn, nil)
		if len(outs) != 1 || outs[0].panic {
			undec("the delayed parser at %s has %d outcomes", g.site, len(outs))
		}
		return in.mustGram(outs[0].w, outs[0].res, nil)
	}
	f := g.fn.(*FuncV)
	ctxT := f.fn.Signature.Params().At(0).Type()
	ctx := mk("ctx", ctxT)
	save := in.onDyn
	var hit []*Gram
	in.onDyn = func(in *Interp, w *World, site ssa.Instruction, fv Val, args []Val) ([]Outcome, bool) {
		gv, ok := fv.(*GramV)
		if !ok || len(args) != 1 || args[0].k() != ctx.k() {
			return nil, false
		}
		hit = append(hit, gv.g)
		return one(w, &TupleV{[]Val{mk("out", ctxT, gv, ctx), mk("outerr", errorType(), gv, ctx)}}), true
	}
	outs := in.call(f.fn, []Val{ctx}, f.b, w, nil)
	in.onDyn = save
	if len(outs) != 1 || outs[0].panic || len(hit) != 1 {
		undec("the hand-written parser %s is not a delayed parser (%d outcomes)", shortFn(f.fn), len(outs))
	}
	tv := outs[0].res.(*TupleV)
	if tv.v[0].k() != mk("out", ctxT, &GramV{hit[0]}, ctx).k() || tv.v[1].k() != mk("outerr", errorType(), &GramV{hit[0]}, ctx).k() {
		undec("the hand-written parser %s changes the result of another parser", shortFn(f.fn))
	}
	return hit[0]
}

// initAll evaluates the package initialisers of the repository.
func (in *Interp) initAll(pkgs ...string) {
	w := in.world()
	for _, sp := range in.p.Repo {
		if len(pkgs) > 0 {
			ok := false
			for _, q := range pkgs {
				if sp.Pkg.Path() == q {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		f := sp.Func("init")
		if f == nil {
			continue
		}
		save := in.onCall
		in.onCall = func(in *Interp, w *World, site ssa.Instruction, fn *ssa.Function, args []Val) ([]Outcome, bool) {
			if fn.Name() == "init" && fn.Parent() == nil && fn != f && fn.Signature.Recv() == nil && fn.Synthetic != "" {
				return one(w, &TupleV{}), true // initialisers of imported packages
			}
			return nil, false
		}
		outs := in.call(f, nil, nil, w, nil)
		in.onCall = save
		if len(outs) != 1 || outs[0].panic {
			undec("the initialisation of %s has %d outcomes", sp.Pkg.Path(), len(outs))
		}
		w = outs[0].w
	}
	// the result is the base of every later evaluation
	f := map[int]*Obj{}
	for k, v := range w.heap.changed(nil) {
		f[k] = v
	}
	for k, v := range in.base.m {
		if _, ok := f[k]; !ok {
			f[k] = v
		}
	}
	in.base = &Heap{m: f}
}

// rootGram finds the parser that Parse runs.
func (in *Interp) rootGram() (*Gram, *ssa.Function) {
	pf := in.p.parseFn()
	var hits []*Gram
	save := in.onDyn
	defer func() { in.onDyn = save }()
	type stop struct{}
	in.onDyn = func(in *Interp, w *World, site ssa.Instruction, fv Val, args []Val) ([]Outcome, bool) {
		if gv, ok := fv.(*GramV); ok {
			hits = append(hits, gv.g)
			panic(stop{})
		}
		return nil, false
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					panic(r)
				}
			}
		}()
		w := in.world()
		in.call(pf, []Val{mk("source", strT)}, nil, w, nil)
	}()
	in.stack = nil
	if len(hits) != 1 {
		undec("Parse does not run a parser built from the combinators")
	}
	return hits[0], pf
}

var _ = types.Typ
