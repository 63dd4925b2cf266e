package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The shape analysis computes, for every tree transformation of the grammar,
// the forms of the lists of tree nodes it can be given and what it makes of
// each of them.

// Piece is a part of what a grammar node can consume or produce.
type Piece struct {
	kind byte // k: text consumed, s: consumed by a transformation, e: tree node, r: repetition
	g    *Gram
	el   *El
	sub  *Sub
	alts []Alt
	min  int
	max  int
}

// Alt is one alternative form.
type Alt struct{ ps []Piece }

// El describes a tree node.
type El struct {
	class, typ, op Val
	val            Val        // when known up to letter case
	dyn            types.Type // dynamic type of the value otherwise; nil: unknown
	sub            *Sub       // the transformation that made it
	pos            int
	g              *Gram // or the terminal
	key            string
}

// Sub is one form of the result of a transformation, with the ways to get it.
type Sub struct {
	g    *Gram
	srcs []*Src
	els  []*El
	key  string
}

// Src is one evaluation of a transformation.
type Src struct {
	alt   Alt
	in    *seqIn
	elems []Val // resulting tree nodes
	els   []*El
	w     *World
	same  bool // the input is passed on unchanged
	err   Val
	panic string
}

type seqIn struct {
	prefix  []*El
	period  []*El   // repeated at the end
	bodies  [][]*El // every form an iteration can have
	min     int
	soup    []*El // elements in any order and number
	n       Val
	initKey string
}

// TransInfo is what is known about one transformation.
type TransInfo struct {
	g    *Gram
	srcs []*Src
	subs map[string]*Sub
	ord  []string
	idx  []string // index obligations that fail
}

// Shape holds the results.
type Shape struct {
	in     *Interp
	single map[string]*Gram
	astT   *types.Named
	astSt  *types.Struct
	fClass int
	fType  int
	fValue int
	fOp    int
	tStr   Val
	memo   map[int][]Alt
	busy   map[int]bool
	prev   map[int][]Alt
	trans  map[int]*TransInfo
	order  []int
	grew   bool
	evals  int
	idxOb  int
	cur    *TransInfo
	prods  map[*ProdRule]*ProdInfo
}

func newShape(in *Interp) *Shape {
	sh := &Shape{in: in, prev: map[int][]Alt{}}
	sh.astT = in.p.namedType(tkBase, "Ast")
	sh.astSt = under(sh.astT).(*types.Struct)
	sh.fClass, sh.fType, sh.fValue, sh.fOp = -1, -1, -1, -1
	for i := 0; i < sh.astSt.NumFields(); i++ {
		switch sh.astSt.Field(i).Name() {
		case "ClassName":
			sh.fClass = i
		case "Type":
			sh.fType = i
		case "Value":
			sh.fValue = i
		case "OpCode":
			sh.fOp = i
		}
	}
	sh.tStr = kInt(in.p.constInt(tkBase, "AstType_String"))
	return sh
}

func (p *Program) constInt(pkg, name string) int64 {
	sp := p.Pkgs[pkg]
	if sp == nil {
		undec("package %s is not loaded", pkg)
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		undec("%s.%s is not a constant", pkg, name)
	}
	i, _ := constant.Int64Val(c.Val())
	return i
}

func (p *Program) constStr(pkg, name, dflt string) string {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return dflt
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok || c.Val().Kind() != constant.String {
		return dflt
	}
	return constant.StringVal(c.Val())
}

// analyse computes the shapes of everything reachable from g.
func (sh *Shape) analyse(g *Gram) []Alt {
	for pass := 0; ; pass++ {
		if pass > 8 {
			undec("the shapes of the syntax tree do not converge")
		}
		sh.memo, sh.busy, sh.trans, sh.order = map[int][]Alt{}, map[int]bool{}, map[int]*TransInfo{}, nil
		sh.prods = map[*ProdRule]*ProdInfo{}
		sh.evals, sh.idxOb = 0, 0
		sh.grew = false
		as := sh.alts(g)
		for id, a := range sh.memo {
			if _, ok := sh.trans[id]; !ok {
				continue
			}
			if altsKey(a) != altsKey(sh.prev[id]) {
				sh.grew = true
			}
			sh.prev[id] = a
		}
		if !sh.grew {
			return as
		}
	}
}

func altsKey(as []Alt) string {
	var sb strings.Builder
	for _, a := range as {
		sb.WriteString(a.key())
		sb.WriteByte('\n')
	}
	return sb.String()
}

func (a Alt) key() string {
	var sb strings.Builder
	for _, p := range a.ps {
		switch p.kind {
		case 'e':
			sb.WriteString("e" + p.el.key + ";")
		case 's':
			sb.WriteString("s" + p.sub.key + ";")
		case 'k':
			fmt.Fprintf(&sb, "k%d;", p.g.id)
		case 'r':
			fmt.Fprintf(&sb, "r%d,%d{", p.min, p.max)
			for _, b := range p.alts {
				sb.WriteString(b.key() + "|")
			}
			sb.WriteString("};")
		}
	}
	return sb.String()
}

// hasEls tells whether a form contains tree nodes.
func (a Alt) hasEls() bool {
	for _, p := range a.ps {
		if p.kind == 'e' {
			return true
		}
		if p.kind == 'r' {
			for _, b := range p.alts {
				if b.hasEls() {
					return true
				}
			}
		}
	}
	return false
}

var shapeTrace = false

const altCap = 1500

func dedup(as []Alt) []Alt {
	seen := map[string]bool{}
	var r []Alt
	for _, a := range as {
		k := a.key()
		if !seen[k] {
			seen[k] = true
			r = append(r, a)
		}
	}
	return r
}

func (sh *Shape) terminal(g *Gram) []Alt {
	name := g.op
	class := kStr(sh.in.p.constStr(tkStr+"/classes", name, ":string:"+name))
	el := &El{class: class, typ: sh.tStr, op: kInt(0), g: g}
	switch g.op {
	case "SeqI":
		el.val = mk("casevar", strT, kStr(strings.ToLower(g.strs[0])), kInt(0))
		if strings.ToLower(g.strs[0]) == strings.ToUpper(g.strs[0]) {
			el.val = kStr(g.strs[0])
		}
	case "Seq":
		el.val = kStr(g.strs[0])
	case "CharClass":
		if len(g.strs) == 1 {
			el.val = kStr(g.strs[0])
		} else {
			el.dyn = strT
		}
	default:
		el.dyn = strT
	}
	el.finish()
	return []Alt{{ps: []Piece{{kind: 'k', g: g}, {kind: 'e', el: el}}}}
}

func (e *El) finish() {
	v := "?"
	switch {
	case e.val != nil:
		v = e.val.k()
	case e.dyn != nil:
		v = "dyn:" + typeKey(e.dyn)
	}
	// the terminal does not matter once its class and type are known
	e.key = fmt.Sprintf("%s|%s|%s|%s", e.class.k(), e.typ.k(), e.op.k(), v)
	if e.sub != nil {
		e.key += fmt.Sprintf("|t%d", e.sub.g.id)
	}
}

// alts computes the forms of a node.
func (sh *Shape) alts(g *Gram) []Alt {
	g = sh.in.resolveGram(g)
	if a, ok := sh.memo[g.id]; ok {
		return a
	}
	if sh.busy[g.id] {
		return sh.prev[g.id]
	}
	sh.busy[g.id] = true
	r := sh.alts1(g)
	delete(sh.busy, g.id)
	if len(r) > altCap {
		undec("the grammar rule at %s has %d different forms", g.site, len(r))
	}
	sh.memo[g.id] = r
	return r
}

func (sh *Shape) alts1(g *Gram) []Alt {
	switch g.op {
	case "Seq", "SeqI", "CharClass", "CharClassN", "CharRange", "CharRangeN", "Any":
		return sh.terminal(g)
	case "End", "Start", "WordBoundary":
		return []Alt{{}}
	case "Error", "Unmatched":
		return nil
	case "LookAhead", "LookAheadN":
		for _, k := range g.kids {
			sh.alts(k)
		}
		return []Alt{{}}
	case "Zero":
		a := Alt{}
		for _, v := range g.asts {
			el := sh.elOf(nil, v, nil, 0)
			el.g = g
			a.ps = append(a.ps, Piece{kind: 'e', el: el})
		}
		return []Alt{a}
	case "First":
		var r []Alt
		for _, k := range g.kids {
			r = append(r, sh.alts(k)...)
		}
		return dedup(r)
	case "Group":
		return sh.product(g, g.kids)
	case "Repeat":
		body := sh.product(g, g.kids)
		if len(body) == 0 {
			if g.min == 0 {
				return []Alt{{}}
			}
			return nil
		}
		has := false
		for _, b := range body {
			has = has || b.hasEls()
		}
		rep := Piece{kind: 'r', g: g, alts: body, min: g.min, max: g.max}
		if !has {
			return []Alt{{ps: []Piece{rep}}}
		}
		if g.min == 0 && g.max == 1 {
			return dedup(append([]Alt{{}}, body...))
		}
		if g.max >= 0 && len(body) == 1 && g.max <= 16 {
			var r []Alt
			for n := g.min; n <= g.max; n++ {
				a := Alt{}
				for i := 0; i < n; i++ {
					a.ps = append(a.ps, body[0].ps...)
				}
				r = append(r, a)
			}
			return r
		}
		if g.min == 1 && g.max == 1 {
			return body
		}
		return []Alt{{ps: []Piece{rep}}}
	case "Trans":
		return sh.transform(g)
	}
	undec("the parser %s at %s is not supported by the shape analysis", g.op, g.site)
	return nil
}

func (sh *Shape) product(g *Gram, kids []*Gram) []Alt {
	r := []Alt{{}}
	for _, k := range kids {
		as := sh.alts(k)
		var n []Alt
		for _, a := range r {
			for _, b := range as {
				ps := make([]Piece, 0, len(a.ps)+len(b.ps))
				ps = append(append(ps, a.ps...), b.ps...)
				n = append(n, Alt{ps})
			}
		}
		r = n
		if len(r) > altCap {
			undec("the grammar rule at %s has more than %d different forms", g.site, altCap)
		}
	}
	return dedup(r)
}

// elOf describes a resulting tree node.
func (sh *Shape) elOf(w *World, v Val, sub *Sub, pos int) *El {
	get := func(i int) Val {
		x := field(v, i, sh.astT)
		if w != nil {
			x = w.resolve(x)
		}
		return x
	}
	el := &El{class: get(sh.fClass), typ: get(sh.fType), op: get(sh.fOp), sub: sub, pos: pos}
	for _, p := range []*Val{&el.class, &el.typ, &el.op} {
		if _, ok := (*p).(*Konst); !ok {
			*p = mk("?", (typeOf(*p)))
		}
	}
	val := get(sh.fValue)
	switch x := val.(type) {
	case NilV:
		el.val = x
	case *IfaceV:
		el.dyn = x.dyn
		iv := x.v
		if w != nil {
			iv = w.resolve(iv)
		}
		if keywordValue(iv) {
			el.val = iv
		}
	default:
		if k, ok := val.(*Konst); ok {
			el.val = k
		}
	}
	el.finish()
	return el
}

func typeOf(v Val) types.Type {
	if t, ok := v.(*Term); ok {
		return t.typ
	}
	return nil
}

// keywordValue tells whether a value is known up to the letter case of keywords.
func keywordValue(v Val) bool {
	switch x := v.(type) {
	case *Konst:
		return true
	case *Term:
		if x.op == "casevar" {
			return true
		}
		if x.op == "concat" {
			for _, a := range x.args {
				if !keywordValue(a) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// flatten lists the tree nodes of a form.
func (sh *Shape) flatten(a Alt) (prefix []*El, rep *Piece, repEls [][]*El, mixed bool) {
	for i := range a.ps {
		p := a.ps[i]
		switch p.kind {
		case 'e':
			if rep != nil {
				mixed = true
			}
			prefix = append(prefix, p.el)
		case 'r':
			var bodies [][]*El
			for _, b := range p.alts {
				if !b.hasEls() {
					continue
				}
				pre, r2, _, mx := sh.flatten(b)
				if r2 != nil || mx {
					mixed = true
				}
				bodies = append(bodies, pre)
			}
			if len(bodies) == 0 {
				continue
			}
			if rep != nil {
				mixed = true
			}
			q := p
			rep = &q
			repEls = append(repEls, bodies...)
		}
	}
	for _, b := range repEls {
		if len(b) != len(repEls[0]) {
			mixed = true
		}
	}
	return
}

// allEls collects every tree node description in a form.
func (a Alt) allEls() []*El {
	var r []*El
	seen := map[string]bool{}
	var walk func(a Alt)
	walk = func(a Alt) {
		for _, p := range a.ps {
			if p.kind == 'e' && !seen[p.el.key] {
				seen[p.el.key] = true
				r = append(r, p.el)
			}
			if p.kind == 'r' {
				for _, b := range p.alts {
					walk(b)
				}
			}
		}
	}
	walk(a)
	return r
}

func elsKey(es []*El) string {
	s := ""
	for _, e := range es {
		s += e.key + ";"
	}
	return s
}

// inputs enumerates the lists of tree nodes to evaluate for a form. A
// repetition is evaluated with every iteration of the same form; that covers
// mixed ones because a loop that carries information between iterations is
// reported as undecided.
func (sh *Shape) inputs(a Alt) []*seqIn {
	pre, rep, bodies, mixed := sh.flatten(a)
	if mixed {
		return []*seqIn{{soup: a.allEls()}}
	}
	if rep == nil {
		return []*seqIn{{prefix: pre}}
	}
	if rep.max >= 0 {
		return []*seqIn{{soup: a.allEls()}}
	}
	per := len(bodies[0])
	var r []*seqIn
	seen := map[string]bool{}
	add := func(s *seqIn) {
		k := elsKey(s.prefix) + "*" + elsKey(s.period) + fmt.Sprint(s.min)
		if !seen[k] {
			seen[k] = true
			r = append(r, s)
		}
	}
	// the elements before the repetition may be its first iteration
	merge := func(b []*El) bool {
		if len(pre) < per {
			return false
		}
		t := pre[len(pre)-per:]
		for i := range t {
			if t[i].key != b[i].key {
				return false
			}
		}
		return true
	}
	merged := false
	for _, b := range bodies {
		if merge(b) {
			merged = true
		}
	}
	if merged {
		// every alternative of the first iteration is the last of some form:
		// forms [p, x, x*] for each alternative x of the repetition
		for _, b := range bodies {
			add(&seqIn{prefix: pre[:len(pre)-per], period: b, min: rep.min + 1, bodies: bodies})
		}
		return r
	}
	for _, b := range bodies {
		add(&seqIn{prefix: pre, period: b, min: rep.min, bodies: bodies})
	}
	return r
}

// value gives the abstract tree node at a position.
func (sh *Shape) value(e *El, tag string, args ...Val) Val {
	s := &StructV{typ: sh.astT}
	for i := 0; i < sh.astSt.NumFields(); i++ {
		ft := sh.astSt.Field(i).Type()
		var v Val
		switch i {
		case sh.fClass:
			v = e.class
		case sh.fType:
			v = e.typ
		case sh.fOp:
			v = e.op
		case sh.fValue:
			switch {
			case e.val != nil:
				if _, ok := e.val.(NilV); ok {
					v = e.val
				} else {
					dyn := e.dyn
					if dyn == nil {
						dyn = strT
					}
					v = &IfaceV{dyn: dyn, v: renameCase(e.val, args)}
				}
			case e.dyn != nil:
				t := mk("in"+tag+":"+typeKey(e.dyn), e.dyn, args...)
				t.x = e
				v = &IfaceV{dyn: e.dyn, v: t}
			default:
				t := mk("in"+tag+":any", ft, args...)
				t.x = e
				v = t
			}
		default:
			v = mk("ast."+sh.astSt.Field(i).Name()+tag, ft, args...)
		}
		if t, ok := v.(*Term); ok && t.op == "?" {
			v = mk("ast."+sh.astSt.Field(i).Name()+tag, ft, args...)
		}
		s.f = append(s.f, v)
	}
	return s
}

func renameCase(v Val, args []Val) Val {
	if t, ok := v.(*Term); ok {
		if t.op == "casevar" {
			return mk("casevar", strT, append([]Val{t.args[0], t.args[1]}, args...)...)
		}
		if t.op == "concat" {
			var as []Val
			for _, a := range t.args {
				as = append(as, renameCase(a, args))
			}
			return mk("concat", strT, as...)
		}
	}
	return v
}

// repElems are the tree nodes of a repetition.
type repElems struct {
	sh   *Shape
	s    *seqIn
	base int
}

func (z repElems) elem(in *Interp, w *World, idx Val) Val {
	p := int64(len(z.s.period))
	d := toLin(linAdd(idx, kInt(int64(z.base)), -1))
	// every coefficient must be a multiple of the period
	for _, c := range d.m {
		if c%p != 0 {
			return mk("unaligned", z.sh.astT, idx)
		}
	}
	r := ((d.c % p) + p) % p
	q := &Lin{c: (d.c - r) / p, m: map[string]int64{}, at: map[string]Val{}}
	for k, c := range d.m {
		q.m[k] = c / p
		q.at[k] = d.at[k]
	}
	el := z.s.period[r]
	if len(q.m) == 0 {
		// a particular iteration: it may be of another form than the others
		el = z.sh.join(z.s.bodies, r)
	}
	return z.sh.value(el, "*", kInt(r), q.finish())
}

// join is a tree node of which only is known what all forms have in common.
func (sh *Shape) join(bodies [][]*El, r int64) *El {
	e := *bodies[0][r]
	for _, b := range bodies[1:] {
		x := b[r]
		if x.key == e.key {
			continue
		}
		same := func(a, b Val, t types.Type) Val {
			if a != nil && b != nil && a.k() == b.k() {
				return a
			}
			return mk("?", t)
		}
		e.class, e.typ, e.op = same(e.class, x.class, strT), same(e.typ, x.typ, intT), same(e.op, x.op, intT)
		if e.val == nil || x.val == nil || e.val.k() != x.val.k() {
			e.val = nil
			if e.dyn == nil || x.dyn == nil || !types.Identical(e.dyn, x.dyn) {
				e.dyn = nil
			}
		}
	}
	e.finish()
	return &e
}
func (z repElems) k() string { return fmt.Sprintf("rep@%d", z.base) }

type soupElems struct {
	sh *Shape
	s  *seqIn
}

func (z soupElems) elem(in *Interp, w *World, idx Val) Val {
	return mk("soup", z.sh.astT, idx)
}
func (z soupElems) k() string { return "soup" }

// build makes the list of tree nodes.
func (sh *Shape) build(w *World, s *seqIn) *SliceV {
	in := sh.in
	c := &ArrC{base: zeroElems{sh.astT}, elty: sh.astT}
	var n Val = kInt(int64(len(s.prefix)))
	if s.soup != nil {
		c.base = soupElems{sh, s}
		n = mk("len:soup", intT)
		w.facts.lin["soup"] = toLin(n)
	} else if s.period != nil {
		c.base = repElems{sh, s, len(s.prefix)}
		it := mk("count:rep", intT)
		s.n = it
		l := linAdd(it, kInt(int64(s.min)), -1)
		w.facts.lin[l.k()] = toLin(l)
		w.facts.lin["count>=0"] = toLin(it)
		n = linAdd(n, linMul(it, int64(len(s.period))), 1)
	}
	for i, e := range s.prefix {
		c.wr = append(c.wr, arrW{kInt(int64(i)), sh.value(e, "", kInt(int64(i)))})
	}
	id := in.alloc(w, &Obj{kind: 'a', typ: sh.astT, arr: c, tag: "asts"})
	s.initKey = in.obj(w, id).k()
	return &SliceV{arr: id, off: kInt(0), ln: n, cp: n}
}

// transform evaluates a transformation on every form of its input.
func (sh *Shape) transform(g *Gram) []Alt {
	ti := &TransInfo{g: g, subs: map[string]*Sub{}}
	kid := sh.alts(g.kids[0])
	sh.trans[g.id] = ti
	sh.order = append(sh.order, g.id)
	var passed []Alt
	if shapeTrace {
		fmt.Printf("T%d %s (%s): %d forms, %d evaluations so far\n", g.id, g.site, g.name, len(kid), sh.evals)
	}
	for _, a := range kid {
		{
			for _, src := range sh.evalForm(ti, a) {
				ti.srcs = append(ti.srcs, src)
				if src.err != nil || src.panic != "" {
					continue
				}
				if src.same {
					passed = append(passed, Alt{ps: append([]Piece{}, a.ps...)})
					continue
				}
				k := fmt.Sprintf("t%d:", g.id)
				var els []*El
				for _, v := range src.elems {
					el := sh.elOf(src.w, v, nil, 0)
					els = append(els, el)
					k += el.key + ";"
				}
				sub := ti.subs[k]
				if sub == nil {
					sub = &Sub{g: g, key: k}
					for i, el := range els {
						el.sub, el.pos = sub, i
						el.finish()
					}
					sub.els = els
					ti.subs[k] = sub
					ti.ord = append(ti.ord, k)
				}
				src.els = sub.els
				sub.srcs = append(sub.srcs, src)
			}
		}
	}
	var r []Alt
	for _, k := range ti.ord {
		sub := ti.subs[k]
		a := Alt{ps: []Piece{{kind: 's', g: g, sub: sub}}}
		for _, el := range sub.els {
			a.ps = append(a.ps, Piece{kind: 'e', el: el, sub: sub})
		}
		r = append(r, a)
	}
	return dedup(append(r, passed...))
}

// split gives the forms of an alternative with a single tree node that is one
// of a few characters, one for each of them.
func (sh *Shape) split(a Alt) []Alt {
	at := -1
	for i, p := range a.ps {
		switch p.kind {
		case 'r':
			if (Alt{ps: []Piece{p}}).hasEls() {
				return nil
			}
		case 'e':
			if at >= 0 {
				return nil
			}
			at = i
		}
	}
	if at < 0 {
		return nil
	}
	el := a.ps[at].el
	g := el.g
	if el.sub != nil || g == nil || g.op != "CharClass" || len(g.strs) < 2 || len(g.strs) > 24 {
		return nil
	}
	k := -1
	for i, p := range a.ps {
		if p.kind == 'k' && p.g == g {
			if k >= 0 {
				return nil
			}
			k = i
		}
	}
	if k < 0 {
		return nil
	}
	var r []Alt
	for _, c := range g.strs {
		ck := fmt.Sprintf("%d:%s", g.id, c)
		n := sh.single[ck]
		if n == nil {
			n = sh.in.newGram(g.op, nil)
			n.strs, n.site, n.name = []string{c}, g.site, g.name
			if sh.single == nil {
				sh.single = map[string]*Gram{}
			}
			sh.single[ck] = n
		}
		b := Alt{ps: append([]Piece{}, a.ps...)}
		e := *el
		e.g, e.val, e.dyn = n, kStr(c), nil
		e.finish()
		b.ps[k].g = n
		b.ps[at].el = &e
		r = append(r, b)
	}
	return r
}

// dependsOnText tells whether a result is computed from the text of a node.
func dependsOnText(r []*Src) bool {
	for _, s := range r {
		if s.same {
			continue
		}
		for _, v := range s.elems {
			if k := v.k(); strings.Contains(k, ":string(") && !strings.Contains(k, "casevar(") {
				return true
			}
		}
	}
	return false
}

// evalForm evaluates a transformation on a form. The iterations of a
// repetition can be of several forms: what a loop changes on any of them is
// treated as changing on all of them, so that nothing can be carried unnoticed
// from an iteration of one form to one of another.
func (sh *Shape) evalForm(ti *TransInfo, a Alt) []*Src {
	in := sh.in
	ins := sh.inputs(a)
	if len(ins) == 1 {
		n := len(ti.idx)
		r := sh.evalTrans(ti, a, ins[0])
		if len(r) > 1 || dependsOnText(r) {
			// the result depends on the character that was read
			if as := sh.split(a); as != nil {
				ti.idx = ti.idx[:n]
				r = nil
				for _, b := range as {
					r = append(r, sh.evalTrans(ti, b, sh.inputs(b)[0])...)
				}
			}
		}
		return r
	}
	defer func() { in.loopSeed, in.loopVary = nil, nil }()
	var seed map[string]bool
	for round := 0; ; round++ {
		if round > 6 {
			undec("the loops of the transformation at %s do not converge", ti.g.site)
		}
		var r []*Src
		all := map[string]bool{}
		differ := false
		idx := len(ti.idx)
		for i, s := range ins {
			in.loopSeed, in.loopVary = seed, map[string]bool{}
			r = append(r, sh.evalTrans(ti, a, s)...)
			n := len(all)
			for k := range in.loopVary {
				all[k] = true
			}
			if i > 0 && (len(all) != n || len(in.loopVary) != len(all)) {
				differ = true
			}
		}
		if !differ || len(all) == len(seed) {
			return r
		}
		seed = all
		ti.idx = ti.idx[:idx]
	}
}

func (sh *Shape) evalTrans(ti *TransInfo, a Alt, s *seqIn) []*Src {
	in := sh.in
	w0 := &World{heap: in.base.fork(), facts: newFacts(), ghost: map[string]Val{}}
	if ti.g.heap != nil {
		w0.heap = ti.g.heap.fork()
	}
	in.evalBase = in.next
	arr := sh.build(w0, s)
	ctxT := in.p.namedType(tkBase, "ParserContext")
	ctx := mk("ctx", ctxT)
	saveIdx, saveCall := in.onIndex, in.onCall
	defer func() { in.onIndex, in.onCall = saveIdx, saveCall }()
	in.onIndex = func(w *World, site ssa.Instruction, seq Val, ln, idx Val) {
		sh.idxOb++
		if ln == nil { // the length of a new slice
			ln = linAdd(idx, kInt(1), 1)
		}
		if !w.ge0(idx) || !w.ge0(linAdd(linAdd(ln, kInt(1), -1), idx, -1)) {
			m := fmt.Sprintf("the index %s may be outside of the %s elements at %s", idx.k(), ln.k(), in.sitePos(site))
			for _, x := range ti.idx {
				if x == m {
					return
				}
			}
			ti.idx = append(ti.idx, m)
		}
	}
	in.onCall = func(in *Interp, w *World, site ssa.Instruction, fn *ssa.Function, args []Val) ([]Outcome, bool) {
		if fn.Name() == "Concat" && fn.Parent() == nil && fnPkg(fn) == tkStr {
			return sh.concat(w, s, args[1]), true
		}
		return nil, false
	}
	type st struct {
		w *World
		v Val
	}
	cur := []st{{w0, arr}}
	var res []*Src
	for _, tr := range ti.g.trs {
		var next []st
		for _, c := range cur {
			sh.evals++
			var outs []Outcome
			if t, ok := tr.(*Term); ok {
				pr, ok := t.x.(*ProdRule)
				if !ok {
					undec("a transformation at %s is not known", ti.g.site)
				}
				if sl, ok := c.v.(*SliceV); !ok || sl.arr != arr.arr || sl.off.k() != "0" || c.w.resolve(sl.ln).k() != c.w.resolve(arr.ln).k() || in.obj(c.w, arr.arr).k() != in.obj(w0, arr.arr).k() {
					undec("the tree nodes given to the production rules at %s are not those that were recognised", ti.g.site)
				}
				outs = sh.production(c.w, pr, a, s)
			} else {
				outs = in.apply(c.w, nil, tr, []Val{ctx, c.v})
			}
			for _, o := range outs {
				if o.panic {
					res = append(res, &Src{alt: a, in: s, w: o.w, panic: "panic: " + o.res.k()})
					continue
				}
				tv, ok := o.res.(*TupleV)
				if !ok || len(tv.v) != 2 {
					undec("a transformation at %s has no result", ti.g.site)
				}
				e := o.w.resolve(tv.v[1])
				switch o.w.truth(eqVal(e, NilV{})) {
				case 1:
					next = append(next, st{o.w, tv.v[0]})
				case 0:
					res = append(res, &Src{alt: a, in: s, w: o.w, err: e})
				default:
					undec("whether the transformation at %s fails is not known: %s", ti.g.site, e.k())
				}
			}
		}
		cur = next
	}
	for _, c := range cur {
		if sl, ok := c.v.(*SliceV); ok && sl.arr == arr.arr && sl.off.k() == "0" && c.w.resolve(sl.ln).k() == c.w.resolve(arr.ln).k() {
			if in.obj(c.w, arr.arr).k() == in.obj(w0, arr.arr).k() && (s.soup != nil || s.period != nil) {
				res = append(res, &Src{alt: a, in: s, w: c.w, same: true})
				continue
			}
		}
		es, ok := in.elems(c.w, c.v)
		if !ok {
			undec("the number of tree nodes made at %s is not known", ti.g.site)
		}
		res = append(res, &Src{alt: a, in: s, w: c.w, elems: es})
	}
	return res
}

// concat models Concat of takenoco: the concatenation of the texts.
func (sh *Shape) concat(w *World, s *seqIn, v Val) []Outcome {
	in := sh.in
	mkAst := func(class, val Val) Val {
		z := expand(zero(sh.astT), sh.astT)
		z = z.with(sh.fClass, class).with(sh.fType, sh.tStr).with(sh.fValue, &IfaceV{dyn: strT, v: val})
		for i := 0; i < sh.astSt.NumFields(); i++ {
			if sh.astSt.Field(i).Name() == "SourcePosition" {
				z = z.with(i, mk("firstpos", sh.astSt.Field(i).Type()))
			}
		}
		return z
	}
	bad := func(t Val) []Outcome {
		return []Outcome{{w: w, res: &TupleV{[]Val{NilV{}, newErr("Concat", t)}}}}
	}
	ok := func(class, val Val) []Outcome {
		return []Outcome{{w: w, res: &TupleV{[]Val{in.newSlice(w, sh.astT, []Val{mkAst(class, val)}, "concat"), NilV{}}}}}
	}
	if es, known := in.elems(w, v); known {
		var val Val = kStr("")
		var class Val = kStr("")
		for i, e := range es {
			t := w.resolve(field(e, sh.fType, sh.astT))
			if t.k() != sh.tStr.k() {
				if _, isK := t.(*Konst); !isK {
					undec("the type of a text to concatenate is not known")
				}
				return bad(t)
			}
			x := w.resolve(field(e, sh.fValue, sh.astT))
			iv, isI := x.(*IfaceV)
			if !isI || !types.Identical(iv.dyn, strT) {
				return []Outcome{{w: w, panic: true, res: kStr("Concat of a value that is not a string")}}
			}
			if i == 0 {
				class = field(e, sh.fClass, sh.astT)
			}
			val = concatVal(val, iv.v)
		}
		return ok(class, val)
	}
	sl, isS := v.(*SliceV)
	if !isS {
		undec("the texts to concatenate are not known")
	}
	o := in.obj(w, sl.arr)
	var els []*El
	switch b := o.arr.base.(type) {
	case soupElems:
		els = b.s.soup
	case repElems:
		els = append(append(els, b.s.prefix...), b.s.period...)
	default:
		undec("the texts to concatenate are not known")
	}
	var total Val = mk("len:soup", intT)
	if s.soup == nil {
		total = linAdd(kInt(int64(len(s.prefix))), linMul(s.n, int64(len(s.period))), 1)
	}
	if w.resolve(sl.off).k() != "0" || w.resolve(sl.ln).k() != w.resolve(total).k() || o.k() != s.initKey {
		undec("the texts that are concatenated are not all that were recognised")
	}
	for _, e := range els {
		if e.typ.k() != sh.tStr.k() {
			return bad(e.typ)
		}
		if e.val == nil && (e.dyn == nil || !types.Identical(e.dyn, strT)) {
			return []Outcome{{w: w, panic: true, res: kStr("Concat of a value that is not a string")}}
		}
	}
	t := mk("text", strT, kStr(elsKey(els)))
	t.x = els
	return ok(mk("?", strT), t)
}
