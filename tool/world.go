package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Obj is an immutable version of a heap object.
type Obj struct {
	kind byte // 'c' cell, 'a' array, 'm' map
	typ  types.Type
	v    Val
	arr  *ArrC
	mp   *MapC
	sym  bool   // belongs to the symbolic input
	tag  string // origin
	site int    // allocation order
	key  string
}

func (o *Obj) k() string {
	if o.key == "" {
		switch o.kind {
		case 'c':
			o.key = "c" + o.v.k()
		case 'a':
			o.key = "a" + o.arr.k()
		case 'm':
			o.key = "m" + o.mp.k()
		}
	}
	return o.key
}

// Elemer gives the element of a sequence at an index.
type Elemer interface {
	elem(in *Interp, w *World, idx Val) Val
	k() string
}

type zeroElems struct{ t types.Type }

func (z zeroElems) elem(in *Interp, w *World, idx Val) Val { return zero(z.t) }
func (z zeroElems) k() string                              { return "zero" }

type termElems struct {
	t    Val
	elty types.Type
}

func (z termElems) elem(in *Interp, w *World, idx Val) Val { return mk("elem", z.elty, z.t, idx) }
func (z termElems) k() string                              { return "of:" + z.t.k() }

// Seg is a part of a concatenation.
type Seg struct {
	c   *ArrC
	off Val
	ln  Val
}

type catElems struct {
	segs []Seg
	elty types.Type
}

func (z catElems) elem(in *Interp, w *World, idx Val) Val {
	for i, s := range z.segs {
		if i == len(z.segs)-1 {
			return s.c.load(in, w, linAdd(s.off, idx, 1))
		}
		d := linAdd(s.ln, idx, -1) // ln - idx
		if w.ge0(linAdd(d, kInt(1), -1)) {
			return s.c.load(in, w, linAdd(s.off, idx, 1))
		}
		if w.ge0(linAdd(idx, s.ln, -1)) {
			idx = linAdd(idx, s.ln, -1)
			continue
		}
		break
	}
	return mk("catelem", z.elty, kStr(z.k()), idx)
}
func (z catElems) k() string {
	s := "cat("
	for _, g := range z.segs {
		s += g.c.k() + "@" + g.off.k() + "#" + g.ln.k() + ";"
	}
	return s + ")"
}

// compElems is a comprehension: element idx (lo <= idx < hi) is v[ivar := idx].
type compElems struct {
	ivar   Val
	lo, hi Val
	v      Val
	dv     Val // v with the objects made in the iteration spelled out
	elty   types.Type
	other  Elemer
}

func (z compElems) elem(in *Interp, w *World, idx Val) Val {
	if w.ge0(linAdd(idx, z.lo, -1)) && w.ge0(linAdd(linAdd(z.hi, kInt(1), -1), idx, -1)) {
		return subst(z.v, map[string]Val{z.ivar.k(): idx})
	}
	if w.ge0(linAdd(idx, z.hi, -1)) || w.ge0(linAdd(linAdd(z.lo, kInt(1), -1), idx, -1)) {
		return z.other.elem(in, w, idx)
	}
	return mk("celem", z.elty, kStr(z.k()), idx)
}
func (z compElems) k() string {
	return "comp(" + z.ivar.k() + "=" + z.lo.k() + ".." + z.hi.k() + ":" + z.v.k() + "|" + z.other.k() + ")"
}

type arrW struct {
	idx Val
	v   Val
}

// ArrC is the content of an array object.
type ArrC struct {
	base Elemer
	wr   []arrW
	elty types.Type
	key  string
}

func (a *ArrC) k() string {
	if a.key == "" {
		var sb strings.Builder
		sb.WriteString(a.base.k())
		for _, w := range a.wr {
			sb.WriteString("|" + w.idx.k() + "=" + w.v.k())
		}
		a.key = sb.String()
	}
	return a.key
}

func (a *ArrC) load(in *Interp, w *World, idx Val) Val {
	idx = w.resolve(idx)
	for i := len(a.wr) - 1; i >= 0; i-- {
		x := w.resolve(a.wr[i].idx)
		if x.k() == idx.k() {
			return a.wr[i].v
		}
		d := linAdd(x, idx, -1)
		if c, ok := asInt(d); ok && c != 0 {
			continue
		}
		if w.ge0(linAdd(d, kInt(1), -1)) || w.ge0(linAdd(linMul(d, -1), kInt(1), -1)) {
			continue
		}
		return mk("sel", a.elty, kStr(a.k()), idx)
	}
	return a.base.elem(in, w, idx)
}

func (a *ArrC) store(w *World, idx, v Val) *ArrC {
	n := &ArrC{base: a.base, elty: a.elty}
	for _, x := range a.wr {
		if x.idx.k() != idx.k() {
			n.wr = append(n.wr, x)
		}
	}
	n.wr = append(n.wr, arrW{idx, v})
	return n
}

type mapW struct {
	key Val
	v   Val
	del bool
}

// MapC is the content of a map object.
type MapC struct {
	base string // "" for an empty map; otherwise the name of the unknown content
	wr   []mapW
	elty types.Type
	kty  types.Type
	// ext: entries read from an unknown base (by key)
}

func (m *MapC) k() string {
	var sb strings.Builder
	sb.WriteString(m.base)
	for _, w := range m.wr {
		sb.WriteString("|" + w.key.k() + "=" + w.v.k())
		if w.del {
			sb.WriteString("!")
		}
	}
	return sb.String()
}

// Heap is a persistent map from object ids to contents.
type Heap struct {
	base *Heap
	m    map[int]*Obj
	n    int
}

func (h *Heap) get(id int) *Obj {
	for ; h != nil; h = h.base {
		if o, ok := h.m[id]; ok {
			return o
		}
	}
	return nil
}

func (h *Heap) fork() *Heap {
	if len(h.m) == 0 {
		return &Heap{base: h.base, m: map[int]*Obj{}, n: h.n}
	}
	if h.n > 24 {
		// flatten all but the bottom layer
		f := map[int]*Obj{}
		x := h
		for ; x.base != nil; x = x.base {
			for k, v := range x.m {
				if _, ok := f[k]; !ok {
					f[k] = v
				}
			}
		}
		h = &Heap{base: x, m: f, n: 1}
	}
	return &Heap{base: h, m: map[int]*Obj{}, n: h.n + 1}
}

func (h *Heap) changed(stop *Heap) map[int]*Obj {
	f := map[int]*Obj{}
	for x := h; x != nil && x != stop; x = x.base {
		if x.base == nil {
			break
		}
		for k, v := range x.m {
			if _, ok := f[k]; !ok {
				f[k] = v
			}
		}
	}
	return f
}

// Facts are what is known on a path.
type Facts struct {
	tv  map[string]bool // truth of boolean terms
	tt  map[string]Val  // the terms themselves
	eq  map[string]Val  // term equal to a constant
	lin map[string]*Lin // linear expressions >= 0
	ord []string        // order of assumptions (keys of tv)
}

func newFacts() *Facts {
	return &Facts{tv: map[string]bool{}, tt: map[string]Val{}, eq: map[string]Val{}, lin: map[string]*Lin{}}
}

func (f *Facts) clone() *Facts {
	n := newFacts()
	for k, v := range f.tv {
		n.tv[k] = v
		n.tt[k] = f.tt[k]
	}
	for k, v := range f.eq {
		n.eq[k] = v
	}
	for k, v := range f.lin {
		n.lin[k] = v
	}
	n.ord = append([]string{}, f.ord...)
	return n
}

func (f *Facts) meet(o *Facts) *Facts {
	n := newFacts()
	for k, v := range f.tv {
		if w, ok := o.tv[k]; ok && v == w {
			n.tv[k] = v
			n.tt[k] = f.tt[k]
		}
	}
	for k, v := range f.eq {
		if w, ok := o.eq[k]; ok && v.k() == w.k() {
			n.eq[k] = v
		}
	}
	for k, v := range f.lin {
		if _, ok := o.lin[k]; ok {
			n.lin[k] = v
		}
	}
	for _, k := range f.ord {
		if _, ok := n.tv[k]; ok {
			n.ord = append(n.ord, k)
		}
	}
	return n
}

func (f *Facts) String() string {
	var ss []string
	for _, k := range f.ord {
		if f.tv[k] {
			ss = append(ss, k)
		} else {
			ss = append(ss, "!"+k)
		}
	}
	return strings.Join(ss, " & ")
}

// World is a machine state on one path.
type World struct {
	heap  *Heap
	facts *Facts
	ghost map[string]Val
}

func (w *World) fork() *World {
	h := w.heap
	w.heap = h.fork()
	n := &World{heap: h.fork(), facts: w.facts.clone(), ghost: w.ghost}
	return n
}

func (w *World) setGhost(k string, v Val) {
	n := map[string]Val{}
	for a, b := range w.ghost {
		n[a] = b
	}
	n[k] = v
	w.ghost = n
}

func (w *World) ghostKey() string {
	if len(w.ghost) == 0 {
		return ""
	}
	var ss []string
	for k, v := range w.ghost {
		ss = append(ss, k+"="+v.k())
	}
	sort.Strings(ss)
	return strings.Join(ss, ";")
}

// resolve replaces a term known to equal a constant.
func (w *World) resolve(v Val) Val {
	switch x := v.(type) {
	case *Term:
		if c, ok := w.facts.eq[x.key]; ok {
			return c
		}
	case *Lin:
		hit := false
		for k := range x.m {
			if _, ok := w.facts.eq[k]; ok {
				hit = true
			}
		}
		if hit {
			m := map[string]Val{}
			for k := range x.m {
				if c, ok := w.facts.eq[k]; ok {
					m[k] = c
				}
			}
			return subst(v, m)
		}
	}
	return v
}

func nonneg(k string) bool {
	return strings.HasPrefix(k, "len(") || strings.HasPrefix(k, "cap(")
}

// ge0 tells whether v >= 0 is implied.
func (w *World) ge0(v Val) bool {
	v = w.resolve(v)
	if c, ok := asInt(v); ok {
		return c >= 0
	}
	return w.ge0l(floorDiv(toLin(v)), 2)
}

func (w *World) ge0l(l *Lin, depth int) bool {
	neg := false
	for k, c := range l.m {
		if !(nonneg(k) && c > 0) {
			neg = true
		}
	}
	if !neg && l.c >= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, f := range w.facts.lin {
		// l - f must share an atom to be useful
		share := false
		mul := int64(1)
		for k := range f.m {
			if l.m[k]*f.m[k] > 0 {
				share = true
				if q := l.m[k] / f.m[k]; q > mul && l.m[k]%f.m[k] == 0 {
					mul = q
				}
			}
		}
		if !share {
			continue
		}
		d := linAdd(l, f, -1)
		if mul > 1 {
			e := linAdd(l, linMul(f, mul), -1)
			if w.ge0l(toLin(e), depth-1) {
				return true
			}
		}
		if c, ok := asInt(d); ok {
			if c >= 0 {
				return true
			}
			continue
		}
		if w.ge0l(toLin(d), depth-1) {
			return true
		}
	}
	return false
}

// truth evaluates a boolean value under the facts: 1 true, 0 false, -1 unknown.
func (w *World) truth(v Val) int {
	b2 := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	if b, ok := asBool(v); ok {
		return b2(b)
	}
	t, ok := v.(*Term)
	if !ok {
		return -1
	}
	if b, ok := w.facts.tv[t.key]; ok {
		return b2(b)
	}
	switch t.op {
	case "not":
		if r := w.truth(t.args[0]); r >= 0 {
			return 1 - r
		}
	case "ge0":
		if w.ge0(t.args[0]) {
			return 1
		}
		if w.ge0(linAdd(linMul(t.args[0], -1), kInt(1), -1)) {
			return 0
		}
	case "eq":
		a, b := w.resolve(t.args[0]), w.resolve(t.args[1])
		if a != t.args[0] || b != t.args[1] {
			r := eqVal(a, b)
			if r != Val(nil) && r.k() != t.key {
				return w.truth(r)
			}
		}
		if isIntVal(a) && isIntVal(b) {
			d := linAdd(a, b, -1)
			if w.ge0(linAdd(d, kInt(1), -1)) || w.ge0(linAdd(linMul(d, -1), kInt(1), -1)) {
				return 0
			}
		}
		// nil-ness and lengths
		if _, isnil := b.(NilV); isnil {
			if w.nonNil(a) {
				return 0
			}
		}
	case "isa":
		x := t.args[0]
		if _, ok := w.facts.eq["dyn:"+x.k()]; ok {
			d := w.facts.eq["dyn:"+x.k()]
			return b2(d.k() == t.args[1].k())
		}
		if r, ok := w.facts.tv["eq("+x.k()+",nil)"]; ok && r {
			return 0
		}
	}
	return -1
}

func (w *World) nonNil(a Val) bool {
	if _, ok := w.facts.eq["dyn:"+a.k()]; ok {
		return true
	}
	if _, ok := w.facts.tv["nonnil:"+a.k()]; ok {
		return true
	}
	// a slice with a positive length is not nil
	return w.ge0(linAdd(mk("len", nil, a), kInt(1), -1))
}

// assume adds a fact; false is returned when it contradicts what is known.
func (w *World) assume(v Val, val bool) bool {
	switch w.truth(v) {
	case 1:
		return val
	case 0:
		return !val
	}
	t := v.(*Term)
	if t.op == "not" {
		return w.assume(t.args[0], !val)
	}
	f := w.facts
	f.tv[t.key] = val
	f.tt[t.key] = t
	f.ord = append(f.ord, t.key)
	switch t.op {
	case "ge0":
		l := t.args[0]
		if !val {
			l = linAdd(linMul(l, -1), kInt(1), -1)
		}
		x := floorDiv(toLin(l))
		f.lin[x.finish().k()] = x
	case "eq":
		a, b := t.args[0], t.args[1]
		if val {
			if _, ok := b.(*Konst); ok {
				f.eq[a.k()] = b
				if isIntVal(a) {
					d := linAdd(a, b, -1)
					f.lin[d.k()] = toLin(d)
					d = linMul(d, -1)
					f.lin[d.k()] = toLin(d)
				}
			} else if _, ok := b.(NilV); ok {
				f.eq[mk("len", nil, a).k()] = kInt(0)
			} else if isIntVal(a) && isIntVal(b) {
				d := linAdd(a, b, -1)
				f.lin[d.k()] = toLin(d)
				d = linMul(d, -1)
				f.lin[d.k()] = toLin(d)
			}
		}
	case "isa":
		if val {
			f.eq["dyn:"+t.args[0].k()] = t.args[1]
		}
	}
	return true
}

func isIntVal(v Val) bool {
	switch x := v.(type) {
	case *Konst:
		return x.kind == 'i'
	case *Lin:
		return true
	case *Term:
		if x.typ != nil {
			if b, ok := under(x.typ).(*types.Basic); ok {
				return b.Info()&types.IsInteger != 0
			}
			return false
		}
		return x.op == "len" || x.op == "cap"
	}
	return false
}

// eqVal builds the value of a == b.
func eqVal(a, b Val) Val {
	if a.k() == b.k() {
		if c, ok := a.(*Konst); ok && c.kind == 'f' {
			return kBool(c.f != "NaN")
		}
		return kBool(true)
	}
	if _, ok := a.(*Konst); ok {
		if _, ok := b.(*Konst); ok {
			return kBool(false)
		}
		a, b = b, a
	}
	if _, ok := a.(NilV); ok {
		a, b = b, a
	}
	if _, ok := b.(NilV); ok {
		switch x := a.(type) {
		case *PtrV, *FuncV, *MapV, *IfaceV, *GramV, *SliceV:
			return kBool(false)
		case *Term:
			_ = x
		}
	}
	if isIntVal(a) && isIntVal(b) {
		d := linAdd(a, b, -1)
		if c, ok := asInt(d); ok {
			return kBool(c == 0)
		}
	}
	switch x := a.(type) {
	case *PtrV:
		if y, ok := b.(*PtrV); ok && x.obj != y.obj {
			return kBool(false)
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if typeKey(x.dyn) != typeKey(y.dyn) {
				return kBool(false)
			}
			return eqVal(x.v, y.v)
		}
	}
	// strings known up to the letter case
	if s, ok := asStr(b); ok {
		if t, ok := isTerm(a, "casevar"); ok {
			if l, ok := asStr(t.args[0]); ok && strings.ToLower(s) != l {
				return kBool(false)
			}
		}
	}
	if _, ok := b.(*Konst); !ok {
		if _, ok := b.(NilV); !ok && a.k() > b.k() {
			a, b = b, a
		}
	}
	return mk("eq", types.Typ[types.Bool], a, b)
}

func notVal(v Val) Val {
	if b, ok := asBool(v); ok {
		return kBool(!b)
	}
	if t, ok := isTerm(v, "not"); ok {
		return t.args[0]
	}
	return mk("not", types.Typ[types.Bool], v)
}

func ge0Val(v Val) Val {
	if c, ok := asInt(v); ok {
		return kBool(c >= 0)
	}
	return mk("ge0", types.Typ[types.Bool], v)
}

var _ = strconv.Itoa
