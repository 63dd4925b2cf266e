package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Derivations relate the text that a transformation consumes to the value it
// makes: every form of the text, with the parts that are of no interest left
// as named leaves.

// Tok is a part of the text of a derivation.
type Tok struct {
	kind   byte   // w: keyword or sign, x: other text, l: leaf, r: repetition
	text   string // of a keyword in lower case
	g      *Gram  // of w and x
	sub    *Sub
	els    []*El
	vals   []Val // payloads of the tree nodes
	bodies []*Deriv
	min    int
}

// Deriv is a derivation: the text and the resulting tree nodes.
type Deriv struct {
	toks  []Tok
	vals  []Val // payload per tree node
	asts  []Val
	src   *Src
	facts string
	nodes []*El // the tree nodes consumed, in order
}

func (d *Deriv) String() string {
	return toksText(d.toks)
}

func toksText(ts []Tok) string {
	var s []string
	for _, t := range ts {
		switch t.kind {
		case 'w':
			s = append(s, t.text)
		case 'x':
			s = append(s, "<"+t.text+">")
		case 'l':
			n := "leaf"
			if len(t.els) > 0 && t.els[0].dyn != nil {
				n = shortType(t.els[0].dyn)
			}
			s = append(s, "<"+n+">")
		case 'r':
			var b []string
			for _, x := range t.bodies {
				b = append(b, toksText(x.toks))
			}
			s = append(s, "{"+strings.Join(b, " | ")+"}*")
		}
	}
	return strings.Join(s, " ")
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// deep replaces references by what they refer to.
func (in *Interp) deep(w *World, v Val) Val { return in.deepN(w, v, 0) }

func (in *Interp) deepN(w *World, v Val, d int) Val {
	if d > 12 {
		return v
	}
	v = w.resolve(v)
	switch x := v.(type) {
	case *StructV:
		n := &StructV{typ: x.typ}
		for _, f := range x.f {
			n.f = append(n.f, in.deepN(w, f, d+1))
		}
		return n
	case *IfaceV:
		return &IfaceV{dyn: x.dyn, v: in.deepN(w, x.v, d+1)}
	case *SliceV:
		if es, ok := in.elems(w, x); ok {
			t := mk("seq", nil)
			var as []Val
			for _, e := range es {
				as = append(as, in.deepN(w, e, d+1))
			}
			t = mk("seq", nil, as...)
			t.x = in.obj(w, x.arr).tag
			return t
		}
		return in.deepSeg(w, Seg{in.obj(w, x.arr).arr, x.off, x.ln}, d)
	case *PtrV:
		o := in.obj(w, x.obj)
		if len(x.path) == 0 && o.kind == 'c' {
			t := mk("ptr", nil, in.deepN(w, o.v, d+1))
			return t
		}
	case *TupleV:
		n := &TupleV{}
		for _, f := range x.v {
			n.v = append(n.v, in.deepN(w, f, d+1))
		}
		return n
	case *Term:
		if x.op == "alt" || x.op == "when" || x.op == "seq" {
			var as []Val
			for _, a := range x.args {
				as = append(as, in.deepN(w, a, d+1))
			}
			t := mk(x.op, x.typ, as...)
			t.x = x.x
			return t
		}
	}
	return v
}

func (in *Interp) deepSeg(w *World, g Seg, d int) Val {
	ln, off := w.resolve(g.ln), w.resolve(g.off)
	if n, ok := asInt(ln); ok && n <= 64 {
		var as []Val
		for i := int64(0); i < n; i++ {
			as = append(as, in.deepN(w, g.c.load(in, w, linAdd(off, kInt(i), 1)), d+1))
		}
		return mk("seq", nil, as...)
	}
	if len(g.c.wr) == 0 {
		switch b := g.c.base.(type) {
		case compElems:
			if off.k() == "0" && w.resolve(b.lo).k() == "0" && w.resolve(b.hi).k() == ln.k() {
				return mk("comp", nil, b.ivar, ln, in.deepComp(w, b, d))
			}
			// the counter has reached the end
			if off.k() == "0" && w.resolve(b.lo).k() == "0" && w.ge0(linAdd(b.hi, ln, -1)) {
				return mk("comp", nil, b.ivar, ln, in.deepComp(w, b, d))
			}
		case catElems:
			if off.k() == "0" && w.resolve(b.total()).k() == ln.k() {
				var as []Val
				for _, s := range b.segs {
					as = append(as, in.deepSeg(w, s, d+1))
				}
				return mk("cat", nil, as...)
			}
		case termElems:
			if off.k() == "0" && w.resolve(lenOf(b.t)).k() == ln.k() {
				return b.t
			}
		}
	}
	return mk("part", nil, kStr(g.c.k()), off, ln)
}

func (in *Interp) deepComp(w *World, b compElems, d int) Val {
	if b.dv != nil {
		return b.dv
	}
	return in.deepN(w, b.v, d+1)
}

// Deriver enumerates derivations.
type Deriver struct {
	sh   *Shape
	stop func(s *Sub) bool
	n    int
}

const derivCap = 20000

// of gives the derivations of a form of the result of a transformation.
func (dv *Deriver) of(sub *Sub, path string) []*Deriv {
	var r []*Deriv
	for i, s := range sub.srcs {
		r = append(r, dv.src(s, path+"."+strconv.Itoa(i))...)
		if len(r) > derivCap {
			undec("too many derivations of the transformation at %s", sub.g.site)
		}
	}
	return r
}

type dstate struct {
	toks []Tok
	m    map[string]Val
	n    int // tree nodes seen
	el   []*El
}

func (c *dstate) node(els ...*El) { c.el = append(append([]*El{}, c.el...), els...) }

func (dv *Deriver) src(s *Src, path string) []*Deriv {
	sh := dv.sh
	in := s.in
	if in.soup != nil { // the values refer to the tree nodes as a whole
		in = nil
	}
	cur := []*dstate{{m: map[string]Val{}}}
	cur = dv.pieces(cur, s.alt.ps, in, path, false)
	var r []*Deriv
	for _, c := range cur {
		d := &Deriv{toks: c.toks, src: s, facts: s.w.facts.String(), nodes: c.el}
		for _, v := range s.elems {
			a := subst(sh.in.deep(s.w, v), c.m)
			d.asts = append(d.asts, a)
			d.vals = append(d.vals, s.w.resolve(field(a, sh.fValue, sh.astT)))
		}
		r = append(r, d)
	}
	return r
}

// pieces extends the partial derivations by the pieces of a form.
func (dv *Deriver) pieces(cur []*dstate, ps []Piece, in *seqIn, path string, inRep bool) []*dstate {
	sh := dv.sh
	add := func(t Tok) {
		for _, c := range cur {
			c.toks = append(append([]Tok{}, c.toks...), t)
		}
	}
	// the term that stands for the value of a tree node
	key := func(el *El, i int) (string, bool) {
		var v Val
		if inRep {
			return "", false
		}
		v = sh.value(el, "", kInt(int64(i)))
		f := v.(*StructV).f[sh.fValue]
		switch x := f.(type) {
		case *IfaceV:
			if el.val == nil {
				return x.v.k(), true
			}
		case *Term:
			return x.k(), true
		}
		return "", false
	}
	idx := 0
	if len(cur) > 0 {
		idx = cur[0].n
	}
	bind := func(c *dstate, el *El, i int, v Val) {
		if v == nil {
			return
		}
		k, ok := key(el, i)
		if !ok {
			return
		}
		if iv, isI := v.(*IfaceV); isI && el.dyn != nil {
			v = iv.v
		}
		c.m[k] = v
	}
	limit := -1
	if in != nil && in.period != nil {
		limit = len(in.prefix)
	}
	for j := 0; j < len(ps); j++ {
		p := ps[j]
		name := path + "/" + strconv.Itoa(j)
		switch p.kind {
		case 'k':
			hasEl := j+1 < len(ps) && ps[j+1].kind == 'e' && ps[j+1].el.g == p.g && ps[j+1].sub == nil
			if hasEl && limit >= 0 && idx >= limit {
				j++
				idx++
				continue
			}
			t := Tok{kind: 'x', text: p.g.op, g: p.g}
			switch {
			case p.g.op == "Seq" || p.g.op == "SeqI":
				t.kind, t.text = 'w', strings.ToLower(p.g.strs[0])
			case p.g.op == "CharClass" && len(p.g.strs) == 1:
				t.kind, t.text = 'w', p.g.strs[0]
			}
			if hasEl {
				el := ps[j+1].el
				t.els = []*El{el}
				if el.val != nil {
					t.vals = []Val{el.val}
				} else {
					lf := mk("leaf:"+name, strT)
					lf.x = el
					t.vals = []Val{lf}
				}
				for _, c := range cur {
					c.node(el)
					bind(c, el, idx, t.vals[0])
					dv.keep(c, inRep, t.vals)
				}
				j++
				idx++
			}
			add(t)
		case 'e': // from no text
			el := p.el
			if limit >= 0 && idx >= limit {
				idx++
				continue
			}
			v := el.val
			if v == nil && el.g != nil && idx < 1<<30 {
				v = dv.zeroVal(el)
			}
			t := Tok{kind: 'w', text: "", els: []*El{el}, vals: []Val{v}}
			for _, c := range cur {
				c.node(el)
				bind(c, el, idx, v)
				dv.keep(c, inRep, []Val{v})
			}
			idx++
			add(t)
		case 's':
			n := len(p.sub.els)
			if limit >= 0 && idx >= limit && n > 0 {
				j += n
				idx += n
				continue
			}
			if dv.stop != nil && dv.stop(p.sub) {
				t := Tok{kind: 'l', sub: p.sub, els: p.sub.els}
				for i, el := range p.sub.els {
					var v Val
					if el.val != nil {
						v = el.val
					} else {
						lf := mk("leaf:"+name+"#"+strconv.Itoa(i), el.dyn)
						lf.x = el
						v = lf
					}
					t.vals = append(t.vals, v)
				}
				for _, c := range cur {
					c.node(p.sub.els...)
					for i, el := range p.sub.els {
						bind(c, el, idx+i, t.vals[i])
					}
					dv.keep(c, inRep, t.vals)
				}
				add(t)
				j += n
				idx += n
				continue
			}
			var next []*dstate
			ds := dv.of(p.sub, name)
			if n == 0 { // text only: the distinct texts
				for _, d := range ds {
					for i, t := range d.toks {
						if t.kind == 'r' {
							d.toks[i] = Tok{kind: 'x', text: "text", g: t.g}
						}
					}
				}
				ds = distinctTexts(ds)
			}
			for _, c := range cur {
				for _, d := range ds {
					x := &dstate{toks: append(append([]Tok{}, c.toks...), d.toks...), m: map[string]Val{}, el: c.el}
					x.node(p.sub.els...)
					for k, v := range c.m {
						x.m[k] = v
					}
					for i, el := range p.sub.els {
						bind(x, el, idx+i, d.vals[i])
					}
					dv.keep(x, inRep, d.vals)
					next = append(next, x)
				}
			}
			cur = next
			if len(cur) > derivCap {
				undec("too many derivations (%s)", path)
			}
			j += n
			idx += n
		case 'r':
			t := Tok{kind: 'r', min: p.min}
			for bi, b := range p.alts {
				if !b.hasEls() {
					continue
				}
				bs := dv.pieces([]*dstate{{m: map[string]Val{}}}, b.ps, nil, name+"r"+strconv.Itoa(bi), true)
				for _, x := range bs {
					d := &Deriv{toks: x.toks, nodes: x.el}
					for i := 0; ; i++ {
						v, ok := x.m["#"+strconv.Itoa(i)]
						if !ok {
							break
						}
						d.vals = append(d.vals, v)
					}
					if in == nil || in.period == nil || elsKey(in.period) == elsKey(elsOfBody(b)) {
						t.bodies = append(t.bodies, d)
					}
				}
			}
			if len(t.bodies) > 0 {
				if in != nil && in.period != nil {
					t.min = in.min
				}
				add(t)
			} else {
				add(Tok{kind: 'x', text: "text", g: p.g})
			}
		}
	}
	for _, c := range cur {
		c.n = idx
	}
	return cur
}

// keep collects the payloads of the tree nodes of an iteration.
func (dv *Deriver) keep(c *dstate, inRep bool, vs []Val) {
	if !inRep {
		return
	}
	n := 0
	for {
		if _, ok := c.m["#"+strconv.Itoa(n)]; !ok {
			break
		}
		n++
	}
	for i, v := range vs {
		if v == nil {
			v = NilV{}
		}
		c.m["#"+strconv.Itoa(n+i)] = v
	}
}

func elsOfBody(a Alt) []*El {
	var r []*El
	for _, p := range a.ps {
		if p.kind == 'e' {
			r = append(r, p.el)
		}
	}
	return r
}

// zeroVal is the payload of a tree node that stands for absent text.
func (dv *Deriver) zeroVal(el *El) Val {
	for _, a := range el.g.asts {
		e2 := dv.sh.elOf(nil, a, nil, 0)
		if e2.key == el.key {
			return dv.sh.in.deep(dv.sh.in.world(), field(a, dv.sh.fValue, dv.sh.astT))
		}
	}
	return nil
}

func distinctTexts(ds []*Deriv) []*Deriv {
	seen := map[string]bool{}
	var r []*Deriv
	for _, d := range ds {
		k := toksText(d.toks)
		if !seen[k] {
			seen[k] = true
			r = append(r, d)
		}
	}
	return r
}

// inst instantiates the element of a comprehension for an iteration.
func (dv *Deriver) inst(c *Term, body *Deriv) Val {
	I := c.args[0]
	m := map[string]Val{}
	for r, v := range body.vals {
		el := (*El)(nil)
		_ = el
		if v == nil {
			continue
		}
		base := v
		if iv, ok := v.(*IfaceV); ok {
			base = iv.v
		}
		m["#"+strconv.Itoa(r)] = base
	}
	return substRep(c.args[2], I, m)
}

// substRep replaces the values of the nodes of a repetition at index I.
func substRep(v Val, I Val, m map[string]Val) Val {
	switch x := v.(type) {
	case *Term:
		if strings.HasPrefix(x.op, "in*:") && len(x.args) == 2 && x.args[1].k() == I.k() {
			if r, ok := m["#"+x.args[0].k()]; ok {
				return r
			}
			return x
		}
		if len(x.args) == 0 {
			return v
		}
		as := make([]Val, len(x.args))
		for i, a := range x.args {
			as[i] = substRep(a, I, m)
		}
		t := mk(x.op, x.typ, as...)
		t.x = x.x
		return t
	case *StructV:
		n := &StructV{typ: x.typ}
		for _, a := range x.f {
			n.f = append(n.f, substRep(a, I, m))
		}
		return n
	case *IfaceV:
		return &IfaceV{x.dyn, substRep(x.v, I, m)}
	}
	return v
}

var _ = fmt.Sprint
