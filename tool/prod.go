package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ProdInfo is what is known about a production rule transformer.
type ProdInfo struct {
	pr    *ProdRule
	uses  int
	outs  []*El
	rules []*RuleInfo
}

// RuleInfo is one rule of a precedence.
type RuleInfo struct {
	prec, idx int
	g         *Gram
	cells     []*Cell // what it matches, in order
	srcs      []*Src  // what the action does
	arr       *SliceV
}

// Cell is one matched tree node: any, or those a predicate accepts.
type Cell struct {
	g  *Gram
	fn Val // nil: any
}

// ruleOf decomposes a rule: a transformation of a sequence of node matchers.
func (sh *Shape) ruleOf(g *Gram, prec, idx int) *RuleInfo {
	in := sh.in
	g = in.resolveGram(g)
	ri := &RuleInfo{prec: prec, idx: idx, g: g}
	if g.op != "Trans" {
		undec("a production rule is not a transformation of what it matches (at %s)", g.site)
	}
	var walk func(x *Gram)
	walk = func(x *Gram) {
		x = in.resolveGram(x)
		switch x.op {
		case "Group":
			for _, k := range x.kids {
				walk(k)
			}
		case "Repeat":
			if x.min != x.max {
				undec("a production rule matches a variable number of nodes (at %s)", x.site)
			}
			for i := 0; i < x.min; i++ {
				for _, k := range x.kids {
					walk(k)
				}
			}
		case "Trans":
			// a matcher with its transformation
			n := len(ri.cells)
			walk(x.kids[0])
			if len(ri.cells) != n+1 {
				undec("a production rule transforms several nodes at once (at %s)", x.site)
			}
			if !sh.unwraps(x) {
				undec("the transformation of a matched node at %s is not the node itself", x.site)
			}
		case "ObjAny":
			ri.cells = append(ri.cells, &Cell{g: x})
		case "ObjClassFn":
			ri.cells = append(ri.cells, &Cell{g: x, fn: x.fn})
		default:
			undec("a production rule uses the parser %s at %s", x.op, x.site)
		}
	}
	walk(g.kids[0])
	return ri
}

// unwraps tells whether the transformation of a matched object gives the node
// that was matched.
func (sh *Shape) unwraps(x *Gram) bool {
	in := sh.in
	w := &World{heap: x.heap.fork(), facts: newFacts(), ghost: map[string]Val{}}
	inner := mk("node", sh.astT)
	el := &El{class: kStr("obj"), typ: kInt(0), op: kInt(0), dyn: sh.astT}
	el.finish()
	v := sh.value(el, "obj").(*StructV).with(sh.fValue, &IfaceV{dyn: sh.astT, v: inner})
	sl := in.newSlice(w, sh.astT, []Val{v}, "obj")
	var cur Val = sl
	for _, tr := range x.trs {
		outs := in.apply(w, nil, tr, []Val{mk("ctx", in.p.namedType(tkBase, "ParserContext")), cur})
		if len(outs) != 1 || outs[0].panic {
			return false
		}
		tv := outs[0].res.(*TupleV)
		w = outs[0].w
		if w.truth(eqVal(w.resolve(tv.v[1]), NilV{})) != 1 {
			return false
		}
		cur = tv.v[0]
	}
	es, ok := in.elems(w, cur)
	return ok && len(es) == 1 && es[0].k() == inner.k()
}

// matches evaluates a matcher's predicate on a kind of node: 1 yes, 0 no.
func (sh *Shape) matches(c *Cell, el *El) int {
	if c.fn == nil {
		return 1
	}
	in := sh.in
	w := &World{heap: c.g.heap.fork(), facts: newFacts(), ghost: map[string]Val{}}
	outs := in.apply(w, nil, c.fn, []Val{&IfaceV{dyn: sh.astT, v: sh.value(el, "m")}})
	res := -1
	for _, o := range outs {
		if o.panic {
			return -2
		}
		b, ok := asBool(o.w.resolve(o.res))
		if !ok {
			if t := o.w.truth(o.res); t >= 0 {
				b = t == 1
			} else {
				return -1
			}
		}
		n := 0
		if b {
			n = 1
		}
		if res >= 0 && res != n {
			return -1
		}
		res = n
	}
	return res
}

// action evaluates the transformation of a rule on nodes of the given kinds.
func (sh *Shape) action(ri *RuleInfo, els []*El) []*Src {
	ti := &TransInfo{g: ri.g, subs: map[string]*Sub{}}
	src := sh.evalTrans(ti, Alt{}, &seqIn{prefix: els})
	for _, m := range ti.idx {
		src = append(src, &Src{panic: m})
	}
	return src
}

// operands are the nodes that are not operators: their value is a list.
func isOperatorEl(el *El) bool { return el.val != nil && keywordValue(el.val) }

// production models the transformation: a single node remains, an operand of
// the input or the result of a rule.
func (sh *Shape) production(w *World, pr *ProdRule, a Alt, s *seqIn) []Outcome {
	in := sh.in
	pi := sh.prods[pr]
	if pi == nil {
		pi = &ProdInfo{pr: pr}
		sh.prods[pr] = pi
		for i, p := range pr.precs {
			for j, rg := range p.rules {
				pi.rules = append(pi.rules, sh.ruleOf(rg, i, j))
			}
		}
	}
	pi.uses++
	els := a.allEls()
	var opnds, ops []*El
	for _, e := range els {
		if isOperatorEl(e) {
			ops = append(ops, e)
		} else {
			opnds = append(opnds, e)
		}
	}
	// results of the rules, on operands of the input and of the rules
	known := map[string]bool{}
	for _, e := range opnds {
		known[e.key] = true
	}
	results := map[string]*El{}
	bad := map[string]bool{}
	pi.rules = append([]*RuleInfo{}, pi.rules...)
	for round := 0; round < 5; round++ {
		grew := false
		for _, ri := range pi.rules {
			// the operand cells get each kind of operand, operators their own
			combos := [][]*El{nil}
			for _, c := range ri.cells {
				var cand []*El
				if c.fn == nil {
					cand = opnds
				} else {
					for _, e := range append(append([]*El{}, ops...), opnds...) {
						if sh.matches(c, e) != 0 {
							cand = append(cand, e)
						}
					}
				}
				var n [][]*El
				for _, x := range combos {
					for _, e := range cand {
						n = append(n, append(append([]*El{}, x...), e))
					}
				}
				combos = n
			}
			for _, cb := range combos {
				for _, src := range sh.action(ri, cb) {
					if src.panic != "" {
						bad[src.panic] = true
						continue
					}
					if src.err != nil {
						continue
					}
					for _, v := range src.elems {
						el := sh.elOf(src.w, v, nil, 0)
						if !known[el.key] {
							known[el.key] = true
							results[el.key] = el
							opnds = append(opnds, el)
							grew = true
						}
					}
				}
			}
		}
		if !grew {
			break
		}
	}
	var outs []Outcome
	for _, m := range sortedKeys(bad) {
		outs = append(outs, Outcome{w: w.fork(), panic: true, res: kStr("in an action of the production rules: " + m)})
	}
	// the remaining node
	seen := map[string]bool{}
	for _, e := range opnds {
		e2 := *e
		e2.sub = nil
		e2.finish()
		if seen[e2.key] {
			continue
		}
		seen[e2.key] = true
		w2 := w.fork()
		v := sh.value(&e2, "prod", kStr(fmt.Sprint(pr.site)))
		outs = append(outs, Outcome{w: w2, res: &TupleV{[]Val{in.newSlice(w2, sh.astT, []Val{v}, "production"), NilV{}}}})
	}
	w3 := w.fork()
	outs = append(outs, Outcome{w: w3, res: &TupleV{[]Val{NilV{}, newErr("ProductionRule")}}})
	return outs
}

// reductions checks that every rule shortens the list.
func (r *Run) reductions(in *Interp, pr *ProdRule) {
	sh := newShape(in)
	for i, p := range pr.precs {
		for j, rg := range p.rules {
			ri := sh.ruleOf(rg, i, j)
			var els []*El
			for range ri.cells {
				el := &El{class: mk("?", strT), typ: mk("?", intT), op: mk("?", intT)}
				el.finish()
				els = append(els, el)
			}
			n := 0
			for _, src := range sh.action(ri, els) {
				if src.err != nil || src.panic != "" {
					continue
				}
				n++
				if len(src.elems) >= len(ri.cells) || len(ri.cells) == 0 {
					r.fail(fmt.Sprintf("reduction:%d.%d", i, j), "rule %d of precedence %d of the production rules at %s replaces %d nodes by %d: the reduction does not end", j+1, i+1, pr.site, len(ri.cells), len(src.elems))
				}
			}
			if n == 0 {
				undec("the action of rule %d of precedence %d at %s never succeeds", j+1, i+1, pr.site)
			}
			r.count("reductions", 1)
			r.sample("precedence %d rule %d: %d nodes -> 1", i+1, j+1, len(ri.cells))
		}
	}
}

// caseLeaks checks that no result depends on the letter case of keywords: the
// text of a keyword is a value of which only the lower-case form is known.
func (r *Run) caseLeaks() {
	s := r.shapes()
	in := s.in
	for _, id := range s.sh.order {
		ti := s.sh.trans[id]
		groups := map[string][]*Src{}
		var ord []string
		for _, src := range ti.srcs {
			k := altsKey([]Alt{src.alt}) + "//" + elsKey(src.in.prefix) + "*" + elsKey(src.in.period) + elsKey(src.in.soup)
			if groups[k] == nil {
				ord = append(ord, k)
			}
			groups[k] = append(groups[k], src)
		}
		for _, k := range ord {
			dep := false
			for _, src := range groups[k] {
				r.count("results examined for the spelling of keywords", 1)
				if strings.Contains(src.w.facts.String(), "casevar(") {
					dep = true
				}
				if src.same || src.err != nil || src.panic != "" {
					continue
				}
				for _, v := range src.elems {
					v = in.deep(src.w, src.w.resolve(v))
					st, ok := v.(*StructV)
					if !ok || len(st.f) <= s.sh.fValue {
						continue
					}
					for i, f := range st.f {
						if i == s.sh.fValue {
							if iv, ok := f.(*IfaceV); ok {
								if b, ok := under(iv.dyn).(*types.Basic); ok && b.Kind() == types.String {
									continue // still text: examined where it is used
								}
								f = iv.v
							}
						}
						if t := spelling(f); t != "" {
							r.fail("case-leak:"+ti.g.site+":"+t, "the result of the transformation at %s [%s] contains the keyword %q as it was written: %s", ti.g.site, ti.g.name, t, cut(f.k(), 200))
						}
					}
				}
			}
			if !dep {
				continue
			}
			r.count("decisions on the spelling of keywords", 1)
			first := ""
			for i, src := range groups[k] {
				x := fmt.Sprint(src.same, src.err != nil, src.panic)
				for _, v := range src.elems {
					x += ";" + in.deep(src.w, src.w.resolve(v)).k()
				}
				if i == 0 {
					first = x
				} else if x != first {
					r.fail("case-decision:"+ti.g.site, "the result of the transformation at %s [%s] depends on the letter case of a keyword: %s", ti.g.site, ti.g.name, cut(src.w.facts.String(), 200))
					break
				}
			}
		}
	}
	// the matchers of the reduction rules
	els := map[string]*El{}
	for _, id := range s.sh.order {
		ti := s.sh.trans[id]
		for _, tr := range ti.g.trs {
			if t, ok := tr.(*Term); ok {
				if _, ok := t.x.(*ProdRule); ok {
					for _, src := range ti.srcs {
						for _, el := range src.alt.allEls() {
							if isOperatorEl(el) {
								els[el.key] = el
							}
						}
					}
				}
			}
		}
	}
	for pr, pi := range s.sh.prods {
		for _, ri := range pi.rules {
			for _, c := range ri.cells {
				if c.fn == nil {
					continue
				}
				for _, k := range sortedKeys(els) {
					r.count("matchers examined on keywords", 1)
					if s.sh.matches(c, els[k]) == -1 {
						r.fail(fmt.Sprintf("case-match:%s:%d.%d:%s", pr.site, ri.prec, ri.idx, els[k].val.k()), "whether rule %d of precedence %d of the production rules at %s matches the operator %s depends on its letter case", ri.idx+1, ri.prec+1, pr.site, els[k].val.k())
					}
				}
			}
		}
	}
	r.floor("matchers examined on keywords", 6)
	r.floor("results examined for the spelling of keywords", 500)
}

// spelling finds the spelling of a keyword in a value; conversions that do not
// look at the letter case do not let it through.
func spelling(v Val) string {
	switch x := v.(type) {
	case *Term:
		if x.op == "casevar" {
			return cut(x.args[0].k(), 40)
		}
		if strings.HasPrefix(x.op, "strconv.Parse") {
			return ""
		}
		for _, a := range x.args {
			if t := spelling(a); t != "" {
				return t
			}
		}
	case *StructV:
		for _, a := range x.f {
			if t := spelling(a); t != "" {
				return t
			}
		}
	case *IfaceV:
		return spelling(x.v)
	case *Konst, NilV:
	default:
		if k := v.k(); strings.Contains(k, "casevar(") {
			return "?"
		}
	}
	return ""
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
