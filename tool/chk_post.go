package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "The normalisation stage is analysed by dataflow under the assumption that the statement contains a forbidden construct (kinds, names, argument counts, answers of look-ups): no return reporting success may be reachable. "+
		"What detects a second use of an alias or column must be recorded for every element before the loop goes on, in a map made outside the loop, and the loop must visit every element. Permitted constructs are analysed the same way and must be able to succeed.", checkC24)
}

// inlineCalls makes calls for a member of the query (and its parameters) be
// analysed in place.
func (s *scen) inlineCalls(origin string) *scen {
	s.inl = append(s.inl, origin)
	return s
}

// where gives the position of a return.
func (s *scen) where(rs []FRet) string {
	if len(rs) == 0 {
		return shortFn(s.fn)
	}
	return shortFn(s.fn)
}

type ruleCase struct {
	key, text string
	ok        bool // it must be possible
	set       func(s *scen)
}

// cases runs scenarios of the function that normalises a query.
func (po *post) cases(cs []ruleCase) (tasks []func(r *Run)) {
	for _, c := range cs {
		c := c
		if k := os.Getenv("CASE"); k != "" && c.key != k {
			continue
		}
		tasks = append(tasks, func(r *Run) {
			s := po.on(r).scen(po.qFn)
			c.set(s)
			can := s.run(nil)
			switch {
			case can && !c.ok:
				r.fail(c.key, "%s: %s reports success for it (%s)", c.text, shortFn(po.qFn), s.paths())
			case !can && c.ok:
				r.fail(c.key, "%s: %s never succeeds for it", c.text, shortFn(po.qFn))
			}
			if c.ok {
				r.count("permitted constructs", 1)
			} else {
				r.count("forbidden constructs", 1)
			}
			r.sample("%s: %s", c.key, c.text)
		})
	}
	return
}

// on gives the same analysis reporting to another run.
func (po *post) on(r *Run) *post {
	x := *po
	x.r = r
	return &x
}

// paths describes the successful returns.
func (s *scen) paths() string {
	n := 0
	for _, r := range s.good() {
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println("  return", r.vals, len(r.st.facts))
			var fs []string
			for k, v := range r.st.facts {
				if !k.has(func(t *T) bool { return t.op == "res" }) {
					fs = append(fs, fmt.Sprint(k, v))
				}
			}
			sort.Strings(fs)
			for _, x := range fs {
				fmt.Println("    ", x)
			}
		}
		n++
	}
	return fmt.Sprintf("%d successful return(s) reachable in %s", n, s.po.p.pos(s.fn))
}

func checkC24(r *Run) {
	po := r.post()
	var cs []ruleCase
	add := func(key, text string, ok bool, set func(s *scen)) {
		cs = append(cs, ruleCase{key, text, ok, set})
	}
	fn := func(s *scen, m, name string) {
		s.kind(m, "Function").exactly(m+".Name", 1).str(m+".Name[]", name)
	}
	list := func(m string) string { return "q." + strings.SplitN(strings.TrimPrefix(m, "q."), "[", 2)[0] }
	at := func(s *scen, m string) {
		s.atLeast(list(m), 1).inlineCalls(m)
		if strings.HasSuffix(m, ".Value") {
			s.num(strings.TrimSuffix(m, ".Value")+".Opcode", po.p.constInt(typesPkg, "SoqlConditionOpcode_FieldInfo"))
		}
		if strings.HasPrefix(m, "q.Having") {
			s.atLeast("q.GroupBy", 1)
		}
	}
	const sel, whr, hav, grp, ord = "q.Fields[]", "q.Where[].Value", "q.Having[].Value", "q.GroupBy[]", "q.OrderBy[].Field"
	member := map[string]string{sel: "the select list", whr: "WHERE", hav: "HAVING", grp: "GROUP BY", ord: "ORDER BY"}
	for _, m := range []string{whr, hav, grp} {
		m := m
		add("fields:"+m, "FIELDS() in "+member[m], false, func(s *scen) {
			at(s, m)
			fn(s, m, "FieldS")
			s.exactly(m+".Parameters", 1).kind(m+".Parameters[]", "Field")
		})
	}
	for _, m := range []string{whr, grp} {
		m := m
		for _, name := range []string{"couNT", "count_DISTINCT"} {
			name := name
			add(strings.ToLower(name)+":"+m, strings.ToUpper(name)+" in "+member[m], false, func(s *scen) {
				at(s, m)
				fn(s, m, name)
				s.exactly(m+".Parameters", 1).kind(m+".Parameters[]", "Field")
			})
		}
	}
	add("fields:nested", "FIELDS() as an argument", false, func(s *scen) {
		at(s, sel)
		fn(s, sel, "abs")
		s.atLeast(sel+".Parameters", 1)
		fn(s, sel+".Parameters[]", "FIELDS")
		s.exactly(sel+".Parameters[].Parameters", 1).kind(sel+".Parameters[].Parameters[]", "Field")
	})
	add("fields:aggregation", "FIELDS() in an aggregation", false, func(s *scen) {
		at(s, sel)
		fn(s, sel, "fields")
		s.bool("q.IsAggregation", true)
		s.exactly(sel+".Parameters", 1).kind(sel+".Parameters[]", "Field")
	})
	kinds := []string{"Function", "SubQuery", "Literal_String", "Literal_Int", "Literal_List", "ParameterizedValue", "DateTimeLiteralName"}
	for _, n := range []int{0, 2} {
		n := n
		add(fmt.Sprintf("fields:%d", n), fmt.Sprintf("FIELDS() with %d arguments", n), false, func(s *scen) {
			at(s, sel)
			fn(s, sel, "fields")
			s.exactly(sel+".Parameters", n).kind(sel+".Parameters[]", "Field")
		})
	}
	for _, k := range kinds {
		k := k
		add("fields:"+k, "FIELDS() of a "+k, false, func(s *scen) {
			at(s, sel)
			fn(s, sel, "fields")
			s.exactly(sel+".Parameters", 1).kind(sel+".Parameters[]", k)
		})
	}
	add("fields", "FIELDS(name) in the select list", true, func(s *scen) {
		at(s, sel)
		fn(s, sel, "fields")
		s.exactly(sel+".Parameters", 1).kind(sel+".Parameters[]", "Field")
	})
	for _, m := range []string{sel, hav} {
		m := m
		for name, bad := range map[string][]int{"count": {2, 3}, "count_distinct": {0, 2}} {
			name := name
			for _, n := range bad {
				n := n
				add(fmt.Sprintf("%s:%s:%d", name, m, n), fmt.Sprintf("%s with %d arguments in %s", strings.ToUpper(name), n, member[m]), false, func(s *scen) {
					at(s, m)
					fn(s, m, name)
					s.exactly(m+".Parameters", n).kind(m+".Parameters[]", "Field")
				})
			}
			for _, k := range kinds {
				k := k
				add(fmt.Sprintf("%s:%s:%s", name, m, k), fmt.Sprintf("%s of a %s in %s", strings.ToUpper(name), k, member[m]), false, func(s *scen) {
					at(s, m)
					fn(s, m, name)
					s.exactly(m+".Parameters", 1).kind(m+".Parameters[]", k)
				})
			}
			add(name+":"+m, strings.ToUpper(name)+"(name) in "+member[m], true, func(s *scen) {
				at(s, m)
				fn(s, m, name)
				s.exactly(m+".Parameters", 1).kind(m+".Parameters[]", "Field")
			})
		}
		add("count:0:"+m, "COUNT() in "+member[m], true, func(s *scen) { at(s, m); fn(s, m, "count"); s.exactly(m+".Parameters", 0) })
	}
	add("having", "HAVING without GROUP BY", false, func(s *scen) { s.atLeast("q.Having", 1).nil_("q.GroupBy") })
	add("having:with", "HAVING with GROUP BY", true, func(s *scen) { s.atLeast("q.Having", 1).atLeast("q.GroupBy", 1) })
	add("aggregation:subquery", "a subquery selected by an aggregation", false, func(s *scen) {
		s.atLeast("q.Fields", 1).kind(sel, "SubQuery").bool("q.IsAggregation", true)
	})
	places := po.places()
	for _, pl := range places {
		pl := pl
		add("qualified:"+pl.name, "a qualified primary object ("+pl.name+")", !pl.plain, func(s *scen) {
			s.args[po.place] = s.retype(pl.v)
			s.atLeast("q.From", 1).exactly("q.From[].Name", 2)
		})
	}
	tasks := po.cases(cs)
	dup := func(what, list string, paths []string, set func(s *scen), name bool) {
		tasks = append(tasks, func(r *Run) { po.on(r).duplicates(what, list, paths, set, name) })
	}
	dup("object alias", "q.From", []string{"q.From[].AliasName"}, nil, true)
	for _, k := range []string{"Field", "Function", "SubQuery"} {
		k := k
		dup("alias of a "+k, "q.Fields", []string{"q.Fields[].AliasName"}, func(s *scen) {
			s.kind(sel, k).inlineCalls(sel)
			if k == "Function" {
				fn(s, sel, "abs")
				s.exactly(sel+".Parameters", 0)
			}
		}, true)
	}
	dup("GROUP BY column", "q.GroupBy", []string{"q.GroupBy[].ColumnId", "q.GroupBy[].Key"}, nil, false)
	dup("ORDER BY column", "q.OrderBy", []string{"q.OrderBy[].Field.ColumnId", "q.OrderBy[].Field.Key"}, nil, false)
	tasks = append(tasks, po.countAggregates()...)
	tasks = append(tasks, po.loopsOver(sel, whr, hav, grp, ord)...)
	r.par(tasks)
	r.floor("forbidden constructs", 40)
	r.floor("permitted constructs", 8)
	r.floor("detections of a second use", 6)
	r.floor("loops over members", 7)
}

type placeArg struct {
	name  string
	v     *T
	plain bool // the primary object must not be qualified there
}

// places are the arguments that tell where a query stands.
func (po *post) places() []placeArg {
	pa := []placeArg{{"the statement", po.top[po.place], true}}
	for _, m := range []string{"q.Fields[]", "q.Where[].Value", "q.Having[].Value"} {
		s := po.scen(po.qFn)
		s.kind(m, "SubQuery").inlineCalls(m)
		var v *T
		s.onEv = func(e *FEvent) {
			if e.kind != "call" {
				return
			}
			c, ok := e.site.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() != po.qFn {
				return
			}
			x := e.args[po.place]
			if x.op != "const" || v != nil && v.c != x.c {
				undec("the place of the subqueries of %s is not constant", m)
			}
			v = x
		}
		s.run(nil)
		if v == nil {
			undec("no call of %s for the subqueries of %s was found", shortFn(po.qFn), m)
		}
		pa = append(pa, placeArg{"a subquery in " + m, v, m != "q.Fields[]"})
	}
	return pa
}

// onlyOn tells whether everything a term reads is at one of the paths.
func (s *scen) onlyOn(t *T, paths []string) bool {
	n := 0
	ok := true
	seen := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		switch t.op {
		case "load":
			p := anyIdx(s.path(t.args[0]))
			for _, x := range paths {
				if p == x {
					n++
					return
				}
			}
			ok = false
			return
		case "const":
			return
		case "phi":
			if !seen[t] {
				seen[t] = true
				for _, x := range s.f.alts[t] {
					walk(x)
				}
			}
			return
		case "res", "sym", "param", "alloc":
			ok = false
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return ok && n > 0
}

// duplicates checks that two elements of a list with the same key are rejected.
func (po *post) duplicates(what, list string, paths []string, set func(s *scen), name bool) {
	mk := func(has int) *scen {
		s := po.scen(po.qFn)
		s.atLeast(list, 1)
		if name {
			for _, p := range paths {
				s.atLeast(p, 1)
			}
		}
		if set != nil {
			set(s)
		}
		s.has = func(st *FState, a *T) int {
			if s.onlyOn(a.args[1], paths) {
				return has
			}
			return -1
		}
		return s
	}
	po.r.count("detections of a second use", 1)
	if s := mk(1); s.run(nil) {
		po.r.fail("dup:"+what, "a second %s that is equal: %s reports success for it (%s)", what, shortFn(po.qFn), s.paths())
		return
	}
	s := mk(0)
	var idx *T
	type ask struct{ m, k *T }
	asked := map[ask]bool{}
	fresh := true
	s.onEv = func(e *FEvent) {
		if e.kind == "mapget" && s.onlyOn(e.args[0], paths) {
			asked[ask{e.addr, e.args[0]}] = true
			e.args[0].has(func(t *T) bool {
				if t.op == "ia" && anyIdx(s.path(t)) == list+"[]" {
					idx = t.args[1]
				}
				if i := s.copyIdx[t]; i != nil && strings.HasPrefix(s.copies[t], list+"[") {
					idx = i
				}
				return false
			})
			m := e.addr
			if m.op != "makemap" {
				fresh = false
				return
			}
			if idx != nil {
				b, _ := splitAdd(idx)
				if b.op == "phi" && inLoop(m, b.ctx, b.blk) {
					fresh = false
				}
			}
		}
	}
	s.run(nil)
	if len(asked) == 0 {
		po.r.fail("dup:"+what, "a second %s that is equal is not looked for in %s", what, shortFn(po.qFn))
		return
	}
	if !fresh {
		po.r.fail("dup:"+what, "the map in which a second %s is looked for is not one made for the whole loop in %s", what, shortFn(po.qFn))
	}
	if ok, why := s.visitsAll(idx, list); !ok {
		po.r.fail("dup:"+what, "not every %s is compared with the earlier ones in %s: %s", what, shortFn(po.qFn), why)
	}
	// not found: it must be recorded
	s = mk(0)
	s.stop = func(e *FEvent) bool { return e.kind == "mapset" && asked2(s, e, paths) }
	if s.run(nil) {
		po.r.fail("dup:"+what, "the %s of an element is not recorded in %s, so a second one is not found", what, shortFn(po.qFn))
	}
}

func asked2(s *scen, e *FEvent, paths []string) bool {
	k := e.args[0]
	if !s.onlyOn(k, paths) {
		return false
	}
	// it was looked up under this key in this map
	for a := range e.st.mem {
		if a.op == "ma" && a.args[0] == e.addr && a.args[1] == k {
			return true
		}
	}
	return false
}

// countAggregates: COUNT makes the query an aggregation.
func (po *post) countAggregates() (tasks []func(r *Run)) {
	for _, name := range []string{"count", "count_distinct"} {
		for _, n := range []int{0, 1} {
			if n == 0 && name == "count_distinct" {
				continue
			}
			name, n := name, n
			tasks = append(tasks, func(r *Run) {
				s := po.on(r).scen(po.qFn)
				const m = "q.Fields[]"
				s.atLeast("q.Fields", 1).inlineCalls(m)
				s.kind(m, "Function").exactly(m+".Name", 1).str(m+".Name[]", name).exactly(m+".Parameters", n).kind(m+".Parameters[]", "Field")
				set := false
				s.stop = func(e *FEvent) bool {
					if e.kind == "store" && s.path(e.addr) == "q.IsAggregation" {
						if v, ok := e.val.boolVal(); ok && v {
							set = true
							return true
						}
					}
					return false
				}
				r.count("forbidden constructs", 1)
				if s.run(nil) || !set {
					r.fail("aggregation:"+name, "%s with %d arguments in the select list does not make the query an aggregation in %s", strings.ToUpper(name), n, shortFn(po.qFn))
				}
			})
		}
	}
	return
}

// loopsOver checks that the calls for members visit every element.
func (po *post) loopsOver(ms ...string) (tasks []func(r *Run)) {
	for _, m := range ms {
		kinds := []string{"Function"}
		if m == "q.Fields[]" || strings.HasSuffix(m, ".Value") {
			kinds = append(kinds, "SubQuery")
		}
		for _, k := range kinds {
			m, k := m, k
			tasks = append(tasks, func(r *Run) {
				list := strings.SplitN(m, "[", 2)[0]
				set := func(s *scen) {
					s.atLeast(list, 1).kind(m, k)
					if strings.HasSuffix(m, ".Value") {
						s.num(list+"[].Opcode", po.p.constInt(typesPkg, "SoqlConditionOpcode_FieldInfo"))
					}
					if m == "q.OrderBy[].Field" {
						s.has = func(st *FState, a *T) int {
							if s.onlyOn(a.args[1], []string{m + ".Name", m + ".Name[]"}) {
								return 0
							}
							return -1
						}
					}
				}
				s := po.on(r).scen(po.qFn)
				set(s)
				var idx *T
				s.stop = func(e *FEvent) bool {
					c := s.fieldCall(e)
					return c != nil && c.origin == m
				}
				r.count("loops over members", 1)
				if s.run(nil) {
					r.fail("loop:"+m+":"+k, "%s can succeed without normalising the first of %s when it is a %s", shortFn(po.qFn), m, k)
					return
				}
				s.stop = nil
				s.onEv = func(e *FEvent) {
					if c := s.fieldCall(e); c != nil && c.origin == m {
						idx = s.originIdx(e.st, c.args[po.fParam])
					}
				}
				s.run(nil)
				if ok, why := s.visitsAll(idx, list); !ok {
					r.fail("loop:"+m+":"+k, "not every element of %s is normalised in %s when it is a %s: %s", m, shortFn(po.qFn), k, why)
				}
				if ok, why := po.on(r).everyTurn(po.qFn, set, func(s *scen, e *FEvent) *T {
					if c := s.fieldCall(e); c != nil && c.origin == m {
						return s.originIdx(e.st, c.args[po.fParam])
					}
					return nil
				}); !ok {
					r.fail("loop:"+m+":"+k, "not every element of %s is normalised in %s when it is a %s: %s", m, shortFn(po.qFn), k, why)
				}
			})
		}
	}
	return
}
