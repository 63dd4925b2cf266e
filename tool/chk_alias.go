package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C29", "Assuming an ORDER BY or GROUP BY key of one name and that the lower-case name is found among the aliases, every turn of the loop over the keys must store what is found into the key, and it may not be resolved as a field; "+
		"assuming it is not found, or a qualified ORDER BY key, every turn must resolve it as a field. The map it is looked up in must get every select item with an alias, under the alias in lower case.", checkC29)
}

func checkC29(r *Run) {
	po := r.post()
	var tasks []func(r *Run)
	for _, m := range []string{"q.OrderBy[].Field", "q.GroupBy[]"} {
		m := m
		tasks = append(tasks, func(r *Run) { po.on(r).aliasKeys(m) })
		tasks = append(tasks, func(r *Run) { po.on(r).notAlias(m, 1) })
		if m == "q.OrderBy[].Field" {
			tasks = append(tasks, func(r *Run) { po.on(r).notAlias(m, 2) })
		}
	}
	r.par(tasks)
	r.floor("kinds of keys", 2)
	r.floor("keys that are no alias", 3)
}

// aliasNames sets the names: keys are QxZ, aliases of select items QxA.
func (s *scen) aliasNames(m string, found int) {
	list := strings.SplitN(m, "[", 2)[0]
	s.atLeast(list, 1).kind(m, "Field").str(m+".Name[]", "QxZ").str("q.Fields[].AliasName", "QxA")
	if list == "q.GroupBy" {
		// the name is qualified before it is looked up
		s.exactly(m+".Name", 2).exactly("q.From[].Name", 1)
	} else {
		s.exactly(m+".Name", 1)
	}
	s.has = func(st *FState, a *T) int {
		if k, ok := a.args[1].strVal(); ok {
			switch k {
			case "qxz":
				return found
			case "qxa":
				return 0
			}
		}
		return -1
	}
}

// fromLookup tells in which map a value was found under a key.
func (s *scen) fromLookup(v *T, key string) *T {
	at := func(v *T) (m *T) {
		v.has(func(t *T) bool {
			if t.op == "ma" {
				if k, ok := t.args[1].strVal(); ok && k == key {
					m = t.args[0]
					return true
				}
			}
			return false
		})
		return
	}
	if v.op != "struct" {
		return at(v)
	}
	var m *T
	for _, x := range v.args {
		for _, y := range s.f.leaves(x) {
			n := y
			var z *T
			if n.op == "struct" {
				z = s.fromLookup(n, key)
			} else {
				z = at(n)
			}
			if z == nil || m != nil && z != m {
				return nil
			}
			m = z
		}
	}
	return m
}

// listIdx tells which element of a list a value stands for: its address, its
// index or a copy.
func (s *scen) listIdx(v *T, list string) *T {
	switch {
	case v.op == "ia" && anyIdx(s.path(v)) == list+"[]":
		return v.args[1]
	case v.op == "load":
		return s.listIdx(v.args[0], list)
	case v.op == "fa":
		return s.listIdx(v.args[0], list)
	case v.op == "struct" && len(v.args) > 0:
		for _, x := range v.args {
			if i := s.listIdx(x, list); i != nil {
				return i
			}
		}
	case isInt(v.typ) && (v.op == "phi" || v.op == "add"):
		return v
	}
	return nil
}

func (po *post) aliasKeys(m string) {
	r := po.r
	list := strings.SplitN(m, "[", 2)[0]
	r.count("kinds of keys", 1)
	// storing what was found
	stored := func(s *scen, e *FEvent) (idx, mp *T) {
		if e.kind != "store" || anyIdx(s.path(e.addr)) != m {
			return nil, nil
		}
		mp = s.fromLookup(e.val, "qxz")
		if mp == nil {
			return nil, nil
		}
		a := e.addr
		for a.op == "fa" {
			a = a.args[0]
		}
		if a.op != "ia" {
			return nil, nil // a local copy
		}
		return a.args[1], mp
	}
	maps := map[*T]bool{}
	s := po.scen(po.qFn)
	s.aliasNames(m, 1)
	asField := ""
	type rec struct{ m, k, v *T }
	var recs []rec
	s.onEv = func(e *FEvent) {
		if c := s.fieldCall(e); c != nil && c.origin == m && list == "q.OrderBy" {
			asField = po.p.instrPos(e.site)
		}
		if i, mp := stored(s, e); i != nil {
			maps[mp] = true
		}
		if e.kind == "mapset" {
			recs = append(recs, rec{e.addr, e.args[0], e.val})
		}
	}
	s.run(nil)
	if len(maps) == 0 {
		r.fail(m+":found", "a key of %s that is found among the aliases of the select list is not replaced by the item in %s", list, shortFn(po.qFn))
		return
	}
	if asField != "" {
		r.fail(m+":field", "%s: a key of %s that is the alias of a select item is resolved as a field name", asField, list)
	}
	var idx *T
	for mp := range maps {
		for _, x := range s.f.leaves(mp) {
			ok := false
			for _, rc := range recs {
				if rc.m != x && rc.m != mp {
					continue
				}
				k, isC := rc.k.strVal()
				if i := s.listIdx(rc.v, "q.Fields"); isC && k == "qxa" && i != nil {
					ok = true
					idx = i
				}
			}
			if !ok {
				r.fail(m+":map", "the map in which keys of %s are looked up in %s does not get the select items under their aliases in lower case", list, shortFn(po.qFn))
				return
			}
		}
	}
	// each key
	if ok, why := po.everyTurn(po.qFn, func(s *scen) { s.aliasNames(m, 1) }, func(s *scen, e *FEvent) *T {
		i, _ := stored(s, e)
		return i
	}); !ok {
		r.fail(m+":every", "not every key of %s that is the alias of a select item is replaced by it in %s: %s", list, shortFn(po.qFn), why)
	}
	// each alias
	s = po.scen(po.qFn)
	s.atLeast("q.Fields", 1)
	s.aliasNames(m, 1)
	idx = nil
	fill := func(s *scen, e *FEvent) *T {
		if e.kind != "mapset" {
			return nil
		}
		if _, isMap := under(e.addr.typ).(*types.Map); !isMap {
			return nil
		}
		if k, ok := e.args[0].strVal(); !ok || k != "qxa" {
			return nil
		}
		return s.listIdx(e.val, "q.Fields")
	}
	s.onEv = func(e *FEvent) {
		if i := fill(s, e); i != nil {
			idx = i
		}
	}
	s.run(nil)
	if ok, why := s.visitsAll(idx, "q.Fields"); !ok {
		r.fail(m+":aliases", "not every alias of the select list is recorded in %s: %s", shortFn(po.qFn), why)
	}
	if ok, why := po.everyTurn(po.qFn, func(s *scen) { s.aliasNames(m, 1) }, fill); !ok {
		r.fail(m+":aliases", "not every alias of the select list is recorded in %s: %s", shortFn(po.qFn), why)
	}
}

// notAlias: a key that is not found, or is qualified, is a field.
func (po *post) notAlias(m string, parts int) {
	r := po.r
	r.count("keys that are no alias", 1)
	list := strings.SplitN(m, "[", 2)[0]
	if ok, why := po.everyTurn(po.qFn, func(s *scen) {
		s.aliasNames(m, parts-1)
		if list == "q.OrderBy" {
			s.exactly(m+".Name", parts)
		}
	}, func(s *scen, e *FEvent) *T {
		if c := s.fieldCall(e); c != nil && c.origin == m {
			return s.originIdx(e.st, c.args[po.fParam])
		}
		return nil
	}); !ok {
		r.fail(m+":field"+strings.Repeat("'", parts-1), "not every key of %s that is no alias (%d names) is resolved as a field in %s: %s", list, parts, shortFn(po.qFn), why)
	}
}
