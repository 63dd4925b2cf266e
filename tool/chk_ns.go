package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "The maps from keys to numbers that the normalisation of a query reads and writes are found by their use. Wherever the normalisation of a subquery of a condition is entered, each of them must be a map made for it; "+
		"at every return reporting success each must again be the one of the entry (by induction over nested queries), and the query itself may neither read nor write the maps made for its subqueries.", checkC19)
}

// spaceOf gives the values of the maps from keys to numbers at the entry of a scenario.
func (s *scen) spaceOf() map[string]*T {
	r := map[string]*T{}
	st := newFState()
	for i, x := range s.fn.Params {
		var walk func(a *T, t types.Type, p string, d int)
		walk = func(a *T, t types.Type, p string, d int) {
			u, ok := under(t).(*types.Struct)
			if n, is := types.Unalias(t).(*types.Named); is && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() != fnPkg(s.fn) {
				return
			}
			if !ok || d > 3 {
				return
			}
			for k := 0; k < u.NumFields(); k++ {
				ft, fp := u.Field(k).Type(), p+"."+u.Field(k).Name()
				fa := s.f.fa(a, t, k)
				switch y := under(ft).(type) {
				case *types.Map:
					if isStr(y.Key()) && isInt(y.Elem()) {
						r[fp] = s.f.load(st, fa, ft)
					}
				case *types.Pointer:
					walk(s.f.load(st, fa, ft), y.Elem(), fp, d+1)
				case *types.Struct:
					walk(fa, ft, fp, d+1)
				}
			}
		}
		if pt, ok := under(x.Type()).(*types.Pointer); ok && i != s.po.qParam {
			walk(s.args[i], pt.Elem(), "", 0)
		}
	}
	return r
}

// usesSpace tells whether a function reads or writes maps from keys to
// numbers, itself or in what it calls.
func (po *post) usesSpace(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] || !isRepoPath(fnPkg(fn)) {
		return false
	}
	seen[fn] = true
	is := func(t types.Type) bool {
		m, ok := under(t).(*types.Map)
		return ok && isStr(m.Key()) && isInt(m.Elem())
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if is(x.Map.Type()) {
					return true
				}
			case *ssa.Lookup:
				if is(x.X.Type()) {
					return true
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && po.usesSpace(c.Common().StaticCallee(), seen) {
				return true
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if po.usesSpace(a, seen) {
			return true
		}
	}
	return false
}

func checkC19(r *Run) {
	po := r.post()
	keys := sortedKeys(po.scen(po.qFn).spaceOf())
	r.count("maps of numbers", len(keys))
	r.sample("maps of numbers: %s", strings.Join(keys, ", "))
	if len(keys) == 0 {
		undec("%s is given no map from keys to numbers", shortFn(po.qFn))
	}
	var tasks []func(r *Run)
	for _, m := range []string{"q.Where[].Value", "q.Having[].Value"} {
		for _, which := range []string{"subquery", "any"} {
			m, which := m, which
			tasks = append(tasks, func(r *Run) { po.on(r).ownSpace(m, which == "subquery", keys) })
		}
	}
	r.par(tasks)
	r.floor("maps of numbers", 2)
	r.floor("uses of the maps", 10)
	r.floor("normalisations of subqueries of conditions", 2)
	r.floor("successful returns", 2)
}

func (po *post) ownSpace(m string, sub bool, keys []string) {
	r := po.r
	s := po.scen(po.qFn)
	list := strings.SplitN(m, "[", 2)[0]
	if sub {
		s.atLeast(list, 1).inlineCalls(m).kind(m, "SubQuery")
		s.num(strings.TrimSuffix(m, ".Value")+".Opcode", po.p.constInt(typesPkg, "SoqlConditionOpcode_FieldInfo"))
		if strings.HasPrefix(m, "q.Having") {
			s.atLeast("q.GroupBy", 1)
		}
	}
	entry := s.spaceOf()
	s.keep = entry
	made := map[*T]bool{}
	type use struct {
		e *FEvent
		m *T
	}
	var us []use
	s.onEv = func(e *FEvent) {
		switch e.kind {
		case "mapset", "mapget", "mapdel":
			us = append(us, use{e, e.addr})
		}
		if c, ok := e.site.(ssa.CallInstruction); ok && e.kind == "call" {
			fn := c.Common().StaticCallee()
			o := ""
			if fc := s.fieldCall(e); fc != nil {
				o = fc.origin
			}
			cond := strings.HasPrefix(o, "q.Where[]") || strings.HasPrefix(o, "q.Having[]")
			if fn != nil && fn != po.qFn && !cond && (s.f.opaque[fn] || s.f.onStack(e.ctx, fn)) && po.usesSpace(fn, map[*ssa.Function]bool{}) {
				r.count("uses of the maps", 1)
				for _, k := range keys {
					if v := s.at(e.st.fork(), entry[k], nil); v != nil {
						for _, x := range s.f.leaves(v) {
							if x != entry[k] && x.op == "makemap" {
								r.fail(m+":used:"+k, "%s: the query is numbered with a map made for the subqueries of its conditions (%s)", po.p.instrPos(e.site), k)
							}
						}
					}
				}
			}
		}
		if !po.isCall(e, po.qFn) || anyIdx(s.path(e.args[po.qParam])) != m+".SubQuery" {
			return
		}
		r.count("normalisations of subqueries of conditions", 1)
		for _, k := range keys {
			v := s.at(e.st.fork(), entry[k], func(a *T) *T {
				for i, x := range s.args {
					if x == a {
						return e.args[i]
					}
				}
				return nil
			})
			if v == nil {
				undec("the map %s is not found at %s", k, po.p.instrPos(e.site))
			}
			for _, x := range s.f.leaves(v) {
				if x.op != "makemap" {
					r.fail(m+":"+k, "%s: the map %s with which a subquery of %s is normalised is not made for it", po.p.instrPos(e.site), k, list)
					return
				}
				made[x] = true
			}
		}
	}
	s.run(nil)
	for _, u := range us {
		for _, x := range s.f.leaves(u.m) {
			if made[x] {
				r.fail(m+":used", "%s: the query uses a map made for the subqueries of its conditions", po.p.instrPos(u.e.site))
			}
		}
	}
	n := 0
	for _, ret := range s.good() {
		n++
		for _, k := range keys {
			if v := s.at(ret.st.fork(), entry[k], nil); v != entry[k] {
				if v != nil {
					same := true
					for _, x := range s.f.leaves(v) {
						same = same && x == entry[k]
					}
					if same {
						continue
					}
				}
				r.fail(m+":left:"+k, "%s can return with success while %s is not the map it was entered with", shortFn(po.qFn), k)
			}
		}
	}
	r.count("successful returns", n)
	if sub && n > 0 && len(made) == 0 {
		r.fail(m+":none", "%s can return with success without normalising a subquery of %s", shortFn(po.qFn), list)
	}
}
