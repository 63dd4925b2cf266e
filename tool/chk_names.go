package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Every comparison of strings, every access to a map with string keys, every call of a function that compares strings and every value stored as a key in the normalisation stage is evaluated symbolically: "+
		"a name may be compared or used as a key only after its letter case was folded, by the same folding on both sides.", checkC18)
}

// units are the functions of the package to be analysed on their own: all but
// those small enough to be analysed where they are called.
func (p *Program) units(keep func(string) bool) (units []*ssa.Function, opaque map[*ssa.Function]bool) {
	opaque = map[*ssa.Function]bool{}
	callers := map[*ssa.Function]int{}
	rec := map[*ssa.Function]bool{}
	fns := p.repoFuncs(keep)
	succ := map[*ssa.Function][]*ssa.Function{}
	size := map[*ssa.Function]int{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			size[f] += len(b.Instrs)
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					succ[f] = append(succ[f], mc.Fn.(*ssa.Function))
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Blocks != nil && keep(fnPkg(g)) {
						callers[g]++
						succ[f] = append(succ[f], g)
					}
				}
			}
		}
	}
	for _, f := range fns {
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			for _, h := range succ[g] {
				if !seen[h] {
					seen[h] = true
					walk(h)
				}
			}
		}
		walk(f)
		rec[f] = seen[f]
	}
	for _, f := range fns {
		if f.Parent() != nil {
			continue
		}
		small := !rec[f] && size[f] <= 150
		if !small {
			opaque[f] = true
		}
		if !small || callers[f] == 0 {
			units = append(units, f)
		}
	}
	return
}

// a fold says how the letter case of a string was made uniform.
type fold int

const (
	foldNone  fold = iota // letters as written
	foldAny               // no letters
	foldLower             // lower case, or computed from lower case only
	foldUpper
	foldMixed
)

func (a fold) String() string {
	return [...]string{"as written", "without letters", "in lower case", "in upper case", "folded"}[a]
}

func joinFold(a, b fold) fold {
	switch {
	case a == b:
		return a
	case a == foldNone || b == foldNone:
		return foldNone
	case a == foldAny:
		return b
	case b == foldAny:
		return a
	}
	return foldMixed
}

func constFold(s string) fold {
	lo, up := strings.ToLower(s), strings.ToUpper(s)
	switch {
	case lo == up:
		return foldAny
	case s == lo:
		return foldLower
	case s == up:
		return foldUpper
	}
	return foldNone
}

type namesCheck struct {
	r       *Run
	p       *Program
	f       *Flow
	classes map[string]fold         // members holding strings
	params  map[*ssa.Parameter]fold // string parameters of opaque functions
	rets    map[string]fold         // "function.i" string results
	mapKeys map[string]fold         // by map
	uf      map[string]string       // maps that can be the same
	busy    map[*T]bool
	changed bool
	report  bool
}

func isStr(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (n *namesCheck) find(s string) string {
	for n.uf[s] != "" && n.uf[s] != s {
		s = n.uf[s]
	}
	return s
}

func (n *namesCheck) union(a, b string) {
	a, b = n.find(a), n.find(b)
	if a == b {
		return
	}
	if b < a {
		a, b = b, a
	}
	n.uf[b] = a
	if v, ok := n.mapKeys[b]; ok {
		if w, ok := n.mapKeys[a]; ok {
			v = joinFold(v, w)
		}
		n.mapKeys[a] = v
	}
	n.changed = true
}

// mapID names the maps a value can be.
func (n *namesCheck) mapID(t *T, seen map[*T]bool) string {
	if ls := n.f.alts[t]; len(ls) > 0 && !seen[t] {
		seen[t] = true
		id := "phi " + t.String()
		for _, l := range ls {
			n.union(id, n.mapID(l, seen))
		}
		return n.find(id)
	}
	switch t.op {
	case "load":
		return n.find("member " + n.f.class(t.args[0]))
	case "param":
		if p, ok := t.obj.(*ssa.Parameter); ok {
			return n.find(paramID(p))
		}
	}
	return n.find(t.op + " " + t.String())
}

func paramID(p *ssa.Parameter) string { return "param " + p.Parent().Name() + "." + p.Name() }

// fold says how a string is folded.
func (n *namesCheck) fold(t *T) fold {
	if s, ok := t.strVal(); ok {
		return constFold(s)
	}
	if n.busy[t] {
		return foldAny // decided by the other alternatives
	}
	n.busy[t] = true
	defer delete(n.busy, t)
	if ls := n.f.alts[t]; len(ls) > 0 {
		r := foldAny
		for _, l := range ls {
			r = joinFold(r, n.fold(l))
		}
		return r
	}
	if !isStr(t.typ) && t.op != "list" && t.op != "conv" && t.op != "iface" {
		switch u := under(t.typ).(type) {
		case *types.Basic:
			return foldAny
		case *types.Slice:
			if b, ok := under(u.Elem()).(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				return foldNone
			}
		}
	}
	switch t.op {
	case "const":
		return foldAny
	case "call", "ext":
		c := t
		if t.op == "ext" {
			c = t.args[0]
		}
		if c.op != "call" {
			return foldNone
		}
		switch c.c {
		case "strings.ToLower", nameutl + ".MakeDottedKeyIgnoreCase":
			return foldLower
		case "strings.ToUpper":
			return foldUpper
		case "strings.Title", "strings.ToTitle":
			return foldMixed
		}
		// computed from folded strings only
		if strings.HasPrefix(c.c, "strings.") || strings.HasPrefix(c.c, "strconv.") || strings.HasPrefix(c.c, "fmt.Sprint") ||
			strings.HasPrefix(c.c, "(*encoding/base64.Encoding)") {
			r := foldAny
			for _, a := range c.args {
				if a.typ != nil {
					if _, ok := under(a.typ).(*types.Pointer); ok {
						continue
					}
				}
				r = joinFold(r, n.fold(a))
			}
			return r
		}
		return foldNone
	case "res":
		if s, ok := t.obj.(string); ok {
			if strings.HasPrefix(s, "(*encoding/base64.Encoding)") && len(t.args) > 0 {
				return n.fold(t.args[0])
			}
			i := strings.LastIndex(t.c, ".")
			if v, ok := n.rets[s+t.c[i:]]; ok {
				return v
			}
		}
		return foldNone
	case "list":
		r := foldAny
		for _, a := range t.args {
			r = joinFold(r, n.fold(a))
		}
		return r
	case "conv", "iface":
		return n.fold(t.args[0])
	case "op":
		if t.c == "+" {
			return joinFold(n.fold(t.args[0]), n.fold(t.args[1]))
		}
		return foldNone
	case "slice":
		return n.fold(t.args[0])
	case "load", "field":
		cl := ""
		if t.op == "load" {
			cl = n.f.class(t.args[0])
		}
		if v, ok := n.classes[cl]; ok {
			return v
		}
		return foldNone
	case "key":
		if len(t.args) == 1 && t.args[0].op == "range" {
			if v, ok := n.mapKeys[n.mapID(t.args[0].args[0], map[*T]bool{})]; ok {
				return v
			}
		}
		return foldNone
	case "param":
		if p, ok := t.obj.(*ssa.Parameter); ok {
			if v, ok := n.params[p]; ok {
				return v
			}
		}
		return foldNone
	}
	return foldNone
}

// registered: the string is part of a name kept under its key, or of the name
// of an object. Such names have the spelling of the declaration.
func (n *namesCheck) registered(t *T, seen map[*T]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, l := range n.f.alts[t] {
		if n.registered(l, seen) {
			return true
		}
	}
	if t.op == "load" {
		a := t.args[0]
		if a.op == "ma" && strings.HasPrefix(n.f.class(a), "map map[string][]string") {
			return true
		}
		if a.op == "fa" && a.obj == "types.SoqlObjectInfo.Name" {
			return true
		}
		if a.op == "ia" {
			return n.registered(a.args[0], seen)
		}
		return false
	}
	switch t.op {
	case "app", "appall", "slice", "index":
		for _, a := range t.args {
			if n.registered(a, seen) {
				return true
			}
		}
	}
	return false
}

func hasStr(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasStr(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Array:
		return hasStr(u.Elem(), seen)
	case *types.Interface:
		return true
	}
	return false
}

func (n *namesCheck) fail(key, format string, args ...interface{}) {
	if n.report {
		n.r.fail(key, format, args...)
	}
}

// compare checks one comparison.
func (n *namesCheck) compare(e *FEvent, what string, a, b *T) {
	if s, ok := a.strVal(); ok && constFold(s) == foldAny {
		return
	}
	if s, ok := b.strVal(); ok && constFold(s) == foldAny {
		return
	}
	for _, x := range []*T{a, b} {
		if isNilT(x) || x.typ != nil && types.Identical(x.typ, errorType()) {
			return
		}
		if x.op == "iface" && !hasStr(x.typ, map[types.Type]bool{}) {
			return
		}
	}
	if n.report {
		n.r.count("comparisons of strings", 1)
	}
	fa, fb := n.fold(a), n.fold(b)
	if fa == foldNone && fb == foldNone && n.registered(a, map[*T]bool{}) && n.registered(b, map[*T]bool{}) {
		return
	}
	pos := n.p.instrPos(e.site)
	key := "cmp:" + shortFn(e.ctx.fn) + ":" + what
	if fa == foldNone || fb == foldNone {
		if fa != foldNone {
			a, b, fa, fb = b, a, fb, fa
		}
		n.fail(key, "%s: %s compares %s, a name as it was written, with %s (%s)", pos, what, short(a), short(b), fb)
		return
	}
	if fa == foldLower && fb == foldUpper || fa == foldUpper && fb == foldLower {
		n.fail(key, "%s: %s compares %s (%s) with %s (%s)", pos, what, short(a), fa, short(b), fb)
	}
}

func short(t *T) string {
	s := t.String()
	if len(s) > 80 {
		s = s[:77] + "..."
	}
	return s
}

var stringTests = map[string]bool{"strings.Compare": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.Index": true,
	"strings.LastIndex": true, "strings.Count": true, "strings.Cut": true, "strings.CutPrefix": true, "strings.CutSuffix": true, "slices.Contains": true, "slices.Index": true,
	"slices.Equal": true, "slices.Compare": true, "reflect.DeepEqual": true, "bytes.Equal": true, "bytes.Compare": true, "bytes.HasPrefix": true, "bytes.Contains": true,
	"maps.Equal": true, "sort.SearchStrings": true, "slices.BinarySearch": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true, "cmp.Compare": true,
	"strings.ContainsAny": true, "strings.IndexByte": true, "strings.ContainsRune": true}

func (n *namesCheck) key(e *FEvent, m, k *T) {
	mt, ok := under(m.typ).(*types.Map)
	if !ok || !hasStr(mt.Key(), map[types.Type]bool{}) {
		return
	}
	if n.report {
		n.r.count("accesses to maps by name", 1)
	}
	fk := n.fold(k)
	pos := n.p.instrPos(e.site)
	if fk == foldNone {
		n.fail("key:"+shortFn(e.ctx.fn)+":"+typeKey(m.typ), "%s: %s, a name as it was written, is used as a map key", pos, short(k))
		return
	}
	id := n.mapID(m, map[*T]bool{})
	old, ok := n.mapKeys[id]
	v := fk
	if ok {
		v = joinFold(old, fk)
	}
	if !ok || v != old {
		n.mapKeys[id] = v
		n.changed = true
	}
	if v == foldMixed {
		n.fail("key:"+shortFn(e.ctx.fn)+":"+typeKey(m.typ), "%s: the keys of one map (%s) are folded differently: here %s", pos, id, fk)
	}
}

// stored joins what is stored in members holding strings.
func (n *namesCheck) stored(e *FEvent, a, v *T, typ types.Type) {
	switch u := under(typ).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasStr(u.Field(i).Type(), map[types.Type]bool{}) {
				n.stored(e, n.f.fa(a, typ, i), n.f.field(v, typ, i), u.Field(i).Type())
			}
		}
		return
	case *types.Basic:
		if u.Info()&types.IsString == 0 {
			return
		}
	default:
		return
	}
	cl := n.f.class(a)
	if a.op != "fa" {
		return
	}
	fv := n.fold(v)
	old, ok := n.classes[cl]
	if !ok {
		old = foldNone
	}
	nv := joinFold(old, fv)
	if strings.HasSuffix(cl, ".Key") && strings.HasPrefix(cl, "types.") {
		if n.report {
			n.r.count("stores of keys", 1)
		}
		if fv == foldNone {
			n.fail("store:"+shortFn(e.ctx.fn)+":"+cl, "%s: %s, a name as it was written, is stored as the key %s", n.p.instrPos(e.site), short(v), cl)
		}
	}
	if nv != old {
		n.classes[cl] = nv
		n.changed = true
	}
}

func checkC18(r *Run) {
	p := r.program()
	pkg := modPath + "/soql/parser/postprocess"
	units, opaque := p.units(func(s string) bool { return s == pkg })
	n := &namesCheck{r: r, p: p, classes: map[string]fold{}, params: map[*ssa.Parameter]fold{}, rets: map[string]fold{}, mapKeys: map[string]fold{}, uf: map[string]string{}, busy: map[*T]bool{}}
	n.f = newFlow(p)
	n.f.opaque = opaque
	n.f.noFork = true
	// members that are not written by the parser proper start as folded
	for _, t := range []string{"SoqlFieldInfo", "SoqlObjectInfo"} {
		n.classes["types."+t+".Key"] = foldAny
	}
	for _, fn := range p.repoFuncs(func(s string) bool { return parserPkg(s) && s != pkg && !strings.HasSuffix(s, "/types") }) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isStr(st.Val.Type()) {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					cl := classOf(under(fa.X.Type()).(*types.Pointer).Elem(), fa.Field)
					if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil && constFold(constant.StringVal(c.Value)) == foldAny {
						continue
					}
					if _, ok := n.classes[cl]; ok {
						r.fail("store:"+shortFn(fn)+":"+cl, "%s: the parser proper stores a key", p.instrPos(in))
					}
				}
			}
		}
	}
	var evs []*FEvent
	n.f.onEv = func(e *FEvent) {
		switch e.kind {
		case "cmp", "mapget", "mapset", "mapdel", "call", "store":
			evs = append(evs, e)
		case "return":
			if e.ctx.up == nil {
				evs = append(evs, e)
			}
		}
	}
	for _, u := range units {
		n.f.start(u, nil)
		r.count("functions analysed", 1)
	}
	for _, u := range units {
		for _, q := range u.Params {
			if isStr(q.Type()) {
				n.params[q] = foldAny
			}
		}
		for i := 0; i < u.Signature.Results().Len(); i++ {
			if isStr(u.Signature.Results().At(i).Type()) {
				n.rets[fmt.Sprintf("%s.%d", fullName(u), i)] = foldAny
			}
		}
	}
	for _, u := range units {
		if token.IsExported(u.Name()) {
			for _, q := range u.Params {
				delete(n.params, q)
			}
		}
	}
	for round := 0; ; round++ {
		if round > 40 {
			undec("the folding of names does not settle")
		}
		n.changed = false
		for _, e := range evs {
			n.visit(e)
		}
		if n.report {
			break
		}
		if !n.changed {
			n.report = true
		}
	}
	var cls []string
	for c, v := range n.classes {
		cls = append(cls, c+" "+v.String())
	}
	sort.Strings(cls)
	for _, c := range cls {
		r.sample("member %s", c)
	}
	r.floor("functions analysed", 8)
	r.floor("comparisons of strings", 5)
	r.floor("accesses to maps by name", 30)
	r.floor("stores of keys", 4)
}

func (n *namesCheck) visit(e *FEvent) {
	switch e.kind {
	case "cmp":
		n.compare(e, "a comparison", e.args[0], e.args[1])
	case "mapget", "mapset", "mapdel":
		n.key(e, e.addr, e.args[0])
	case "store":
		n.stored(e, e.addr, e.val, e.val.typ)
	case "return":
		for i, v := range e.args {
			if !isStr(v.typ) {
				continue
			}
			k := fmt.Sprintf("%s.%d", fullName(e.ctx.fn), i)
			if old, ok := n.rets[k]; ok {
				if nv := joinFold(old, n.fold(v)); nv != old {
					n.rets[k] = nv
					n.changed = true
				}
			}
		}
	case "call":
		if stringTests[e.name] {
			args := e.args
			if len(args) >= 2 {
				a, b := args[0], args[1]
				if strings.HasSuffix(e.name, "Any") || strings.HasSuffix(e.name, "Byte") || strings.HasSuffix(e.name, "Rune") {
					break
				}
				if hasStrDeep(a.typ) {
					n.compare(e, e.name, a, b)
				}
			}
		}
		c, ok := e.site.(ssa.CallInstruction)
		if !ok {
			return
		}
		g := c.Common().StaticCallee()
		if g == nil || !n.f.opaque[g] {
			return
		}
		for i, q := range g.Params {
			if i >= len(e.args) {
				break
			}
			if _, ok := under(q.Type()).(*types.Map); ok {
				n.union(n.mapID(e.args[i], map[*T]bool{}), paramID(q))
			}
			if old, ok := n.params[q]; ok {
				if nv := joinFold(old, n.fold(e.args[i])); nv != old {
					n.params[q] = nv
					n.changed = true
				}
			}
		}
	}
}

func hasStrDeep(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return hasStr(u.Elem(), map[types.Type]bool{})
	case *types.Pointer:
		return hasStr(u.Elem(), map[types.Type]bool{})
	}
	return hasStr(t, map[types.Type]bool{})
}
