package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "For every constant of the enumerations of the parsed query (except the end marker) MarshalJSON is evaluated to its constant result, which must be a JSON string of its own, "+
		"different from that of undefined values; UnmarshalJSON evaluated on exactly these bytes must store the same constant.", checkC15)
	register("C16", "Every type that is visible in the JSON of a query is enumerated. A type without its own decoder must have only members that encoding/json restores; every decoder is evaluated "+
		"with each member of the JSON object as a symbol, for every type tag: each visible member must receive the JSON member of its own name, and the literal value must be decoded as the Go type of its tag. "+
		"Every encoder must write the members under the names that are decoded.", checkC16)
}

// jsonField is a member visible in JSON.
type jsonField struct {
	name  string
	path  []int // through embedded structs
	typ   types.Type
	str   bool // ,string
	depth int
	tag   bool
	omit  bool
}

// jsonFields lists the members encoding/json sees.
func jsonFields(t types.Type) []jsonField {
	var all []jsonField
	var walk func(st *types.Struct, path []int, depth int)
	walk = func(st *types.Struct, path []int, depth int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			name := parts[0]
			p := append(append([]int{}, path...), i)
			if f.Embedded() {
				ft := f.Type()
				if pt, ok := under(ft).(*types.Pointer); ok {
					ft = pt.Elem()
				}
				if st2, ok := under(ft).(*types.Struct); ok && name == "" {
					if depth > 4 {
						undec("embedded structs of %s are nested too deeply", typeKey(t))
					}
					walk(st2, p, depth+1)
					continue
				}
				if !f.Exported() {
					continue
				}
			} else if !f.Exported() {
				continue
			}
			jf := jsonField{name: name, path: p, typ: f.Type(), depth: depth, tag: name != ""}
			if name == "" {
				jf.name = f.Name()
			}
			for _, o := range parts[1:] {
				if o == "string" {
					jf.str = true
				}
				if o == "omitempty" || o == "omitzero" {
					jf.omit = true
				}
			}
			all = append(all, jf)
		}
	}
	st, ok := under(t).(*types.Struct)
	if !ok {
		return nil
	}
	walk(st, nil, 0)
	// Go's dominance rules
	var r []jsonField
	for i, f := range all {
		best := true
		for j, g := range all {
			if i == j || g.name != f.name {
				continue
			}
			if g.depth < f.depth || g.depth == f.depth && (g.tag && !f.tag || g.tag == f.tag) {
				best = false
			}
		}
		if best {
			r = append(r, f)
		}
	}
	return r
}

// jsonMethod finds a method of t or *t, and whether it needs a pointer.
func (in *Interp) jsonMethod(t types.Type, name string) (*ssa.Function, bool) {
	prog := in.p.Prog
	for i, x := range []types.Type{t, types.NewPointer(t)} {
		ms := prog.MethodSets.MethodSet(x)
		for j := 0; j < ms.Len(); j++ {
			if o := ms.At(j).Obj(); o.Name() == name && o.Exported() {
				sel := ms.At(j)
				fn := prog.MethodValue(sel)
				return fn, i == 1
			}
		}
	}
	return nil, false
}

// isEnum: a defined integer type of the repository with constants.
func (p *Program) enumConsts(t types.Type) []*types.Const {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
		return nil
	}
	if b, ok := under(t).(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	var r []*types.Const
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		if c, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(c.Type(), t) {
			r = append(r, c)
		}
	}
	sort.Slice(r, func(i, j int) bool { return constInt(r[i]) < constInt(r[j]) })
	return r
}

func constInt(c *types.Const) int64 {
	n, _ := strconv.ParseInt(c.Val().ExactString(), 10, 64)
	return n
}

// visible enumerates the types that appear in the JSON of a query. The types
// are visited with whether their values are addressable there.
func (r *Run) jsonTypes(in *Interp) (order []types.Type, addr map[string]bool, edges map[string][]string) {
	addr = map[string]bool{}
	edges = map[string][]string{}
	seen := map[string]bool{}
	var walk func(t types.Type, a bool, from string)
	walk = func(t types.Type, a bool, from string) {
		t = types.Unalias(t)
		k := typeKey(t)
		if from != "" {
			edges[from] = append(edges[from], k)
		}
		sk := k + fmt.Sprint(a)
		if seen[sk] {
			return
		}
		seen[sk] = true
		if _, ok := addr[k]; !ok {
			order = append(order, t)
			addr[k] = a
		}
		addr[k] = addr[k] && a
		if n, ok := t.(*types.Named); ok && (n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path())) {
			return
		}
		switch u := under(t).(type) {
		case *types.Pointer:
			walk(u.Elem(), true, k)
		case *types.Slice:
			walk(u.Elem(), true, k)
		case *types.Array:
			walk(u.Elem(), a, k)
		case *types.Map:
			walk(u.Key(), false, k)
			walk(u.Elem(), false, k)
		case *types.Struct:
			for _, f := range jsonFields(t) {
				walk(f.typ, a, k)
			}
		}
	}
	walk(in.p.namedType(typesPkg, "SoqlQuery"), true, "")
	// the types stored in the interface members, from the table of literals
	for _, tg := range sortedKeys(tagTypes) {
		if t := in.tagType(tg); t != nil {
			walk(t, false, "interface")
		}
	}
	r.counts["types visible in JSON"] = len(order)
	r.floor("types visible in JSON", 15)
	return order, addr, edges
}

// tagTypes is the documented Go type of the value of each type tag.
var tagTypes = map[string]string{
	"Literal_Int": "int64", "Literal_Float": "float64", "Literal_Bool": "bool", "Literal_String": "string",
	"Literal_Blob": "[]byte", "Literal_Date": "time.Time", "Literal_DateTime": "time.Time", "Literal_Time": "time.Time",
	"Literal_DateTimeRange": "types.SoqlTimeRange", "Literal_List": "[]types.SoqlListItem",
	"DateTimeLiteralName": "types.SoqlDateTimeLiteralName",
}

func (in *Interp) tagType(tag string) types.Type {
	switch s := tagTypes[tag]; s {
	case "int64":
		return types.Typ[types.Int64]
	case "float64":
		return types.Typ[types.Float64]
	case "bool":
		return types.Typ[types.Bool]
	case "string":
		return types.Typ[types.String]
	case "[]byte":
		return types.NewSlice(types.Typ[types.Byte])
	case "time.Time":
		return in.p.namedType("time", "Time")
	case "[]types.SoqlListItem":
		return types.NewSlice(in.p.namedType(typesPkg, "SoqlListItem"))
	case "":
		return nil
	default:
		return in.p.namedType(typesPkg, strings.TrimPrefix(s, "types."))
	}
}

func newWorld(in *Interp) *World {
	return &World{heap: in.base.fork(), facts: newFacts(), ghost: map[string]Val{}}
}

// cell makes a variable and gives a pointer to it.
func (in *Interp) cell(w *World, t types.Type, v Val) *PtrV {
	return &PtrV{obj: in.alloc(w, &Obj{kind: 'c', typ: t, v: v, tag: "cell"})}
}

// enumNames evaluates the encoder of an enumeration for one value.
func (in *Interp) enumName(fn *ssa.Function, ptr bool, t types.Type, v Val) (w *World, res Val, text string) {
	w = newWorld(in)
	arg := v
	if ptr {
		arg = in.cell(w, t, v)
	}
	outs := in.apply(w, nil, &FuncV{fn: fn}, []Val{arg})
	if len(outs) != 1 || outs[0].panic {
		undec("the encoding of the constant %s of %s has %d outcomes", v.k(), typeKey(t), len(outs))
	}
	o := outs[0]
	tv, ok := o.res.(*TupleV)
	if !ok || o.w.truth(eqVal(o.w.resolve(tv.v[1]), NilV{})) != 1 {
		return o.w, nil, ""
	}
	s, ok := asStr(in.convert(o.w, o.w.resolve(tv.v[0]), types.NewSlice(types.Typ[types.Byte]), strT))
	if !ok {
		undec("the encoding of the constant %s of %s is not a constant: %s", v.k(), typeKey(t), tv.v[0].k())
	}
	return o.w, tv.v[0], s
}

func checkC15(r *Run) {
	in := r.interp()
	done := 0
	order, addr, _ := r.jsonTypes(in)
	for _, t := range order {
		cs := in.p.enumConsts(t)
		if len(cs) < 2 {
			continue
		}
		ty := shortType(t)
		enc, ptr := in.jsonMethod(t, "MarshalJSON")
		dec, dptr := in.jsonMethod(t, "UnmarshalJSON")
		text := false
		if enc == nil && dec == nil {
			enc, ptr = in.jsonMethod(t, "MarshalText")
			dec, dptr = in.jsonMethod(t, "UnmarshalText")
			text = true
		}
		if enc == nil || dec == nil {
			r.fail("enum:"+ty, "the enumeration %s has no encoder and decoder of names", ty)
			continue
		}
		if ptr && !addr[typeKey(t)] {
			r.fail("enum-ptr:"+ty, "values of %s that are not addressable are not encoded by its name", ty)
		}
		if !dptr {
			r.fail("enum-dec:"+ty, "the decoder of %s cannot change its receiver", ty)
			continue
		}
		done++
		names := map[string]string{}
		_, _, undef := in.enumName(enc, ptr, t, kInt(9999))
		for _, c := range cs {
			if strings.Contains(c.Name(), "EndOfConst") {
				continue
			}
			r.count("constants encoded and decoded", 1)
			v := kInt(constInt(c))
			w, res, s := in.enumName(enc, ptr, t, v)
			if res == nil {
				r.fail("enum:"+c.Name(), "encoding %s gives an error", c.Name())
				continue
			}
			nm := s
			if !text {
				u, err := strconv.Unquote(s)
				if err != nil || strings.ContainsAny(u, "\"\\\n\r\t") || u == "" {
					r.fail("enum:"+c.Name(), "the encoding of %s is not a JSON string: %s", c.Name(), s)
					continue
				}
				nm = u
			}
			if nm == strings.Trim(undef, `"`) {
				r.fail("enum:"+c.Name(), "%s has no name of its own: it is encoded as %s as undefined values are", c.Name(), s)
			}
			if o, dup := names[nm]; dup {
				r.fail("enum:"+c.Name(), "%s and %s are both encoded as %s", o, c.Name(), s)
			}
			names[nm] = c.Name()
			// decode
			p := in.cell(w, t, kInt(-77))
			outs := in.apply(w, nil, &FuncV{fn: dec}, []Val{p, res})
			if len(outs) != 1 || outs[0].panic {
				undec("decoding %s of %s has %d outcomes", s, ty, len(outs))
			}
			o := outs[0]
			if o.w.truth(eqVal(o.w.resolve(o.res), NilV{})) != 1 {
				r.fail("enum-dec:"+c.Name(), "decoding %s gives the error %s", s, show(o.res))
				continue
			}
			got := o.w.resolve(in.load(o.w, p))
			if n, ok := asInt(got); !ok {
				undec("decoding %s of %s gives %s", s, ty, got.k())
			} else if n != constInt(c) {
				r.fail("enum-dec:"+c.Name(), "%s is encoded as %s but that is decoded as %d instead of %d", c.Name(), s, n, constInt(c))
			}
			r.sample("%s <-> %s", c.Name(), s)
		}
	}
	r.counts["enumerations"] = done
	r.floor("enumerations", 2)
	r.floor("constants encoded and decoded", 35)
}

// unsupported kinds of JSON values
func jsonUnsupported(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Chan:
		return "a channel"
	case *types.Signature:
		return "a function"
	case *types.Basic:
		if u.Info()&types.IsComplex != 0 {
			return "a complex number"
		}
		if u.Kind() == types.UnsafePointer {
			return "an unsafe pointer"
		}
	case *types.Map:
		k := under(u.Key())
		if b, ok := k.(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsString) != 0 {
			return ""
		}
		return "a map with keys of type " + typeKey(u.Key())
	}
	return ""
}

// decoding is the model of json.Unmarshal.
type decoding struct {
	in   *Interp
	tag  Val // the value of every enumeration member
	raws []string
	encs []Val // arguments of json.Marshal
}

func (d *decoding) hook(in *Interp, w *World, site ssa.Instruction, fn *ssa.Function, args []Val) ([]Outcome, bool) {
	switch fullName(fn) {
	case "encoding/json.Unmarshal":
		iv, ok := args[1].(*IfaceV)
		if !ok {
			undec("json.Unmarshal into %s at %s", args[1].k(), in.sitePos(site))
		}
		p, ok := iv.v.(*PtrV)
		pt, ok2 := under(iv.dyn).(*types.Pointer)
		if !ok || !ok2 {
			undec("json.Unmarshal into %s at %s", args[1].k(), in.sitePos(site))
		}
		w2 := w.fork()
		okT := mk(in.freshName("ok:json"), boolT)
		w.assume(okT, true)
		w2.assume(okT, false)
		d.decode(w, args[0], p, pt.Elem(), site)
		return []Outcome{{w: w, res: NilV{}}, {w: w2, res: newErr("json.Unmarshal")}}, true
	case "encoding/json.Marshal":
		d.encs = append(d.encs, in.deep(w, args[0]))
		return in.failing(w, "json.Marshal", mk("json", types.NewSlice(types.Typ[types.Byte]), args...), NilV{}, args...), true
	}
	return nil, false
}

func (d *decoding) decode(w *World, b Val, p *PtrV, t types.Type, site ssa.Instruction) {
	in := d.in
	_, raw := isTerm(b, "jf")
	if dec, _ := in.jsonMethod(t, "UnmarshalJSON"); dec == nil && !raw {
		if _, ok := under(t).(*types.Struct); ok {
			for _, f := range jsonFields(t) {
				q := p
				ct := t
				for i, x := range f.path {
					q = q.ext(PathEl{field: x})
					ct = under(ct).(*types.Struct).Field(x).Type()
					if pt, ok := under(ct).(*types.Pointer); ok && i < len(f.path)-1 {
						v := in.load(w, q)
						np, ok := v.(*PtrV)
						if !ok {
							undec("the embedded pointer of %s is not set at %s", typeKey(t), in.sitePos(site))
						}
						q = np
						ct = pt.Elem()
					}
				}
				var v Val = mk("jf", f.typ, b, kStr(f.name), kBool(f.str))
				if len(in.p.enumConsts(f.typ)) > 1 {
					v = d.tag
				}
				in.store(w, q, v)
			}
			return
		}
	}
	if t, ok := isTerm(b, "jf"); ok {
		d.raws = append(d.raws, t.args[1].k())
	}
	in.store(w, p, mk("jdec", t, b, kStr(typeKey(t))))
}

func checkC16(r *Run) {
	in := r.interp()
	order, addr, _ := r.jsonTypes(in)
	emitted := map[string]bool{}
	for _, t := range order {
		ty := shortType(t)
		n, named := types.Unalias(t).(*types.Named)
		if !named || !isRepoPath(n.Obj().Pkg().Path()) {
			continue
		}
		emitted[ty] = true
		dec, dptr := in.jsonMethod(t, "UnmarshalJSON")
		enc, eptr := in.jsonMethod(t, "MarshalJSON")
		if dec != nil && !dptr {
			r.fail("dec:"+ty, "the decoder of %s cannot change its receiver", ty)
			continue
		}
		if enc != nil && eptr && !addr[typeKey(t)] {
			r.fail("enc-ptr:"+ty, "values of %s that are not addressable are not encoded by its encoder", ty)
		}
		if len(in.p.enumConsts(t)) > 1 {
			continue // C15
		}
		st, isStruct := under(t).(*types.Struct)
		if !isStruct {
			if dec != nil || enc != nil {
				undec("the encoder or decoder of %s", ty)
			}
			continue
		}
		_ = st
		r.count("types with members", 1)
		fs := jsonFields(t)
		low := map[string]string{}
		for _, f := range fs {
			r.count("members", 1)
			if o, dup := low[strings.ToLower(f.name)]; dup {
				r.fail("name:"+ty+"."+f.name, "the members %s and %s of %s have the same JSON name for the decoder", o, f.name, ty)
			}
			low[strings.ToLower(f.name)] = f.name
			if _, ok := under(f.typ).(*types.Interface); ok && dec == nil {
				r.fail("iface:"+ty+"."+f.name, "the member %q of %s is decoded as whatever type its JSON suggests", f.name, ty)
			}
		}
		// members of the type, by their last name
		if enc != nil {
			r.encoder(in, t, ty, enc, eptr, fs)
		}
		if dec != nil {
			r.decoder(in, t, ty, dec, fs)
		}
	}
	for _, ty := range []string{"types.SoqlQuery", "types.SoqlFieldInfo", "types.SoqlListItem", "types.SoqlCondition", "types.SoqlObjectInfo"} {
		if !emitted[ty] {
			undec("the type %s is not visible in the JSON of a query", ty)
		}
	}
	r.floor("decoder evaluations", 30)
	r.floor("encoder evaluations", 2)
	r.floor("members", 60)
}

// decoder evaluates a decoder for every type tag.
func (r *Run) decoder(in *Interp, t types.Type, ty string, dec *ssa.Function, fs []jsonField) {
	tagT := in.p.namedType(typesPkg, "SoqlFieldInfoType")
	isItem := ty == "types.SoqlListItem"
	for _, c := range in.p.enumConsts(tagT) {
		if strings.Contains(c.Name(), "EndOfConst") {
			continue
		}
		tag := strings.TrimPrefix(c.Name(), "SoqlFieldInfo_")
		r.count("decoder evaluations", 1)
		d := &decoding{in: in, tag: kInt(constInt(c))}
		save := in.onExtern
		in.onExtern = d.hook
		w := newWorld(in)
		p := in.cell(w, t, zero(t))
		outs := in.apply(w, nil, &FuncV{fn: dec}, []Val{p, mk("input", types.NewSlice(types.Typ[types.Byte]))})
		in.onExtern = save
		good := 0
		for _, o := range outs {
			if o.panic {
				r.fail("dec-panic:"+ty, "the decoder of %s panics for %s", ty, tag)
				continue
			}
			switch o.w.truth(eqVal(o.w.resolve(o.res), NilV{})) {
			case 0:
				if !jsonFailed(o.w.facts) {
					r.fail("dec-err:"+ty+"."+tag, "the decoder of %s rejects JSON with the type %s: %s", ty, tag, show(o.res))
				}
				continue
			case -1:
				undec("whether the decoder of %s succeeds: %s", ty, o.res.k())
			}
			if jsonFailed(o.w.facts) {
				r.fail("dec-lost:"+ty+"."+tag, "the decoder of %s reports success although decoding a member failed", ty)
				continue
			}
			good++
			for _, f := range fs {
				q := p
				for _, x := range f.path {
					q = q.ext(PathEl{field: x})
				}
				got := o.w.resolve(in.load(o.w, q))
				key := fmt.Sprintf("dec:%s.%s", ty, f.name)
				if _, ok := under(f.typ).(*types.Interface); ok {
					want := in.tagType(tag)
					if isItem && tag == "ParameterizedValue" {
						want = strT
					}
					if want == nil {
						if !isItem && len(d.raws) > 0 {
							r.fail(key+":"+tag, "for the type %s the decoder of %s decodes the member %q, which is not written for it", tag, ty, f.name)
						}
						if _, ok := got.(NilV); !ok && tag == "Literal_Null" {
							r.fail(key+":"+tag, "for the type %s the member %q of %s is decoded as %s instead of nil", tag, f.name, ty, show(got))
						}
						continue
					}
					iv, ok := got.(*IfaceV)
					if !ok {
						r.fail(key+":"+tag, "for the type %s the member %q of %s is not restored: it is %s", tag, f.name, ty, show(got))
						continue
					}
					if !types.Identical(iv.dyn, want) {
						r.fail(key+":"+tag, "for the type %s the member %q of %s is decoded as %s instead of %s", tag, f.name, ty, shortType(iv.dyn), shortType(want))
						continue
					}
					jd, ok := isTerm(in.deepN(o.w, iv.v, 0), "jdec")
					if !ok || jd.typ == nil || !types.Identical(jd.typ, want) {
						r.fail(key+":"+tag, "for the type %s the member %q of %s is %s instead of the decoded JSON", tag, f.name, ty, show(iv.v))
						continue
					}
					if src, ok := isTerm(jd.args[0], "jf"); !ok || !strings.EqualFold(src.args[1].(*Konst).s, f.name) {
						r.fail(key+":"+tag, "the member %q of %s is decoded from %s", f.name, ty, show(jd.args[0]))
					}
					continue
				}
				if len(in.p.enumConsts(f.typ)) > 1 {
					if got.k() != d.tag.k() {
						r.fail(key, "the member %q of %s is not restored: it is %s", f.name, ty, show(got))
					}
					continue
				}
				src, ok := isTerm(got, "jf")
				if !ok {
					if jd, ok2 := isTerm(got, "jdec"); ok2 && jd.typ != nil && types.Identical(jd.typ, f.typ) {
						src, ok = isTerm(jd.args[0], "jf")
					}
				} else if !types.Identical(src.typ, f.typ) || src.args[2].k() != kBool(f.str).k() {
					r.fail(key, "the member %q of %s is decoded as %s", f.name, ty, shortType(src.typ))
					continue
				}
				if !ok {
					r.fail(key, "the member %q of %s is not restored by its decoder: it is %s", f.name, ty, show(got))
					continue
				}
				if nm := src.args[1].(*Konst).s; !strings.EqualFold(nm, f.name) {
					r.fail(key, "the member %q of %s is restored from the member %q", f.name, ty, nm)
				}
			}
		}
		if good == 0 {
			r.fail("dec-none:"+ty+"."+tag, "the decoder of %s never succeeds for the type %s", ty, tag)
		}
	}
}

func jsonFailed(f *Facts) bool {
	for _, k := range f.ord {
		if strings.HasPrefix(k, "ok:json") && !f.tv[k] {
			return true
		}
	}
	return false
}

// encoder evaluates a custom encoder of a struct: what it hands to json.Marshal
// must have the members under the names that are decoded.
func (r *Run) encoder(in *Interp, t types.Type, ty string, enc *ssa.Function, ptr bool, fs []jsonField) {
	var opT types.Type
	for _, f := range fs {
		if len(in.p.enumConsts(f.typ)) > 1 {
			opT = f.typ
		}
	}
	tags := []*types.Const{nil}
	if opT != nil {
		tags = nil
		for _, c := range in.p.enumConsts(opT) {
			if !strings.Contains(c.Name(), "EndOfConst") {
				tags = append(tags, c)
			}
		}
	}
	for _, c := range tags {
		r.count("encoder evaluations", 1)
		d := &decoding{in: in}
		save := in.onExtern
		in.onExtern = d.hook
		w := newWorld(in)
		sv := &StructV{typ: t}
		st := under(t).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			var v Val = mk("m:"+st.Field(i).Name(), st.Field(i).Type())
			if c != nil && types.Identical(st.Field(i).Type(), opT) {
				v = kInt(constInt(c))
			}
			sv.f = append(sv.f, v)
		}
		var arg Val = sv
		if ptr {
			arg = in.cell(w, t, sv)
		}
		outs := in.apply(w, nil, &FuncV{fn: enc}, []Val{arg})
		in.onExtern = save
		what := ty
		keep := true
		if c != nil {
			what += " with " + c.Name()
			keep = strings.HasSuffix(c.Name(), "_FieldInfo")
		}
		good := false
		for _, o := range outs {
			if o.panic {
				r.fail("enc-panic:"+ty, "the encoder of %s panics", what)
				continue
			}
			tv := o.res.(*TupleV)
			if o.w.truth(eqVal(o.w.resolve(tv.v[1]), NilV{})) == 0 {
				if !encFailed(o.w.facts) {
					r.fail("enc-err:"+ty, "the encoder of %s fails without reason", what)
				}
				continue
			}
			if encFailed(o.w.facts) {
				r.fail("enc-lost:"+ty, "the encoder of %s loses an error", what)
				continue
			}
			j, ok := isTerm(o.w.resolve(tv.v[0]), "json")
			if !ok {
				undec("the encoding of %s is %s", what, tv.v[0].k())
			}
			good = true
			iv, ok := j.args[0].(*IfaceV)
			if !ok {
				undec("the encoding of %s is that of %s", what, j.args[0].k())
			}
			dt, v := iv.dyn, iv.v
			if pt, ok := under(dt).(*types.Pointer); ok {
				dt = pt.Elem()
				v = in.load(o.w, v.(*PtrV))
			}
			if e2, _ := in.jsonMethod(dt, "MarshalJSON"); e2 != nil {
				undec("the encoder of %s uses that of %s", ty, typeKey(dt))
			}
			es, ok := v.(*StructV)
			if !ok {
				es = expand(v, dt)
			}
			wrote := map[string]bool{}
			for _, f := range jsonFields(dt) {
				var got Val = es
				for _, x := range f.path {
					g, ok := got.(*StructV)
					if !ok {
						undec("an embedded struct in the encoding of %s", what)
					}
					got = g.f[x]
				}
				found := false
				for _, tf := range fs {
					if strings.EqualFold(tf.name, f.name) {
						found = true
						wrote[tf.name] = true
						if want := sv.f[tf.path[0]]; o.w.resolve(got).k() != want.k() || !types.Identical(tf.typ, f.typ) {
							r.fail("enc:"+ty+"."+tf.name, "the encoder of %s writes %s as %q", what, show(got), tf.name)
						}
					}
				}
				if !found {
					r.fail("enc:"+ty+"."+f.name, "the encoder of %s writes the member %q, which is not decoded", what, f.name)
				}
			}
			for _, tf := range fs {
				if !wrote[tf.name] && (keep || types.Identical(tf.typ, opT)) {
					r.fail("enc:"+ty+"."+tf.name, "the encoder of %s does not write the member %q", what, tf.name)
				}
			}
		}
		if !good {
			r.fail("enc-none:"+ty, "the encoder of %s never succeeds", what)
		}
	}
}

func encFailed(f *Facts) bool {
	for _, k := range f.ord {
		if strings.HasPrefix(k, "ok:json.Marshal") && !f.tv[k] {
			return true
		}
	}
	return false
}
