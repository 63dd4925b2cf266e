package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var strT = types.Typ[types.String]
var boolT = types.Typ[types.Bool]
var intT = types.Typ[types.Int]

func errorType() types.Type { return types.Universe.Lookup("error").Type() }

// mkErr is a non-nil error.
func mkErr(t *Term) Val {
	return &IfaceV{dyn: types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "errorValue", nil), types.NewStruct(nil, nil), nil)), v: t}
}

var errDyn = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "errorValue", nil), types.NewStruct(nil, nil), nil))

func newErr(op string, args ...Val) Val {
	return &IfaceV{dyn: errDyn, v: mk("err:"+op, errDyn, args...)}
}

func one(w *World, v Val) []Outcome { return []Outcome{{w: w, res: v}} }

// failing gives two outcomes: a value and nil, or a zero value and an error.
func (in *Interp) failing(w *World, name string, val Val, zeroV Val, args ...Val) []Outcome {
	ok := mk("ok:"+name, boolT, args...)
	okOut := func(w *World) Outcome { return Outcome{w: w, res: &TupleV{[]Val{val, NilV{}}}} }
	badOut := func(w *World) Outcome { return Outcome{w: w, res: &TupleV{[]Val{zeroV, newErr(name, args...)}}} }
	switch w.truth(ok) {
	case 1:
		return []Outcome{okOut(w)}
	case 0:
		return []Outcome{badOut(w)}
	}
	w2 := w.fork()
	w.assume(ok, true)
	w2.assume(ok, false)
	return []Outcome{okOut(w), badOut(w2)}
}

// lowerVal is strings.ToLower.
func lowerVal(v Val) Val {
	if s, ok := asStr(v); ok {
		return kStr(strings.ToLower(s))
	}
	if t, ok := isTerm(v, "casevar"); ok {
		return t.args[0]
	}
	if t, ok := isTerm(v, "lower"); ok {
		return t
	}
	if t, ok := isTerm(v, "upper"); ok {
		return mk("lower", strT, t.args[0])
	}
	if t, ok := isTerm(v, "concat"); ok {
		var r Val = kStr("")
		for _, a := range t.args {
			r = concatVal(r, lowerVal(a))
		}
		return r
	}
	return mk("lower", strT, v)
}

func upperVal(v Val) Val {
	if s, ok := asStr(v); ok {
		return kStr(strings.ToUpper(s))
	}
	if t, ok := isTerm(v, "casevar"); ok {
		if s, ok := asStr(t.args[0]); ok {
			return kStr(strings.ToUpper(s))
		}
	}
	if t, ok := isTerm(v, "upper"); ok {
		return t
	}
	if t, ok := isTerm(v, "lower"); ok {
		return mk("upper", strT, t.args[0])
	}
	if t, ok := isTerm(v, "concat"); ok {
		var r Val = kStr("")
		for _, a := range t.args {
			r = concatVal(r, upperVal(a))
		}
		return r
	}
	return mk("upper", strT, v)
}

var pureFns = map[string]bool{
	"strings.TrimSpace": true, "strings.Trim": true, "strings.TrimLeft": true, "strings.TrimRight": true,
	"strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.ReplaceAll": true, "strings.Replace": true,
	"strings.Title": true, "strings.Repeat": true, "strings.Index": true, "strings.LastIndex": true,
	"strings.Contains": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Count": true,
	"strings.IndexByte": true, "strings.IndexRune": true, "strings.ContainsRune": true, "strings.ContainsAny": true,
	"strings.ToTitle": true, "strings.Compare": true,
	"strconv.Quote": true, "strconv.FormatInt": true, "strconv.FormatFloat": true, "strconv.FormatBool": true,
	"math.Inf": true, "math.NaN": true, "math.IsNaN": true, "math.IsInf": true,
	"unicode.IsSpace": true, "unicode.IsLetter": true, "unicode.IsDigit": true,
	"(time.Time).UTC": true, "(time.Time).Sub": true, "(time.Time).Add": true, "(time.Time).IsZero": true,
	"(time.Time).In": true, "(time.Time).Format": true, "(time.Time).Local": true, "(time.Time).Truncate": true,
	"(time.Time).AddDate": true, "(time.Time).Year": true, "(time.Time).Location": true, "time.Date": true,
	"time.Unix": true, "(time.Time).UnixNano": true, "(time.Time).Unix": true, "(time.Time).Round": true, "(time.Time).Nanosecond": true,
	"(*encoding/base64.Encoding).EncodeToString": true,
	"time.FixedZone": true,
	"path.Join":      true,
}

// extern models functions outside the program.
func (in *Interp) extern(w *World, site ssa.Instruction, fn *ssa.Function, args []Val) []Outcome {
	name := fullName(fn)
	switch name {
	case "strings.ToLower":
		return one(w, lowerVal(args[0]))
	case "strings.ToUpper":
		return one(w, upperVal(args[0]))
	case "strings.EqualFold":
		return one(w, eqVal(lowerVal(args[0]), lowerVal(args[1])))
	case "strings.Join":
		return one(w, in.joinVal(w, args[0], args[1]))
	case "strings.Split":
		return one(w, mk("split", types.NewSlice(strT), args...))
	case "strconv.Itoa":
		if i, ok := asInt(args[0]); ok {
			return one(w, kStr(strconv.Itoa(int(i))))
		}
		return one(w, mk("itoa", strT, args[0]))
	case "strconv.ParseInt":
		return in.failing(w, "ParseInt", mk("ParseInt", types.Typ[types.Int64], args...), mk("badInt", types.Typ[types.Int64], args...), args...)
	case "strconv.ParseUint":
		return in.failing(w, "ParseUint", mk("ParseUint", types.Typ[types.Uint64], args...), mk("badUint", types.Typ[types.Uint64], args...), args...)
	case "strconv.Atoi":
		return in.failing(w, "Atoi", mk("Atoi", intT, args...), mk("badInt", intT, args...), args...)
	case "strconv.ParseFloat":
		return in.failing(w, "ParseFloat", mk("ParseFloat", types.Typ[types.Float64], args...), mk("badFloat", types.Typ[types.Float64], args...), args...)
	case "strconv.ParseBool":
		return in.failing(w, "ParseBool", mk("ParseBool", boolT, args...), kBool(false), args...)
	case "time.Parse":
		tt := fn.Signature.Results().At(0).Type()
		return in.failing(w, "time.Parse", mk("time.Parse", tt, args...), mk("zerotime", tt), args...)
	case "time.ParseInLocation":
		tt := fn.Signature.Results().At(0).Type()
		return in.failing(w, "time.ParseInLocation", mk("time.ParseInLocation", tt, args...), mk("zerotime", tt), args...)
	case "time.Now":
		return one(w, mk(in.freshName("now"), fn.Signature.Results().At(0).Type()))
	case "time.Since":
		return one(w, mk(in.freshName("since"), fn.Signature.Results().At(0).Type()))
	case "errors.New":
		return one(w, newErr("errors.New", args...))
	case "fmt.Errorf":
		return one(w, newErr("fmt.Errorf", args[0], in.content(w, args[1])))
	case "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln":
		var as []Val
		for _, a := range args {
			if s, ok := a.(*SliceV); ok {
				a = in.content(w, s)
			}
			as = append(as, a)
		}
		return one(w, mk(name, strT, as...))
	case "(*sync.Once).Do":
		return in.onceDo(w, site, args)
	case "sort.SliceStable", "sort.Slice":
		in.havocSlice(w, args[0], "sorted")
		return one(w, &TupleV{})
	case nameutl + ".MakeDottedKeyIgnoreCase":
		// the key of the first n name parts
		c := in.keyContent(w, args[0], args[1])
		return one(w, mk("dkey", strT, c))
	case nameutl + ".NameEqualsIgnoreCase":
		return one(w, eqVal(mk("ilower", nil, in.content(w, args[0])), mk("ilower", nil, in.content(w, args[1]))))
	case "encoding/json.Unmarshal":
		p, ok := args[1].(*IfaceV)
		if ok {
			if pp, ok := p.v.(*PtrV); ok {
				et := under(p.dyn).(*types.Pointer).Elem()
				in.store(w, pp, mk(in.freshName("decoded"), et))
				ok := mk(in.freshName("ok:json.Unmarshal"), boolT)
				w2 := w.fork()
				w.assume(ok, true)
				w2.assume(ok, false)
				return []Outcome{{w: w, res: NilV{}}, {w: w2, res: newErr("json.Unmarshal")}}
			}
		}
	case "encoding/json.Marshal":
		return in.failing(w, "json.Marshal", mk("json", types.NewSlice(types.Typ[types.Byte]), args...), NilV{}, args...)
	}
	if pureFns[name] {
		rt := fn.Signature.Results()
		for i, a := range args {
			if s, ok := a.(*SliceV); ok {
				args[i] = in.content(w, s)
			}
		}
		switch name {
		case "math.Inf":
			if i, ok := asInt(args[0]); ok {
				if i >= 0 {
					return one(w, kFlt("+Inf"))
				}
				return one(w, kFlt("-Inf"))
			}
		case "math.NaN":
			return one(w, kFlt("NaN"))
		case "strings.HasPrefix":
			a, ok1 := asStr(args[0])
			b, ok2 := asStr(args[1])
			if ok1 && ok2 {
				return one(w, kBool(strings.HasPrefix(a, b)))
			}
		case "strings.HasSuffix":
			a, ok1 := asStr(args[0])
			b, ok2 := asStr(args[1])
			if ok1 && ok2 {
				return one(w, kBool(strings.HasSuffix(a, b)))
			}
		case "strings.Contains":
			a, ok1 := asStr(args[0])
			b, ok2 := asStr(args[1])
			if ok1 && ok2 {
				return one(w, kBool(strings.Contains(a, b)))
			}
		case "strings.ReplaceAll":
			a, ok1 := asStr(args[0])
			b, ok2 := asStr(args[1])
			c, ok3 := asStr(args[2])
			if ok1 && ok2 && ok3 {
				return one(w, kStr(strings.ReplaceAll(a, b, c)))
			}
		case "strings.TrimSpace":
			if a, ok := asStr(args[0]); ok {
				return one(w, kStr(strings.TrimSpace(a)))
			}
		}
		if rt.Len() == 1 {
			return one(w, mk(name, rt.At(0).Type(), args...))
		}
	}
	undec("call of %s is not modelled (at %s)", name, in.sitePos(site))
	return nil
}

func (in *Interp) extInvoke(w *World, site ssa.Instruction, m *types.Func, recv Val, args []Val) []Outcome {
	if m.Name() == "Error" && len(args) == 0 {
		return one(w, mk("errtext", strT, recv))
	}
	if in.onInvoke != nil {
		if r, ok := in.onInvoke(in, w, site, m, recv, args); ok {
			return r
		}
	}
	undec("interface method %s is not modelled (at %s)", m.FullName(), in.sitePos(site))
	return nil
}

// keyContent is the identity of the first n strings of a slice.
func (in *Interp) keyContent(w *World, s, n Val) Val {
	sl := in.asSlice(s)
	n = w.resolve(n)
	if n.k() == w.resolve(sl.ln).k() {
		return in.content(w, s)
	}
	if _, ok := s.(NilV); ok {
		return mk("seq", nil)
	}
	return in.content(w, &SliceV{sl.arr, sl.off, n, sl.cp})
}

func (in *Interp) joinVal(w *World, s, sep Val) Val {
	if es, ok := in.elems(w, s); ok {
		var r Val = kStr("")
		for i, e := range es {
			if i > 0 {
				r = concatVal(r, sep)
			}
			r = concatVal(r, e)
		}
		return r
	}
	return mk("join", strT, in.content(w, s), sep)
}

func (in *Interp) havocSlice(w *World, v Val, what string) {
	if i, ok := v.(*IfaceV); ok {
		v = i.v
	}
	if _, ok := v.(NilV); ok {
		return
	}
	s := in.asSlice(v)
	if s.arr == 0 {
		return
	}
	o := *in.obj(w, s.arr)
	o.key = ""
	o.arr = &ArrC{base: termElems{mk(what, types.NewSlice(o.typ), in.content(w, s)), o.typ}, elty: o.typ}
	in.set(w, s.arr, &o, []PathEl{{idx: kInt(0)}})
}

// onceDo runs the function; the state of the Once is one of its cells.
func (in *Interp) onceDo(w *World, site ssa.Instruction, args []Val) []Outcome {
	p, ok := args[0].(*PtrV)
	if !ok {
		undec("sync.Once of unknown identity at %s", in.sitePos(site))
	}
	k := "once:" + p.k()
	if _, ok := w.ghost[k]; ok {
		return one(w, &TupleV{})
	}
	w.setGhost(k, kBool(true))
	outs := in.apply(w, site, args[1], nil)
	for i := range outs {
		if !outs[i].panic {
			outs[i].res = &TupleV{}
		}
	}
	return outs
}
