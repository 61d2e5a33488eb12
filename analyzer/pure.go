package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// purePkgs: functions of these packages on numbers and texts have no effects, and their results are determined by
// their arguments; those without a model are uninterpreted.
var purePkgs = map[string]bool{"strings": true, "unicode": true, "unicode/utf8": true, "strconv": true, "path": true,
	"path/filepath": true, "math": true, "html": true, "unicode/utf16": true, "math/bits": true, "net/url": true}

var pureImpls = map[string]any{
	"strings.Count": strings.Count, "strings.LastIndex": strings.LastIndex, "strings.IndexByte": strings.IndexByte,
	"strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny, "strings.ToValidUTF8": strings.ToValidUTF8,
	"strings.LastIndexByte": strings.LastIndexByte, "unicode.SimpleFold": unicode.SimpleFold, "unicode/utf8.ValidRune": utf8.ValidRune,
	"strconv.FormatBool": strconv.FormatBool, "unicode/utf8.RuneStart": utf8.RuneStart,
}

func scalar(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&(types.IsString|types.IsInteger|types.IsBoolean|types.IsFloat) != 0
}

func (x *Exec) pureCall(s *State, f *ssa.Function, args []Val) (Val, bool) {
	if f.Pkg == nil || !purePkgs[f.Pkg.Pkg.Path()] || f.Signature.Recv() != nil {
		return nil, false
	}
	sig := f.Signature
	if sig.Variadic() || sig.Results().Len() == 0 {
		return nil, false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !scalar(sig.Params().At(i).Type()) {
			return nil, false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if !scalar(sig.Results().At(i).Type()) {
			return nil, false
		}
	}
	name := f.String()
	if impl, ok := pureImpls[name]; ok {
		fv := reflect.ValueOf(impl)
		var in []reflect.Value
		for i, a := range args {
			k, ok := a.(Const)
			if !ok || k.V == nil {
				break
			}
			v := reflect.New(fv.Type().In(i)).Elem()
			switch k.V.Kind() {
			case constant.String:
				v.SetString(constant.StringVal(k.V))
			case constant.Bool:
				v.SetBool(constant.BoolVal(k.V))
			case constant.Int:
				n, _ := constant.Int64Val(k.V)
				if v.CanUint() {
					v.SetUint(uint64(n))
				} else {
					v.SetInt(n)
				}
			default:
				continue
			}
			in = append(in, v)
		}
		if len(in) == len(args) {
			r := fv.Call(in)[0]
			switch r.Kind() {
			case reflect.String:
				return cStr(r.String()), true
			case reflect.Bool:
				return cBool(r.Bool()), true
			default:
				return cIntT(r.Int(), sig.Results().At(0).Type()), true
			}
		}
	}
	if sig.Results().Len() == 1 {
		return mkApp(name, sig.Results().At(0).Type(), args...), true
	}
	var r Tuple
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, mkApp(name+"#"+strconv.Itoa(i), sig.Results().At(i).Type(), args...))
	}
	return r, true
}

var tableAlias = map[string]string{"Letter": "L", "Upper": "Lu", "Lower": "Ll", "Title": "Lt", "Mark": "M", "Number": "N", "Digit": "Nd",
	"Punct": "P", "Symbol": "S", "Space": "Z", "Other": "C"}

// rangeTable is the set of a table of package unicode.
func rangeTable(v Val) IntSet {
	e, ok := v.(Ext)
	if !ok || !strings.HasPrefix(e.Name, "val:unicode.") {
		undecided("an unknown table of runes (%s)", describe(v))
	}
	n := e.Name[len("val:unicode."):]
	if a, ok := tableAlias[n]; ok {
		n = a
	}
	t := unicode.Categories[n]
	if t == nil {
		t = unicode.Scripts[n]
	}
	if t == nil {
		t = unicode.Properties[n]
	}
	if t == nil {
		undecided("an unknown table of runes (%s)", n)
	}
	return runeSet("table "+n, func(r rune) bool { return unicode.Is(t, r) })
}

func init() {
	stdModels["unicode.Is"] = func(c *Call) (Val, bool) { return c.s.inSet(c.args[1], rangeTable(c.args[0])), true }
	many := func(c *Call, r, tables Val) Val {
		var set IntSet
		for _, p := range c.s.view(c.x.matSlice(c.s, tables)) {
			if p.Seg > 0 {
				undecided("unknown tables of runes")
			}
			set = set.union(rangeTable(p.Elem))
		}
		return c.s.inSet(r, set)
	}
	stdModels["unicode.In"] = func(c *Call) (Val, bool) { return many(c, c.args[0], c.args[1]), true }
	stdModels["unicode.IsOneOf"] = func(c *Call) (Val, bool) { return many(c, c.args[1], c.args[0]), true }
}
