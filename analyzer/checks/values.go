package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

const relDT = "pkg/models/datatypes"

func init() {
	register("D11", "Values keep their order, type and content", func(c *Ctx) error {
		v := &values{c: c}
		if err := v.anchor(); err != nil {
			return err
		}
		for _, f := range []func() error{v.codeRule, v.orderRule, v.validRule, v.wireRule, v.rangeRule} {
			if err := f(); err != nil {
				return err
			}
		}
		return nil
	})
}

// vtype is one of the types a value can have.
type vtype struct {
	name string
	t    types.Type // nil: Any
	code int64
}

type values struct {
	c     *Ctx
	enc   *types.Named
	code  *types.Named
	types []vtype
	maps  map[string]map[int64]bool
}

// anchor finds the codes of the types by the constructors of values (Int8, String, ...).
func (v *values) anchor() error {
	var err error
	if v.enc, err = v.c.P.Named(relDT, "EncapsulatedValue"); err != nil {
		return err
	}
	if v.code, err = v.c.P.Named(relDT, "DataType"); err != nil {
		return err
	}
	_, sp, err := v.c.P.Pkg(relDT)
	if err != nil {
		return err
	}
	for _, n := range []string{"uint8", "uint16", "uint32", "uint64", "uint", "int8", "int16", "int32", "int64", "int", "float32", "float64", "string", "any"} {
		t := types.Universe.Lookup(n).Type()
		if n == "any" {
			t = nil
		}
		g, _ := sp.Members["T_"+n].(*ssa.Global)
		k, _ := sp.Members["T_"+n].(*ssa.NamedConst)
		var cv constant.Value
		switch {
		case g != nil:
			cv = v.c.P.ConstGlobal(g)
		case k != nil:
			cv = k.Value.Value
		}
		if cv == nil {
			return fmt.Errorf("the code of the type %s is not a constant that nobody changes", n)
		}
		i, ok := constant.Int64Val(constant.ToInt(cv))
		if !ok {
			return fmt.Errorf("the code of the type %s is no integer", n)
		}
		v.types = append(v.types, vtype{n, t, i})
	}
	v.maps = map[string]map[int64]bool{}
	for n, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		mt, ok := deref(g.Type()).Underlying().(*types.Map)
		if !ok || !types.Identical(mt.Key(), v.code) {
			continue
		}
		set := map[int64]bool{}
		okAll := true
		for _, fn := range v.c.P.AllFuncs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == g && fn.Synthetic != "package initializer" {
						okAll = false
					}
					if u, ok := in.(*ssa.MapUpdate); ok {
						if l, ok := u.Map.(*ssa.UnOp); ok && l.X == g {
							okAll = false
						}
					}
				}
			}
		}
		if init := sp.Func("init"); init != nil {
			var made ssa.Value
			for _, b := range init.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == g {
						made = st.Val
					}
				}
			}
			for _, b := range init.Blocks {
				for _, in := range b.Instrs {
					u, ok := in.(*ssa.MapUpdate)
					if !ok || u.Map != made {
						continue
					}
					var key constant.Value
					switch k := u.Key.(type) {
					case *ssa.Const:
						key = k.Value
					case *ssa.UnOp:
						if kg, ok := k.X.(*ssa.Global); ok {
							key = v.c.P.ConstGlobal(kg)
						}
					}
					val, ok := u.Value.(*ssa.Const)
					if key == nil || !ok {
						okAll = false
						continue
					}
					i, _ := constant.Int64Val(constant.ToInt(key))
					if val.Value == nil {
						okAll = false
						continue
					}
					set[i] = val.Value.Kind() != constant.Bool || constant.BoolVal(val.Value)
				}
			}
		}
		if okAll {
			v.maps[n] = set
		}
	}
	return nil
}

// hooks gives the standard library's conversions their meaning.
func (v *values) hooks() *flow.Hooks {
	h := &flow.Hooks{}
	h.Lookup = func(e *flow.Engine, st *flow.State, m, k *flow.Val, in *ssa.Lookup) *flow.Val {
		i, ok := flow.IntVal(k)
		if !ok {
			return nil
		}
		var set map[int64]bool
		for n, s := range v.maps {
			if a := flow.LoadAddr(m); a != nil && strings.HasSuffix(a.Key(), relDT+"."+n+";") {
				set = s
			}
		}
		if set == nil {
			return nil
		}
		has, in2 := set[i]
		r := flow.Bool(has)
		if in.CommaOk {
			return flow.Tup(r, flow.Bool(in2))
		}
		return r
	}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		m := callee(ci)
		if m == nil || m.Pkg() == nil {
			return nil, false
		}
		recv, args := argsOf(ci)
		ret := func(r ...*flow.Val) ([]flow.Exit, bool) {
			return []flow.Exit{{St: st, Res: r, Pos: ci.Pos}}, true
		}
		name := m.Name()
		resT := func(i int) types.Type { return ci.Res.At(i).Type() }
		either := func(ok *flow.Val) ([]flow.Exit, bool) {
			no := st.Clone()
			no.Set("unparsed", 1)
			no.Note(ci.Pos, "%s fails", name)
			return []flow.Exit{{St: st, Res: []*flow.Val{ok, nilErr()}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{flow.ZeroOf(resT(0)), freshErr(e, no, ci.Instr, "perr")}, Pos: ci.Pos}}, true
		}
		switch m.Pkg().Path() {
		case "math":
			if name == "IsNaN" {
				return ret(flow.Bool(e.NaN != nil && flow.Strip(args[0]).Key() == e.NaN.Key()))
			}
			if name == "IsInf" {
				return ret(flow.Bool(false))
			}
		case "cmp", "strings":
			if (name == "Less" || name == "Compare") && len(args) == 2 && ci.Res.Len() == 1 {
				var out []flow.Exit
				for _, b := range []int{flow.LT, flow.EQ, flow.GT} {
					s := st.Clone()
					if !s.Restrict(widened(args[0]), widened(args[1]), b) {
						continue
					}
					r := flow.Bool(b == flow.LT)
					if name == "Compare" {
						r = flow.Int(int64(map[int]int{flow.LT: -1, flow.EQ: 0, flow.GT: 1}[b]))
					}
					out = append(out, flow.Exit{St: s, Res: []*flow.Val{r}, Pos: ci.Pos})
				}
				return out, true
			}
		case "reflect":
			switch {
			case (name == "ValueOf" || name == "TypeOf") && len(args) == 1:
				return ret(flow.Term("reflected", resT(0), args[0]))
			case name == "Kind" && recv != nil:
				r := flow.Strip(recv)
				if r.K == flow.KTerm && r.S == "reflected" {
					k := reflect.Invalid
					switch d := r.Args[0]; d.K {
					case flow.KIface:
						b, ok := d.T.Underlying().(*types.Basic)
						if !ok {
							return nil, false
						}
						k = kindOf[b.Kind()]
					case flow.KNil:
					default:
						return nil, false
					}
					return ret(flow.Const(constant.MakeInt64(int64(k)), resT(0)))
				}
			case (name == "Float" || name == "Int" || name == "Uint" || name == "Interface") && recv != nil:
				if r := flow.Strip(recv); r.K == flow.KTerm && r.S == "reflected" {
					return ret(r.Args[0])
				}
			}
		case "strconv":
			switch name {
			case "FormatUint", "FormatInt":
				return ret(flow.Term("text", resT(0), intValue(args[0]), args[1]))
			case "Itoa":
				return ret(flow.Term("text", resT(0), intValue(args[0]), flow.Int(10)))
			case "FormatFloat":
				return ret(flow.Term("text:float", resT(0), args...))
			case "Quote":
				return ret(flow.Term("quoted", resT(0), args...))
			case "ParseUint", "ParseInt", "ParseFloat", "Atoi":
				as := append([]*flow.Val{}, args...)
				if name == "Atoi" {
					as = append(as, flow.Int(10), flow.Int(64))
				}
				if p := v.parseBack(name, as); p != nil {
					return ret(flow.Term("number", resT(0), p), nilErr())
				}
				return either(flow.Term("parsed:"+name, resT(0), as...))
			}
		case "encoding/json":
			switch name {
			case "Marshal":
				return either(flow.Term("json", resT(0), args[0], v.contentOf(e, st, args[0])))
			case "Unmarshal":
				no := st.Clone()
				no.Set("unparsed", 1)
				no.Note(ci.Pos, "the JSON is malformed")
				v.decodeInto(e, st, args[1])
				return []flow.Exit{{St: st, Res: []*flow.Val{nilErr()}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{freshErr(e, no, ci.Instr, "jerr")}, Pos: ci.Pos}}, true
			}
		}
		return nil, false
	}
	return h
}

// kindOf maps a basic type to its kind.
var kindOf = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.String: reflect.String,
	types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
	types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64,
	types.Float32: reflect.Float32, types.Float64: reflect.Float64,
}

// sizeOf: width, whether it is signed, and whether it is an integer.
func sizeOf(t types.Type) (bits int, signed, integer bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	integer = b.Info()&types.IsInteger != 0
	signed = b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32, types.Float32:
		bits = 32
	case types.Int64, types.Uint64, types.Int, types.Uint, types.Float64:
		bits = 64
	}
	return
}

// holds: can a value of type b hold every value of type a?
func holds(b, a types.Type) bool {
	an, as, ai := sizeOf(a)
	bn, bs, bi := sizeOf(b)
	switch {
	case types.Identical(a.Underlying(), b.Underlying()):
		return true
	case an == 0 || bn == 0:
		return false
	case ai && bi:
		return as == bs && bn >= an || bs && !as && bn > an
	case !ai && !bi:
		return bn >= an
	case ai && !bi:
		return bn == 64 && an <= 32 || bn == 32 && an <= 16
	}
	return false
}

// widened removes conversions that change no value.
func widened(v *flow.Val) *flow.Val {
	for {
		switch {
		case v.K == flow.KIface:
			v = v.Args[0]
		case v.K == flow.KTerm && v.S == "conv":
			in := widened(v.Args[0])
			t := in.T
			if in.K == flow.KTerm && in.S == "number" {
				in = in.Args[0]
				t = in.T
			}
			if t == nil || v.T == nil || !holds(v.T, t) {
				return v
			}
			return in
		case v.K == flow.KTerm && v.S == "number":
			v = v.Args[0]
		default:
			return v
		}
	}
}

func intValue(v *flow.Val) *flow.Val { return widened(v) }

// parseBack: parsing a text that was made from a value.
func (v *values) parseBack(fn string, args []*flow.Val) *flow.Val {
	s := flow.Strip(args[0])
	if s.K != flow.KTerm {
		return nil
	}
	switch {
	case s.S == "text" && fn != "ParseFloat":
		x, base := s.Args[0], s.Args[1]
		pb, ok1 := flow.IntVal(args[1])
		fb, ok2 := flow.IntVal(base)
		bits, ok3 := flow.IntVal(args[2])
		if !ok1 || !ok2 || !ok3 || pb != fb || x.T == nil {
			return nil
		}
		n, signed, integer := sizeOf(x.T)
		if bits == 0 {
			bits = 64
		}
		if !integer || int64(n) > bits || (fn == "ParseUint") == signed && fn == "ParseUint" || fn != "ParseUint" && !signed && int64(n) >= bits {
			return nil
		}
		return x
	case s.S == "text:float" && fn == "ParseFloat":
		f, ok1 := flow.IntVal(s.Args[1])
		prec, ok2 := flow.IntVal(s.Args[2])
		fbits, ok3 := flow.IntVal(s.Args[3])
		pbits, ok4 := flow.IntVal(args[1])
		x := widened(s.Args[0])
		if !ok1 || !ok2 || !ok3 || !ok4 || x.T == nil || prec != -1 || !strings.ContainsRune("eEfgGxX", rune(f)) {
			return nil
		}
		n, _, integer := sizeOf(x.T)
		if integer || fbits < int64(n) || pbits < int64(n) || fbits < pbits {
			return nil
		}
		return x
	}
	return nil
}

// contentOf: the struct that is encoded.
func (v *values) contentOf(e *flow.Engine, st *flow.State, x *flow.Val) *flow.Val {
	x = flow.Strip(x)
	if x.T == nil {
		return x
	}
	if p, ok := x.T.Underlying().(*types.Pointer); ok {
		return e.LoadAt(st, x, p.Elem())
	}
	return x
}

// tagged: the field of a struct that has a name in JSON.
func tagged(s *types.Struct, name string) int {
	for i := 0; i < s.NumFields(); i++ {
		t := reflect.StructTag(s.Tag(i)).Get("json")
		n, _, _ := strings.Cut(t, ",")
		if n == name && !strings.Contains(t, ",omitempty") || n == "" && t != "-" && s.Field(i).Exported() && s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// decodeInto fills the destination of a JSON decoder with what the world says is on the wire.
func (v *values) decodeInto(e *flow.Engine, st *flow.State, dst *flow.Val) {
	dst = flow.Strip(dst)
	if dst.T == nil {
		return
	}
	t := deref(dst.T)
	code, data := st.MonV["wire:code"], st.MonV["wire:data"]
	fill := func(s *types.Struct, st0 types.Type) *flow.Val {
		var fs []*flow.Val
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, flow.ZeroOf(s.Field(i).Type()))
		}
		if i := tagged(s, "Type"); i >= 0 {
			if k, ok := flow.IntVal(code); ok {
				fs[i] = flow.Const(constant.MakeInt64(k), s.Field(i).Type())
			}
		}
		if i := tagged(s, "Data"); i >= 0 {
			fs[i] = data
			if !types.IsInterface(s.Field(i).Type()) && data.K == flow.KIface {
				if types.Identical(data.T, s.Field(i).Type()) {
					fs[i] = data.Args[0]
				} else {
					fs[i] = e.Fresh(st, "decode", "other", s.Field(i).Type())
				}
			}
		}
		return flow.StructVal(st0, fs...)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		x := fill(u, t)
		for i := 0; i < u.NumFields(); i++ {
			st.Store(flow.FieldAddr(dst, u.Field(i)), x.Args[i])
		}
	case *types.Map:
		es, ok := u.Elem().Underlying().(*types.Struct)
		if !ok {
			return
		}
		st.Store(dst, e.NewMap(st, "decoded", t, flow.Tup(st.MonV["wire:key"], fill(es, u.Elem()))))
	}
}

// value makes a value with a code and data.
func (v *values) value(code int64, data *flow.Val) *flow.Val {
	s := v.enc.Underlying().(*types.Struct)
	var fs []*flow.Val
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "Type":
			fs = append(fs, flow.Const(constant.MakeInt64(code), s.Field(i).Type()))
		case "Data":
			fs = append(fs, data)
		default:
			fs = append(fs, flow.ZeroOf(s.Field(i).Type()))
		}
	}
	return flow.StructVal(v.enc, fs...)
}

func anyType() types.Type { return types.Universe.Lookup("any").Type() }

func (v *values) data(t types.Type, name string) *flow.Val {
	if t == nil {
		return flow.NilOf(anyType())
	}
	return flow.IfaceOf(flow.Root(name, t), t)
}

func (v *values) dt(code int64) *flow.Val { return flow.Const(constant.MakeInt64(code), v.code) }

// codeRule: the codes order the types.
func (v *values) codeRule() error {
	const r = "codes"
	v.c.Rule(r, "every type has its own constant code, and the code of Any is the greatest", 14)
	seen := map[int64]string{}
	anyCode := v.types[len(v.types)-1].code
	for _, t := range v.types {
		d := ""
		if o := seen[t.code]; o != "" {
			d = fmt.Sprintf("the types %s and %s have the same code", o, t.name)
		} else if t.name != "any" && t.code >= anyCode {
			d = fmt.Sprintf("the code of %s is not below that of Any", t.name)
		}
		seen[t.code] = t.name
		v.c.Check(d == "", r, t.name, "-", d)
	}
	return nil
}

// orderRule: the two comparisons.
func (v *values) orderRule() error {
	const r = "order"
	v.c.Rule(r, "for every pair of types, the comparison of two values is decided by the codes of the types if these differ and by the data otherwise; Any equals itself, and is beyond all others where types are matched strictly and neither before nor after anything otherwise", 390)
	for _, op := range []string{"LessMatchType", "Less"} {
		fn, err := v.c.P.Method(relDT, "EncapsulatedValue", op)
		if err != nil {
			return err
		}
		tfn, err := v.c.P.Method(relDT, "DataType", op)
		if err != nil {
			return err
		}
		for _, a := range v.types {
			for _, b := range v.types {
				anyIn := a.t == nil || b.t == nil
				want := func(rel int) bool { return a.code < b.code || a.code == b.code && rel == flow.LT }
				if op == "Less" && anyIn {
					want = func(int) bool { return false }
				} else if anyIn {
					want = func(int) bool { return a.code < b.code }
				}
				v.compare(r, op, fn, a, b, v.value(a.code, v.data(a.t, "x")), v.value(b.code, v.data(b.t, "y")), want)
				if a.code != b.code || a.t == nil {
					v.compare(r, "type's "+op, tfn, a, b, v.dt(a.code), v.dt(b.code), want)
				}
			}
		}
	}
	return nil
}

func (v *values) compare(r, op string, fn *ssa.Function, a, b vtype, x, y *flow.Val, want func(int) bool) {
	name := fmt.Sprintf("%s of %s and %s", op, a.name, b.name)
	e := v.c.Engine(v.hooks())
	dx, dy := flow.Root("x", a.t), flow.Root("y", b.t)
	fail := ""
	pos := v.c.P.Pos(fn.Pos())
	var wit []string
	n := 0
	for _, ex := range e.Analyze(fn, []*flow.Val{x, y}, nil, flow.NewState()) {
		if ex.Panic {
			fail, pos, wit = "comparing them panics", v.c.P.Pos(ex.Pos), e.Witness(ex.St.Tr, 20)
			continue
		}
		rels := []int{flow.EQ}
		if a.t != nil && b.t != nil && a.name == b.name {
			rels = []int{flow.LT, flow.EQ, flow.GT}
		}
		for _, rel := range rels {
			s := ex.St.Clone()
			if len(rels) > 1 && !s.Restrict(dx, dy, rel) {
				continue
			}
			n++
			t := s.Truth(v.unwiden(ex.Res[0]))
			if t == -1 {
				fail, pos = "the answer does not follow from their order", v.c.P.Pos(ex.Pos)
			} else if (t == 1) != want(rel) {
				fail, pos = fmt.Sprintf("the answer is %v when the data is %s", t == 1, map[int]string{flow.LT: "less", flow.EQ: "equal", flow.GT: "greater"}[rel]), v.c.P.Pos(ex.Pos)
				wit = e.Witness(ex.St.Tr, 20)
			}
		}
	}
	if n == 0 && fail == "" {
		fail = "there is no answer"
	}
	v.c.Done(r, e)
	v.c.Check(fail == "", r, name, pos, name+": "+fail, wit...)
}

// unwiden compares the values themselves where a comparison is of converted ones.
func (v *values) unwiden(x *flow.Val) *flow.Val {
	for _, a := range x.Args {
		if w := widened(a); w.Key() != a.Key() {
			x = x.Replace(a, w)
		}
	}
	for _, a := range x.Args {
		if len(a.Args) > 0 && a.K == flow.KTerm {
			if w := v.unwiden(a); w.Key() != a.Key() {
				x = x.Replace(a, w)
			}
		}
	}
	return x
}

// validRule: what is a valid value.
func (v *values) validRule() error {
	const r = "valid"
	v.c.Rule(r, "a value is accepted exactly if its type is known and within the allowed types and its data is nil for Any, and otherwise of the type it names and not NaN; the values of a set are all checked", 240)
	fn, err := v.c.P.Method(relDT, "EncapsulatedValue", "Validate")
	if err != nil {
		return err
	}
	kvFn, err := v.c.P.Method(relDT, "KeyValues", "Validate")
	if err != nil {
		return err
	}
	kvT, err := v.c.P.Named(relDT, "KeyValues")
	if err != nil {
		return err
	}
	codes := append([]vtype{}, v.types...)
	for _, k := range []int64{-1, 0, 14, 1023, 1025} {
		used := false
		for _, t := range v.types {
			used = used || t.code == k
		}
		if !used {
			codes = append(codes, vtype{fmt.Sprintf("the unknown type %d", k), nil, k})
		}
	}
	kinds := append(append([]vtype{}, v.types...), vtype{"bool", types.Typ[types.Bool], 0})
	for _, c := range codes {
		for _, k := range kinds {
			for _, nan := range []bool{false, true} {
				if nan && (k.name != c.name || !strings.HasPrefix(c.name, "float")) {
					continue
				}
				known := !strings.HasPrefix(c.name, "the unknown")
				right := known && c.name == k.name && !nan
				name := fmt.Sprintf("%s with data of %s", c.name, k.name)
				if k.t == nil {
					name = c.name + " without data"
				}
				if nan {
					name = c.name + " that is not a number"
				}
				val := v.value(c.code, v.data(k.t, "x"))
				v.accept(r, name, fn, val, nil, nan, right, c.code)
				if c.name == k.name || !known {
					v.accept(r, "key values: "+name, kvFn, val, kvT, nan, right, c.code)
				}
			}
		}
	}
	// none at all
	e := v.c.Engine(v.hooks())
	e.Maps, e.Unroll = true, 3
	st := flow.NewState()
	bad := false
	for _, ex := range e.Analyze(kvFn, []*flow.Val{e.NewMap(st, "none", kvT), flow.Root("min", v.code), flow.Root("max", v.code)}, nil, st) {
		bad = bad || ex.Panic || resNil(ex, 0) != 0
	}
	v.c.Check(!bad, r, "no key values", v.c.P.Pos(kvFn.Pos()), "an empty set of key values is accepted")
	return nil
}

func (v *values) accept(r, name string, fn *ssa.Function, val *flow.Val, kvT types.Type, nan, right bool, code int64) {
	e := v.c.Engine(v.hooks())
	if nan {
		e.NaN = flow.Root("x", nil)
	}
	e.Maps, e.Unroll = true, 4
	st := flow.NewState()
	min, max := flow.Root("min", v.code), flow.Root("max", v.code)
	recv := val
	n := 1
	if kvT != nil {
		n = 2
	}
	fail, pos := "", v.c.P.Pos(fn.Pos())
	var wit []string
	for at := 0; at < n; at++ {
		st := st.Clone()
		if kvT != nil {
			// the value in question comes first or second
			es := []*flow.Val{flow.Tup(flow.Str("a"), val), flow.Tup(flow.Str("b"), v.value(v.types[0].code, v.data(v.types[0].t, "other")))}
			if at == 1 {
				es[0], es[1] = flow.Tup(flow.Str("a"), es[1].Args[1]), flow.Tup(flow.Str("b"), val)
			}
			recv = e.NewMap(st, "kvs", kvT, es...)
			// the other value is within the allowed types
			o := v.dt(v.types[0].code)
			st.Restrict(o, min, flow.GT|flow.EQ)
			st.Restrict(o, max, flow.LT|flow.EQ)
		}
		none := true
		for _, ex := range e.Analyze(fn, []*flow.Val{recv, min, max}, nil, st) {
			none = false
			if ex.Panic {
				fail, pos, wit = "checking it panics", v.c.P.Pos(ex.Pos), e.Witness(ex.St.Tr, 20)
				continue
			}
			nilRes := resNil(ex, 0)
			for _, lo := range []int{flow.LT, flow.EQ, flow.GT} {
				for _, hi := range []int{flow.LT, flow.EQ, flow.GT} {
					s := ex.St.Clone()
					if !s.Restrict(v.dt(code), min, lo) || !s.Restrict(v.dt(code), max, hi) {
						continue
					}
					ok := right && lo != flow.LT && hi != flow.GT
					switch {
					case ok && nilRes != 1:
						fail, pos, wit = "it is refused", v.c.P.Pos(ex.Pos), e.Witness(ex.St.Tr, 20)
					case !ok && nilRes != 0:
						fail, pos, wit = "it is accepted", v.c.P.Pos(ex.Pos), e.Witness(ex.St.Tr, 20)
						if right {
							fail = "it is accepted although its type is not allowed"
						}
					}
				}
			}
		}
		if none {
			fail = "there is no answer"
		}
	}
	v.c.Done(r, e)
	v.c.Check(fail == "", r, name, pos, name+": "+fail, wit...)
}

// wireRule: encoding and decoding.
func (v *values) wireRule() error {
	const r = "wire"
	v.c.Rule(r, "a valid value that is encoded and decoded is the same again; what cannot be of the type that is named is refused, and the text is read in the width of that type", 60)
	enc, err := methodOf(v.c, v.enc, "MarshalJSON")
	if err != nil {
		return fmt.Errorf("values held in maps are not encoded by their own method: %w", err)
	}
	dec, err := v.c.P.Method(relDT, "EncapsulatedValue", "UnmarshalJSON")
	if err != nil {
		return err
	}
	kvT, err := v.c.P.Named(relDT, "KeyValues")
	if err != nil {
		return err
	}
	kvDec, err := methodOf(v.c, types.NewPointer(kvT), "UnmarshalJSON")
	if err != nil {
		return err
	}
	for _, t := range v.types {
		// encode
		e := v.c.Engine(v.hooks())
		val := v.value(t.code, v.data(t.t, "x"))
		var wire *flow.Val
		fail := ""
		pos := v.c.P.Pos(enc.Pos())
		for _, ex := range e.Analyze(enc, []*flow.Val{val}, nil, flow.NewState()) {
			switch {
			case ex.Panic:
				fail, pos = "encoding it panics", v.c.P.Pos(ex.Pos)
			case ex.St.Mon["unparsed"] != 0:
				if resNil(ex, 1) != 0 {
					fail = "a failure of the encoder is not reported"
				}
			case resNil(ex, 1) != 1:
				fail, pos = "it cannot be encoded", v.c.P.Pos(ex.Pos)
			default:
				j := flow.Strip(ex.Res[0])
				if j.K != flow.KTerm || j.S != "json" || len(j.Args) != 2 || j.Args[1].T == nil {
					fail = "what is encoded is not known"
					continue
				}
				s, ok := j.Args[1].T.Underlying().(*types.Struct)
				if !ok {
					fail = "what is encoded is no object"
					continue
				}
				ti, di := tagged(s, "Type"), tagged(s, "Data")
				if ti < 0 || di < 0 {
					fail = "what is encoded has no Type or no Data"
					continue
				}
				tv, dv := part(j.Args[1], ti, s), part(j.Args[1], di, s)
				if k, ok := flow.IntVal(tv); !ok || k != t.code {
					fail = "it is encoded with another type"
					continue
				}
				wire = dv
			}
		}
		v.c.Done(r, e)
		name := "encoding of " + t.name
		if wire == nil && fail == "" {
			fail = "it is not encoded"
		}
		v.c.Check(fail == "", r, name, pos, name+": "+fail)
		if wire == nil {
			continue
		}
		if wire.K != flow.KIface && wire.K != flow.KNil && wire.T != nil && !types.IsInterface(wire.T) {
			wire = flow.IfaceOf(wire, wire.T)
		}
		if t.t == nil && wire.K != flow.KNil {
			v.c.Fail(r, name, pos, name+": Any is encoded with data")
			continue
		}
		if t.t != nil && (wire.K != flow.KIface || !types.Identical(wire.T, types.Typ[types.String])) {
			v.c.Fail(r, name, pos, name+": the data is not encoded as a text")
			continue
		}
		v.decode(r, "decoding of "+t.name, dec, t, wire, nil, true)
		v.decode(r, "decoding of key values with "+t.name, kvDec, t, wire, kvT, true)
	}
	// anything else
	str := flow.IfaceOf(flow.Root("text", types.Typ[types.String]), types.Typ[types.String])
	num := flow.IfaceOf(flow.Root("num", types.Typ[types.Float64]), types.Typ[types.Float64])
	for _, t := range append(append([]vtype{}, v.types...), vtype{"an unknown type", nil, 0}, vtype{"a type beyond Any", nil, 4096}) {
		for _, d := range []struct {
			n string
			v *flow.Val
		}{{"any text", str}, {"a number", num}, {"null", flow.NilOf(anyType())}} {
			if t.name == "any" && d.n == "null" {
				continue
			}
			v.decode(r, fmt.Sprintf("decoding of %s from %s", t.name, d.n), dec, t, d.v, nil, false)
			v.decode(r, fmt.Sprintf("decoding of key values with %s from %s", t.name, d.n), kvDec, t, d.v, kvT, false)
		}
	}
	return nil
}

func part(x *flow.Val, i int, s *types.Struct) *flow.Val {
	if x.K == flow.KStruct {
		return x.Args[i]
	}
	if p := flow.Project(x, s.Field(i)); p != nil {
		return p
	}
	return flow.NilOf(s.Field(i).Type())
}

// decode follows the decoder on what is on the wire: back says that it is the text of the value x of the type.
func (v *values) decode(r, name string, fn *ssa.Function, t vtype, wire *flow.Val, kvT types.Type, back bool) {
	e := v.c.Engine(v.hooks())
	e.Maps, e.Unroll = true, 4
	st := flow.NewState()
	st.MonV["wire:code"], st.MonV["wire:data"], st.MonV["wire:key"] = v.dt(t.code), wire, flow.Str("k")
	target := types.Type(v.enc)
	if kvT != nil {
		target = kvT
	}
	dst := flow.Root("dst", types.NewPointer(target))
	st.Restrict(dst, flow.NilOf(dst.T), flow.LT|flow.GT)
	if kvT != nil {
		st.Store(dst, flow.NilOf(kvT))
	}
	fail, pos := "", v.c.P.Pos(fn.Pos())
	var wit []string
	n := 0
	for _, ex := range e.Analyze(fn, []*flow.Val{dst, flow.Root("b", types.NewSlice(types.Typ[types.Byte]))}, nil, st) {
		bad := func(s string) { fail, pos, wit = s, v.c.P.Pos(ex.Pos), e.Witness(ex.St.Tr, 20) }
		n++
		if ex.Panic {
			bad("it panics")
			continue
		}
		ok := resNil(ex, 0)
		if ex.St.Mon["unparsed"] != 0 {
			if ok != 0 {
				bad("what cannot be read is accepted")
			}
			continue
		}
		text := wire.K == flow.KIface && types.Identical(wire.T, types.Typ[types.String])
		valid := back || text && t.t != nil
		if !valid {
			if ok != 0 {
				bad("it is accepted")
			}
			continue
		}
		if ok != 1 {
			bad("it is refused")
			continue
		}
		var code, data *flow.Val
		s := v.enc.Underlying().(*types.Struct)
		at := dst
		var got *flow.Val
		if kvT != nil {
			es, known := e.Entries(ex.St, e.LoadAt(ex.St, dst, kvT))
			if !known || len(es) != 1 || es[0].Args[0].Key() != flow.Str("k").Key() {
				bad("the key is not decoded")
				continue
			}
			got = es[0].Args[1]
		}
		for i := 0; i < s.NumFields(); i++ {
			var f *flow.Val
			if got != nil {
				f = part(got, i, s)
			} else {
				f = e.LoadAt(ex.St, flow.FieldAddr(at, s.Field(i)), s.Field(i).Type())
			}
			switch s.Field(i).Name() {
			case "Type":
				code = f
			case "Data":
				data = f
			}
		}
		if k, isInt := flow.IntVal(code); !isInt || k != t.code {
			bad("it has another type")
			continue
		}
		switch {
		case t.t == nil:
			if data.K != flow.KNil && ex.St.IsNil(data) != 1 {
				bad("Any has data")
			}
		case data.K != flow.KIface || !types.Identical(data.T, t.t):
			bad("its data is of another type")
		case back:
			if w := widened(data); w.Key() != flow.Root("x", t.t).Key() {
				bad("its data is not the one that was encoded")
			}
		case t.name == "string":
			if flow.Strip(data).Key() != flow.Root("text", nil).Key() {
				bad("its data is not the text")
			}
		default:
			p := flow.Strip(data)
			bits, signed, integer := sizeOf(t.t)
			want := map[bool]string{true: "parsed:ParseInt", false: "parsed:ParseUint"}[signed]
			if !integer {
				want = "parsed:ParseFloat"
			}
			if p.K == flow.KTerm && p.S == "parsed:Atoi" && want == "parsed:ParseInt" && bits == 64 {
				p = flow.Term(want, p.T, p.Args...)
			}
			if p.K != flow.KTerm || p.S != want {
				bad("its text is not read as the number it names")
				continue
			}
			if k, ok := flow.IntVal(p.Args[len(p.Args)-1]); !ok || int(k) != bits && !(k == 0 && bits == 64) {
				bad("its text is read in another width than that of its type")
			}
			if !holdsAll(data, t.t) {
				bad("its text is converted through another type")
			}
		}
	}
	if n == 0 {
		fail = "there is no outcome"
	}
	v.c.Done(r, e)
	v.c.Check(fail == "", r, name, pos, name+": "+fail, wit...)
}

// holdsAll: no conversion on the way to the value is to a type that cannot hold all values of its final type.
func holdsAll(d *flow.Val, t types.Type) bool {
	for d.K == flow.KIface || d.K == flow.KTerm && d.S == "conv" {
		if d.K == flow.KTerm && d.T != nil && !holds(d.T, t) {
			return false
		}
		d = d.Args[0]
	}
	return true
}

// rangeRule: type restrictions.
func (v *values) rangeRule() error {
	const r = "restrictions"
	v.c.Rule(r, "type restrictions are valid exactly if both ends are known types in order, and contain exactly the types between them, ends included", 30)
	rt, err := v.c.P.Named("pkg/models/api/common/v1", "TypeRestrictions")
	if err != nil {
		return err
	}
	s, ok := rt.Underlying().(*types.Struct)
	if !ok {
		return fmt.Errorf("TypeRestrictions is no struct")
	}
	mk := func(lo, hi *flow.Val) *flow.Val {
		var fs []*flow.Val
		for i := 0; i < s.NumFields(); i++ {
			switch s.Field(i).Name() {
			case "MinDataType":
				fs = append(fs, lo)
			case "MaxDataType":
				fs = append(fs, hi)
			default:
				fs = append(fs, flow.ZeroOf(s.Field(i).Type()))
			}
		}
		return flow.StructVal(rt, fs...)
	}
	within, err := v.c.P.Method("pkg/models/api/common/v1", "TypeRestrictions", "TypeWithinRange")
	if err != nil {
		return err
	}
	lo, hi, x := flow.Root("lo", v.code), flow.Root("hi", v.code), flow.Root("x", v.code)
	e := v.c.Engine(v.hooks())
	fail := ""
	for _, ex := range e.Analyze(within, []*flow.Val{mk(lo, hi), x}, nil, flow.NewState()) {
		if ex.Panic {
			fail = "it panics"
			continue
		}
		for _, a := range []int{flow.LT, flow.EQ, flow.GT} {
			for _, b := range []int{flow.LT, flow.EQ, flow.GT} {
				st := ex.St.Clone()
				if !st.Restrict(x, lo, a) || !st.Restrict(x, hi, b) {
					continue
				}
				if t := st.Truth(ex.Res[0]); t == -1 || (t == 1) != (a != flow.LT && b != flow.GT) {
					fail = fmt.Sprintf("the answer for a type that is %s the first and %s the last is wrong", relName(a), relName(b))
				}
			}
		}
	}
	v.c.Done(r, e)
	v.c.Check(fail == "", r, "a type within restrictions", v.c.P.Pos(within.Pos()), fail)
	valid, err := v.c.P.Method("pkg/models/api/common/v1", "TypeRestrictions", "Validate")
	if err != nil {
		return err
	}
	codes := append(append([]vtype{}, v.types...), vtype{"unknown", nil, 0}, vtype{"beyond", nil, 4096})
	for _, a := range codes {
		for _, b := range codes {
			e := v.c.Engine(v.hooks())
			want := a.name != "unknown" && a.name != "beyond" && b.name != "unknown" && b.name != "beyond" && a.code <= b.code
			fail := ""
			for _, ex := range e.Analyze(valid, []*flow.Val{mk(v.dt(a.code), v.dt(b.code))}, nil, flow.NewState()) {
				switch {
				case ex.Panic:
					fail = "checking them panics"
				case want && resNil(ex, 0) != 1:
					fail = "they are refused"
				case !want && resNil(ex, 0) != 0:
					fail = "they are accepted"
				}
			}
			name := fmt.Sprintf("restrictions from %s to %s", a.name, b.name)
			v.c.Done(r, e)
			v.c.Check(fail == "", r, name, v.c.P.Pos(valid.Pos()), name+": "+fail)
		}
	}
	return nil
}

func relName(b int) string {
	return map[int]string{flow.LT: "before", flow.EQ: "equal to", flow.GT: "after"}[b]
}
