// Package flow is a disjunctive, interprocedural dataflow analysis over SSA (property simulation in the style of
// ESP): per program point it keeps a finite set of abstract states, each pairing an event monitor's state with the
// branch facts that correlate with it, and iterates to a fixpoint. Nothing is executed and no solver is consulted.
package flow

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KConst Kind = iota
	KNil
	KZero
	KSym
	KAddr
	KFn
	KTuple
	KIface
	KStruct
	KTerm
)

// Val is an abstract value. Values are immutable; key identifies them.
type Val struct {
	K     Kind
	S     string // symbol name, or operator of a term
	T     types.Type
	C     constant.Value
	Fn    *ssa.Function
	Field *types.Var // for field addresses and field projections
	Args  []*Val
	Alloc bool // symbol is a fresh allocation
	Root  bool // symbol exists outside the analysed activation (parameter, global)
	key   string
	depth int
}

func mk(v *Val) *Val {
	var b strings.Builder
	switch v.K {
	case KConst:
		b.WriteString("c:")
		b.WriteString(v.C.ExactString())
	case KNil:
		b.WriteString("nil")
	case KZero:
		b.WriteString("zero<")
		b.WriteString(tstr(v.T))
		b.WriteString(">")
	case KSym:
		b.WriteString(v.S)
	case KFn:
		fmt.Fprintf(&b, "fn<%p>", v.Fn)
	case KAddr:
		b.WriteString("&")
	case KTuple:
		b.WriteString("tup")
	case KIface:
		b.WriteString("if<")
		b.WriteString(tstr(v.T))
		b.WriteString(">")
	case KStruct:
		b.WriteString("st<")
		b.WriteString(tstr(v.T))
		b.WriteString(">")
	case KTerm:
		b.WriteString("t:")
		b.WriteString(v.S)
	}
	d := 0
	if len(v.Args) > 0 || v.K == KAddr {
		b.WriteString("(")
		for i, a := range v.Args {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(a.key)
			if a.depth > d {
				d = a.depth
			}
		}
		b.WriteString(")")
	}
	if v.K == KAddr {
		b.WriteString(v.S)
	}
	if v.K == KTerm || v.K == KStruct {
		d++
	}
	v.depth = d
	v.key = b.String()
	return v
}

func tstr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

func (v *Val) Key() string { return v.key }
func (v *Val) String() string {
	return v.key
}

func (v *Val) aged() bool { return strings.Contains(v.key, "~") }

func Const(c constant.Value, t types.Type) *Val { return mk(&Val{K: KConst, C: c, T: t}) }
func Bool(b bool) *Val                          { return Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func Int(i int64) *Val                          { return Const(constant.MakeInt64(i), types.Typ[types.Int]) }
func Str(s string) *Val                         { return Const(constant.MakeString(s), types.Typ[types.String]) }
func NilOf(t types.Type) *Val                   { return mk(&Val{K: KNil, T: t}) }
func Root(name string, t types.Type) *Val {
	return mk(&Val{K: KSym, S: "$" + name + ";", T: t, Root: true})
}
func Tup(args ...*Val) *Val { return mk(&Val{K: KTuple, Args: args}) }
func Closure(fn *ssa.Function, b []*Val) *Val {
	return mk(&Val{K: KFn, Fn: fn, Args: b, T: fn.Signature})
}
func Term(op string, t types.Type, args ...*Val) *Val {
	return mk(&Val{K: KTerm, S: op, T: t, Args: args})
}
func IfaceOf(x *Val, dyn types.Type) *Val { return mk(&Val{K: KIface, T: dyn, Args: []*Val{x}}) }

func fieldAddr(base *Val, f *types.Var) *Val {
	return mk(&Val{K: KAddr, S: "." + f.Name(), Field: f, T: types.NewPointer(f.Type()), Args: []*Val{base}})
}
func indexAddr(base *Val, idx string, elem types.Type) *Val {
	return mk(&Val{K: KAddr, S: "[" + idx + "]", T: types.NewPointer(elem), Args: []*Val{base}})
}

// IndexAddr is the address of an element.
func IndexAddr(base, idx *Val, elem types.Type) *Val { return indexAddr(base, idx.key, elem) }

// Project is a field of a struct value.
func Project(v *Val, f *types.Var) *Val { return project(v, fieldAddr(v, f), f.Type()) }

// FieldAddr is the address of a field of the object base points to.
func FieldAddr(base *Val, f *types.Var) *Val { return fieldAddr(base, f) }

func ZeroOf(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Const(constant.MakeBool(false), t)
		case u.Info()&types.IsInteger != 0:
			return Const(constant.MakeInt64(0), t)
		case u.Info()&types.IsString != 0:
			return Const(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return Const(constant.MakeFloat64(0), t)
		}
		return NilOf(t)
	case *types.Struct, *types.Array:
		return mk(&Val{K: KZero, T: t})
	case *types.Tuple:
		return mk(&Val{K: KZero, T: t})
	}
	return NilOf(t)
}

// rootOf walks an address to its base value.
func rootOf(a *Val) *Val {
	for a.K == KAddr {
		a = a.Args[0]
	}
	return a
}

// walk visits v and every component.
func (v *Val) walk(f func(*Val)) {
	f(v)
	for _, a := range v.Args {
		a.walk(f)
	}
}

// subst replaces the symbol with key from by to.
func (v *Val) subst(from string, to *Val) *Val {
	if !strings.Contains(v.key, from) {
		return v
	}
	if v.K == KSym {
		if v.S == from {
			return to
		}
		return v
	}
	args := make([]*Val, len(v.Args))
	for i, a := range v.Args {
		args[i] = a.subst(from, to)
	}
	n := *v
	n.Args = args
	if n.K == KTerm && strings.Contains(n.S, from) {
		n.S = strings.ReplaceAll(n.S, from, to.S)
	}
	return mk(&n)
}

// Strip removes interface wrapping, conversions and assertions.
func Strip(v *Val) *Val {
	for {
		switch {
		case v.K == KIface:
			v = v.Args[0]
		case v.K == KTerm && (v.S == "ta" || v.S == "conv"):
			v = v.Args[0]
		default:
			return v
		}
	}
}

// FieldOf returns the struct field a value was loaded from, if any.
func FieldOf(v *Val) *types.Var {
	v = Strip(v)
	if v.K == KTerm && (strings.HasPrefix(v.S, "ld") || v.S == "fld") {
		if v.S == "fld" {
			return v.Field
		}
		if a := v.Args[0]; a.K == KAddr {
			return a.Field
		}
	}
	return nil
}

// BaseOf returns the object a value was loaded from via a field (nil if not a field load).
func BaseOf(v *Val) *Val {
	v = Strip(v)
	if v.K == KTerm && strings.HasPrefix(v.S, "ld") && v.Args[0].K == KAddr {
		return v.Args[0].Args[0]
	}
	if v.K == KTerm && v.S == "fld" {
		return v.Args[0]
	}
	return nil
}

// LoadAddr returns the address a loaded value came from.
func LoadAddr(v *Val) *Val {
	v = Strip(v)
	if v.K == KTerm && strings.HasPrefix(v.S, "ld") {
		return v.Args[0]
	}
	return nil
}

func IsTrue(v *Val) bool {
	return v.K == KConst && v.C.Kind() == constant.Bool && constant.BoolVal(v.C)
}
func IsFalse(v *Val) bool {
	return v.K == KConst && v.C.Kind() == constant.Bool && !constant.BoolVal(v.C)
}
func IntVal(v *Val) (int64, bool) {
	if v.K == KConst && v.C.Kind() == constant.Int {
		return constant.Int64Val(v.C)
	}
	return 0, false
}
func StrVal(v *Val) (string, bool) {
	if v != nil && v.K == KConst && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	return "", false
}
