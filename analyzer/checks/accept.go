package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

func init() {
	register("A05", "No request body makes a service panic", checkA05)
}

// checkA05 follows every registered handler with the request's body unknown, through the validation the code performs
// and into the operation it runs.
func checkA05(c *Ctx) error {
	c.Rule("null", "on every path from decoding to the end of the operation a pointer that came with the body is dereferenced only where it is known not to be null", 8)
	c.Rule("duration", "a duration that came with the body is kept, handed on or given to a timer only where it is known to be positive", 2)
	c.Rule("type", "no type assertion and no method call on what validation found out panics", 8)
	c.Rule("elements", "a body that has a list with a null in it is refused", 1)
	if elementCheck(c) == 0 {
		return fmt.Errorf("no body with a list found")
	}
	rs := registrations(c, "null")
	n := 0
	for _, r := range rs {
		if r.name == "the function registered for it" || r.handler.K != flow.KFn || r.handler.Fn == nil {
			continue
		}
		n++
		acceptCheck(c, r)
	}
	if n == 0 {
		return fmt.Errorf("no route registrations found")
	}
	return nil
}

func isDuration(t types.Type) bool {
	_, ptr := t.Underlying().(*types.Pointer)
	return !ptr && typeIs(t, "time", "Duration")
}

func acceptCheck(c *Ctx, r route) {
	construct := r.method + " " + r.path
	fn := r.handler.Fn
	body := func(st *flow.State) *flow.Val { return st.MonV["bodyval"] }
	decoded := false
	var e *flow.Engine
	base := handlerHooks(c, r, func(st *flow.State, ab, what string) {})
	fromBody := func(st *flow.State, v *flow.Val) bool {
		b := body(st)
		return b != nil && v != nil && partOf(v, b, st.MonV["body"])
	}
	fail := func(rule string, st *flow.State, pos token.Pos, what string) {
		c.Fail(rule, construct+" | "+what, c.P.Pos(pos), what, e.Witness(st.Tr, 30)...)
	}
	positive := func(st *flow.State, v *flow.Val, pos token.Pos, how string) {
		if v == nil || v.T == nil || !isDuration(v.T) || !fromBody(st, v) {
			return
		}
		c.Ob("duration", construct)
		if rel := st.Rel(v, flow.Int(0)); rel != flow.GT {
			fail("duration", st, pos, "a duration of the body is "+how+" without being known to be positive")
		}
	}
	// what is established about the parts of the body when a validation accepts is all that is kept of it
	validated := func(e *flow.Engine, st *flow.State, ci *flow.CallInfo, name string) []flow.Exit {
		t := ci.Res.At(0).Type()
		in := st.Clone()
		in.Set("entering", 1)
		in.Inc("in "+name, 1)
		var out []flow.Exit
		seen := map[string]bool{}
		refuses := false
		for _, x := range e.Call(in, ci) {
			if x.Panic {
				fail("type", x.St, x.Pos, "validating the body panics")
				continue
			}
			if x.St.IsNil(x.Res[0]) != 1 {
				refuses = true
			}
			if x.St.IsNil(x.Res[0]) == 0 {
				continue
			}
			ok := st.Clone()
			ok.Tr = x.St.Tr
			sig := bodyFacts(e, x.St, ok, st.MonV["body"], nil, 0)
			if !seen[sig] {
				seen[sig] = true
				out = append(out, flow.Exit{St: ok, Res: []*flow.Val{flow.NilOf(t)}, Pos: ci.Pos})
			}
		}
		if refuses {
			er := e.Fresh(st, ci.Instr, "invalid", t)
			st.Restrict(er, flow.NilOf(t), flow.LT|flow.GT)
			out = append(out, flow.Exit{St: st, Res: []*flow.Val{er}, Pos: ci.Pos})
		}
		return out
	}
	h := &flow.Hooks{}
	h.Lookup = base.Lookup
	tree := &TreeModel{Once: true, Err: func(*flow.Val, string) bool { return false }, Present: func(e *flow.Engine, st *flow.State, tree, key *flow.Val, op string) int { return -1 }}
	h.Deref = func(e *flow.Engine, st *flow.State, ptr *flow.Val, in ssa.Instruction) {
		if !fromBody(st, ptr) {
			return
		}
		for ptr.K == flow.KAddr {
			ptr = ptr.Args[0]
		}
		if !fromBody(st, ptr) || ptr.Key() == body(st).Key() || ptr.T == nil {
			return
		}
		if _, ok := ptr.T.Underlying().(*types.Pointer); !ok {
			return
		}
		decoded = true
		if st.IsNil(ptr) != 0 {
			fail("null", st, in.Pos(), fmt.Sprintf("%s of the body may be null where it is used", bodyPath(ptr)))
			st.Restrict(ptr, flow.NilOf(ptr.T), flow.LT|flow.GT)
		}
	}
	h.Store = func(e *flow.Engine, st *flow.State, addr, val *flow.Val, in ssa.Instruction) {
		if addr.K == flow.KAddr && addr.Field != nil {
			positive(st, val, in.Pos(), "kept")
		}
	}
	h.Resolve = func(m *types.Func, recv *flow.Val) types.Type {
		if m.Pkg() == nil || !c.P.InModule(m.Pkg().Path()) || strings.Contains(m.Pkg().Path(), "/pkg/clients") {
			return nil
		}
		it, ok := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		var impl types.Type
		for _, t := range c.P.Implementers(it) {
			if n := namedOf(t); n == nil || n.Obj().Pkg() == nil || strings.Contains(n.Obj().Pkg().Path(), "fakes") {
				continue
			}
			if impl != nil {
				return nil
			}
			impl = t
		}
		return impl
	}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		m := callee(ci)
		recv, args := argsOf(ci)
		name := ""
		if m != nil {
			name = m.FullName()
		}
		if ci.Go {
			ci2 := *ci
			ci2.Go = false
			s2 := st.Clone()
			s2.Set("async", 1)
			if s2.Mon["async"] == 1 && ci.Fn != nil {
				e.Call(s2, &ci2)
			}
			return []flow.Exit{{St: st, Pos: ci.Pos}}, true
		}
		if m != nil && m.Name() == "Error" && ci.Res != nil && ci.Res.Len() == 1 && len(args) == 0 {
			return e.Unknown(st, ci), true
		}
		switch name {
		case "time.NewTicker", "time.NewTimer", "time.After", "time.Tick", "(*time.Ticker).Reset":
			positive(st, args[len(args)-1], ci.Pos, "given to a timer")
		}
		if st.Mon["entering"] > 0 {
			st.Set("entering", 0)
			return nil, false
		}
		if m != nil && m.Pkg() != nil && recv != nil && ci.Res != nil && ci.Res.Len() == 1 && (strings.HasSuffix(m.Pkg().Path(), "/datatypes") || ci.Fn != nil && ci.Fn.Synthetic == "" && st.Mon["in "+name] > 0) {
			if strings.HasPrefix(m.Name(), "Validate") {
				t := ci.Res.At(0).Type()
				er := e.Fresh(st, ci.Instr, "invalid", t)
				ok := st.Clone()
				st.Restrict(er, flow.NilOf(t), flow.LT|flow.GT)
				return []flow.Exit{{St: ok, Res: []*flow.Val{flow.NilOf(t)}, Pos: ci.Pos}, {St: st, Res: []*flow.Val{er}, Pos: ci.Pos}}, true
			}
			return e.Unknown(st, ci), true
		}
		if ex, ok := tree.Call(e, st, ci); ok {
			return ex, ok
		}
		if ci.Fn == nil || ci.Fn.Pkg == nil || !c.P.InModule(ci.Fn.Pkg.Pkg.Path()) {
			for _, a := range args {
				positive(st, a, ci.Pos, "handed on")
			}
		}
		// the remote services
		if m != nil && m.Pkg() != nil && strings.Contains(m.Pkg().Path(), "/pkg/clients") {
			return e.Unknown(st, ci), true
		}
		inModule := m != nil && m.Pkg() != nil && c.P.InModule(m.Pkg().Path())
		if b := body(st); b != nil && inModule && strings.Contains(m.Pkg().Path(), "/internal/") && !strings.HasSuffix(m.Pkg().Path(), "/handlers") {
			use := false
			for _, a := range append([]*flow.Val{recv}, args...) {
				use = use || a != nil && carries(st, a, 0)
			}
			if ci.FnVal != nil {
				use = use || carries(st, ci.FnVal, 0)
			}
			if !use {
				return e.Unknown(st, ci), true
			}
		}
		if inModule {
			if strings.HasPrefix(m.Name(), "Validate") && ci.Fn != nil && ci.Fn.Synthetic == "" && ci.Res != nil && ci.Res.Len() == 1 {
				return validated(e, st, ci, name), true
			}
			if strings.HasPrefix(m.Name(), "Validate") {
				return nil, false
			}
			if recv != nil {
				if f := flow.FieldOf(recv); f != nil && c.isHandlerField(f) && !strings.Contains(m.Pkg().Path(), "/config") {
					return nil, false
				}
			}
		}
		return base.Call(e, st, ci)
	}
	e = c.Engine(h)
	st := r.st.Clone()
	args := []*flow.Val{flow.Root("w", fn.Signature.Params().At(0).Type()), flow.Root("req", fn.Signature.Params().At(1).Type())}
	for _, x := range e.Analyze(fn, args, r.handler.Args, st) {
		if body(x.St) == nil {
			continue
		}
		decoded = true
		// other panics are about what the service finds, not about what it is sent
		if x.Panic && strings.HasPrefix(c.P.Pos(x.Pos), "pkg/models/") {
			fail("type", x.St, x.Pos, "the request ends in a panic")
		}
	}
	c.Done("null", e)
	if decoded {
		c.Ob("null", construct)
		c.Ob("type", construct)
	}
}

// bodyFacts carries over what is known of the body's pointers and durations, and says what that is.
func bodyFacts(e *flow.Engine, from, to *flow.State, obj *flow.Val, path []string, depth int) string {
	if obj == nil || depth > 6 {
		return ""
	}
	p, ok := obj.T.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	sig := ""
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		v := e.LoadField(from, obj, f)
		if v == nil {
			continue
		}
		sig += fact(from, to, v, v.T)
		if fp, ok := f.Type().Underlying().(*types.Pointer); ok && from.IsNil(v) != 1 {
			if _, isStruct := fp.Elem().Underlying().(*types.Struct); isStruct {
				if n := namedOf(fp.Elem()); n == nil || p.Elem() != fp.Elem() {
					sig += "(" + bodyFacts(e, from, to, v, append(path, f.Name()), depth+1) + ")"
				}
			} else if d := e.LoadAt(from, v, fp.Elem()); d != nil {
				sig += fact(from, to, d, fp.Elem())
			}
		}
	}
	return sig
}

func fact(from, to *flow.State, v *flow.Val, t types.Type) string {
	switch {
	case isDuration(t):
		r := from.Rel(v, flow.Int(0))
		to.Restrict(v, flow.Int(0), r)
		return fmt.Sprint("d", r)
	default:
		if _, ok := t.Underlying().(*types.Pointer); ok {
			n := from.IsNil(v)
			switch n {
			case 0:
				to.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
			case 1:
				to.Restrict(v, flow.NilOf(v.T), flow.EQ)
			}
			return fmt.Sprint("p", n)
		}
	}
	return ""
}

// partOf: the value is found in the body by following fields, pointers and elements, or is computed from such values.
func partOf(v, val, obj *flow.Val) bool {
	for {
		v = flow.Strip(v)
		switch k := v.Key(); {
		case k == val.Key() || obj != nil && k == obj.Key():
			return true
		case v.K == flow.KAddr || v.K == flow.KTerm && (v.S == "fld" || strings.HasPrefix(v.S, "ld")):
			v = v.Args[0]
		case v.K == flow.KTerm && v.T != nil && isDuration(v.T):
			for _, a := range v.Args {
				if a.T != nil && isDuration(a.T) && partOf(a, val, obj) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// carries: the value leads to a part of the body, also through the variables a closure captures.
func carries(st *flow.State, v *flow.Val, depth int) bool {
	part := func(x *flow.Val) bool {
		if x = flow.Strip(x); x.T == nil {
			return true
		}
		t := x.T
		if isDuration(t) {
			return true
		}
		if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/datatypes") {
			return false
		}
		_, basic := t.Underlying().(*types.Basic)
		return !basic
	}
	if v = flow.Strip(v); v.K != flow.KFn && !part(v) {
		return false
	}
	for _, k := range []string{"body", "bodyval"} {
		if b := st.MonV[k]; b != nil && containsVal(v, b) {
			return true
		}
	}
	if depth > 3 {
		return false
	}
	v = flow.Strip(v)
	if v.K == flow.KFn {
		for _, a := range v.Args {
			if carries(st, a, depth+1) {
				return true
			}
		}
		return false
	}
	if v.T == nil {
		return false
	}
	if _, ok := v.T.Underlying().(*types.Pointer); ok && v.K == flow.KSym && v.Alloc {
		found := false
		st.Reach(v, func(x *flow.Val) {
			for _, k := range []string{"body", "bodyval"} {
				if b := st.MonV[k]; b != nil && part(x) && containsVal(x, b) {
					found = true
				}
			}
			if x.K == flow.KFn && carries(st, x, depth+1) {
				found = true
			}
		})
		return found
	}
	return false
}

// bodyPath names a part of the body.
func bodyPath(v *flow.Val) string {
	var p []string
	for v != nil {
		if f := flow.FieldOf(v); f != nil {
			p = append([]string{f.Name()}, p...)
			v = flow.BaseOf(v)
			continue
		}
		if len(v.Args) == 0 {
			break
		}
		v = v.Args[0]
	}
	if len(p) == 0 {
		return "a part"
	}
	return strings.Join(p, ".")
}

// elementCheck lays out a body whose list holds a null, alone or behind an element that is fine: it has to be refused,
// because nobody looks again.
func elementCheck(c *Ctx) int {
	n := 0
	for _, fn := range c.P.AllFuncs {
		if fn.Pkg == nil || fn.Signature.Recv() == nil || !strings.Contains(fn.Pkg.Pkg.Path(), "/pkg/models/api/") ||
			!strings.HasPrefix(fn.Name(), "Validate") || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
			continue
		}
		st := structOf(deref(fn.Signature.Recv().Type()))
		for i := 0; st != nil && i < st.NumFields(); i++ {
			sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if p, ok := sl.Elem().Underlying().(*types.Pointer); !ok || structOf(p.Elem()) == nil {
				continue
			}
			n++
			for _, behind := range []bool{false, true} {
				refusesNull(c, fn, st, st.Field(i), sl.Elem(), behind)
			}
		}
	}
	return n
}

func refusesNull(c *Ctx, fn *ssa.Function, strct *types.Struct, f *types.Var, elem types.Type, behind bool) {
	construct := c.P.Rel(fn.String()) + " | " + f.Name()
	other := flow.Root("an element", elem)
	h := &flow.Hooks{}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		m := callee(ci)
		recv, _ := argsOf(ci)
		if m == nil || ci.Res == nil {
			return nil, false
		}
		if recv != nil && sameVal(recv, other) && ci.Res.Len() == 1 {
			return []flow.Exit{{St: st, Res: []*flow.Val{flow.NilOf(ci.Res.At(0).Type())}, Pos: ci.Pos}}, true
		}
		if m.Pkg() == nil || !c.P.InModule(m.Pkg().Path()) {
			return e.Unknown(st, ci), true
		}
		return nil, false
	}
	e := c.Engine(h)
	e.Maps, e.Unroll, e.Recur = true, 6, 3
	st := flow.NewState()
	body := flow.Root("the body", fn.Signature.Recv().Type())
	el := []*flow.Val{flow.NilOf(elem)}
	how := "a null"
	if behind {
		el, how = []*flow.Val{other, flow.NilOf(elem)}, "a null behind another element"
		st.Restrict(other, flow.NilOf(elem), flow.LT|flow.GT)
	}
	if _, ok := body.T.Underlying().(*types.Pointer); ok {
		st.Restrict(body, flow.NilOf(body.T), flow.LT|flow.GT)
	}
	for i := 0; i < strct.NumFields(); i++ {
		g := strct.Field(i)
		switch {
		case g == f:
			v := e.FixedSlice(st, "list", f.Type(), el...)
			st.Restrict(v, flow.NilOf(f.Type()), flow.LT|flow.GT)
			st.Store(flow.FieldAddr(body, f), v)
		default:
			switch g.Type().Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map:
				st.Store(flow.FieldAddr(body, g), flow.NilOf(g.Type()))
			}
		}
	}
	c.Ob("elements", construct)
	bad := false
	for _, x := range e.Analyze(fn, []*flow.Val{body}, nil, st) {
		if !bad && !x.Panic && x.St.IsNil(x.Res[0]) != 0 {
			bad = true
			c.Fail("elements", construct+" | accepted", c.P.Pos(x.Pos), "a body whose "+f.Name()+" holds "+how+" is accepted, and using it panics", e.Witness(x.St.Tr, 30)...)
		}
		if !bad && x.Panic {
			bad = true
			c.Fail("elements", construct+" | panic", c.P.Pos(x.Pos), "validating a body whose "+f.Name()+" holds "+how+" panics", e.Witness(x.St.Tr, 30)...)
		}
	}
	c.Done("elements", e)
}
