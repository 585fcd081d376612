package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

func init() {
	register("R01", "A context carries what is taken from it", checkR01)
}

// ctxKey names the key of a context value.
func ctxKey(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.Const:
			if x.Value == nil {
				return ""
			}
			return x.Type().String() + " " + x.Value.String()
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok {
				return g.String()
			}
		}
		return ""
	}
}

// ctxFrame is the call through which a function is entered.
type ctxFrame struct {
	call ssa.CallInstruction
	fn   *ssa.Function
	up   *ctxFrame
}

type ctxFlow struct {
	*lockFlow
	callers map[*ssa.Function][]ssa.CallInstruction
	fields  map[*types.Var][]ssa.Value
	outside map[*ssa.Function]bool // runs because something outside the module calls it, with a context of its own
	seen    map[string]bool
	n       int
}

func (c *Ctx) ctxFlow() *ctxFlow {
	x := &ctxFlow{lockFlow: c.lockFlow(), callers: map[*ssa.Function][]ssa.CallInstruction{}, fields: map[*types.Var][]ssa.Value{}, outside: map[*ssa.Function]bool{}}
	// functions that are used as values, by signature
	bySig := map[string][]*ssa.Function{}
	hasCtx := func(s *types.Signature) bool {
		for i := 0; i < s.Params().Len(); i++ {
			if isContext(s.Params().At(i).Type()) {
				return true
			}
		}
		return false
	}
	sigKey := func(s *types.Signature) string {
		return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
	}
	addr := map[*ssa.Function]bool{}
	each := func(do func(fn *ssa.Function, in ssa.Instruction)) {
		for _, fn := range c.P.AllFuncs {
			eachInstr(fn, func(in ssa.Instruction) { do(fn, in) })
		}
	}
	each(func(fn *ssa.Function, in ssa.Instruction) {
		var ops [12]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			var g *ssa.Function
			if f, ok := (*o).(*ssa.Function); ok {
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().Value == f {
					continue
				}
				g = f
			}
			if g != nil && !addr[g] && hasCtx(g.Signature) {
				addr[g] = true
				bySig[sigKey(g.Signature)] = append(bySig[sigKey(g.Signature)], g)
			}
		}
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isContext(deref(fa.Type())) {
				v := structOf(deref(fa.X.Type())).Field(fa.Field)
				x.fields[v] = append(x.fields[v], st.Val)
			}
		}
	})
	each(func(fn *ssa.Function, in ssa.Instruction) {
		call, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		com := call.Common()
		ts := x.targets(com)
		ts = append(ts, x.closures(com.Value)...)
		if !com.IsInvoke() && com.StaticCallee() == nil && hasCtx(com.Signature()) {
			ts = append(ts, bySig[sigKey(com.Signature())]...)
		}
		done := map[*ssa.Function]bool{}
		for _, g := range ts {
			if !done[g] {
				done[g] = true
				x.callers[g] = append(x.callers[g], call)
			}
		}
	})
	// bound methods call the method
	for g := range addr {
		if strings.HasSuffix(g.Name(), "$bound") || strings.HasSuffix(g.Name(), "$thunk") {
			if len(g.Blocks) == 0 {
				continue
			}
			eachInstr(g, func(in ssa.Instruction) {
				if call, ok := in.(ssa.CallInstruction); ok {
					for _, t := range x.targets(call.Common()) {
						x.callers[t] = append(x.callers[t], call)
					}
				}
			})
		}
	}
	return x
}

func isContext(t types.Type) bool { return typeIs(t, "context", "Context") }

// missing finds where a context may come from without the key: what, where and the way from there.
func (x *ctxFlow) missing(v ssa.Value, key string, fr *ctxFrame, depth int) (string, token.Pos, []string) {
	x.n++
	id := fmt.Sprintf("%p", v)
	for f := fr; f != nil; f = f.up {
		id += fmt.Sprintf(" %p", f.call)
	}
	if depth > 60 || x.seen[id] {
		return "", 0, nil
	}
	x.seen[id] = true
	all := func(vs []ssa.Value, fr *ctxFrame) (string, token.Pos, []string) {
		for _, w := range vs {
			if what, pos, way := x.missing(w, key, fr, depth+1); what != "" {
				return what, pos, way
			}
		}
		return "", 0, nil
	}
	switch y := v.(type) {
	case *ssa.Const:
		return "a context that is nil", v.Pos(), nil
	case *ssa.Phi:
		return all(y.Edges, fr)
	case *ssa.ChangeInterface:
		return x.missing(y.X, key, fr, depth+1)
	case *ssa.MakeInterface:
		return "", 0, nil
	case *ssa.Extract:
		if call, ok := y.Tuple.(*ssa.Call); ok {
			return x.fromCall(call, y.Index, key, fr, depth)
		}
	case *ssa.Call:
		return x.fromCall(y, 0, key, fr, depth)
	case *ssa.FreeVar:
		if mc := x.closed[y.Parent()]; mc != nil {
			for i, fv := range y.Parent().FreeVars {
				if fv == y {
					return x.missing(mc.Bindings[i], key, nil, depth+1)
				}
			}
		}
	case *ssa.UnOp:
		if y.Op != token.MUL {
			break
		}
		if fa, ok := y.X.(*ssa.FieldAddr); ok {
			return all(x.fields[structOf(deref(fa.X.Type())).Field(fa.Field)], nil)
		}
		if a := x.variable(y.X); a != nil {
			if a.Parent() != y.Parent() {
				fr = nil
			}
			// a variable that is set from what it was: the last store in this block decides
			if al, ok := y.X.(*ssa.Alloc); ok {
				ins := y.Block().Instrs
				for i := len(ins) - 1; i >= 0; i-- {
					if ins[i] == ssa.Instruction(y) {
						for j := i - 1; j >= 0; j-- {
							if st, ok := ins[j].(*ssa.Store); ok && st.Addr == al {
								return x.missing(st.Val, key, fr, depth+1)
							}
						}
					}
				}
				// or the one store that always comes first
				if st := x.dominatingStore(al, y); st != nil {
					return x.missing(st.Val, key, fr, depth+1)
				}
			}
			return all(x.stores[a], fr)
		}
	case *ssa.Parameter:
		fn := y.Parent()
		i := 0
		for i < len(fn.Params) && fn.Params[i] != y {
			i++
		}
		arg := func(call ssa.CallInstruction) ssa.Value {
			args := call.Common().Args
			if call.Common().IsInvoke() {
				args = append([]ssa.Value{call.Common().Value}, args...)
			} else if fn.Signature.Recv() != nil && call.Common().StaticCallee() == nil && len(args) == len(fn.Params)-1 {
				args = append([]ssa.Value{nil}, args...)
			}
			if i < len(args) {
				return args[i]
			}
			return nil
		}
		if fr != nil && fr.fn == fn {
			if a := arg(fr.call); a != nil {
				return x.missing(a, key, fr.up, depth+1)
			}
		}
		cs := x.callers[fn]
		if fn.Name() == "Execute" && fn.Signature.Recv() != nil && len(cs) == 0 {
			return "the context of the task manager that runs it", fn.Pos(), []string{x.c.P.Rel(fn.String())}
		}
		for _, call := range cs {
			if a := arg(call); a != nil {
				if what, pos, way := x.missing(a, key, nil, depth+1); what != "" {
					return what, pos, append(way, "handed to "+x.c.P.Rel(fn.String())+" at "+x.c.P.Pos(call.Pos()))
				}
			}
		}
	}
	return "", 0, nil
}

// dominatingStore is the latest store to a variable that always comes before a load, when no other store can follow it.
func (x *ctxFlow) dominatingStore(al *ssa.Alloc, load *ssa.UnOp) *ssa.Store {
	var sts []*ssa.Store
	for _, r := range *al.Referrers() {
		switch s := r.(type) {
		case *ssa.Store:
			if s.Addr != al {
				return nil
			}
			sts = append(sts, s)
		case *ssa.MakeClosure:
			g := s.Fn.(*ssa.Function)
			for i, b := range s.Bindings {
				if b == ssa.Value(al) {
					for _, rr := range *g.FreeVars[i].Referrers() {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == g.FreeVars[i] {
							return nil
						}
					}
				}
			}
		}
	}
	var best *ssa.Store
	for _, s := range sts {
		if s.Block() != load.Block() && s.Block().Dominates(load.Block()) {
			if best == nil || best.Block() == s.Block() || best.Block().Dominates(s.Block()) {
				best = s
			}
		}
	}
	if best == nil {
		return nil
	}
	for _, s := range sts {
		if s != best && !s.Block().Dominates(best.Block()) {
			return nil
		}
	}
	return best
}

func (x *ctxFlow) fromCall(call *ssa.Call, idx int, key string, fr *ctxFrame, depth int) (string, token.Pos, []string) {
	com := call.Common()
	fn := com.StaticCallee()
	if fn != nil {
		switch name := fn.String(); name {
		case "context.Background", "context.TODO":
			return name + "()", call.Pos(), nil
		case "context.WithValue":
			if k := ctxKey(com.Args[1]); k == key {
				return "", 0, nil
			}
			return x.missing(com.Args[0], key, fr, depth+1)
		case "(*net/http.Request).Context":
			return "", 0, nil // the routes decide
		}
	}
	ts := x.targets(com)
	if len(ts) == 0 {
		for _, a := range com.Args {
			if isContext(a.Type()) {
				return x.missing(a, key, fr, depth+1)
			}
		}
		return "", 0, nil
	}
	for _, g := range ts {
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				if what, pos, way := x.missing(r.Results[idx], key, &ctxFrame{call, g, fr}, depth+1); what != "" {
					return what, pos, way
				}
			}
		}
	}
	return "", 0, nil
}

func checkR01(c *Ctx) error {
	c.Rule("carried", "wherever a value is taken from a context and used without looking whether it is there, every context that can get there was given that value", 1)
	c.Rule("route", "when a request reaches its handler its context carries the logger, the request's id and the client's trace id", 8)
	x := c.ctxFlow()
	n := 0
	type taker struct {
		fn  *ssa.Function
		val ssa.Value
		key string
	}
	var takers []taker
	for _, fn := range c.P.AllFuncs {
		c.Funcs[fn.String()] = true
		eachInstr(fn, func(in ssa.Instruction) {
			ta, ok := in.(*ssa.TypeAssert)
			if !ok || ta.CommaOk {
				return
			}
			call, ok := ta.X.(*ssa.Call)
			if !ok || !call.Call.IsInvoke() || call.Call.Method.FullName() != "(context.Context).Value" || x.checkedNil(call, ta) {
				return
			}
			takers = append(takers, taker{fn, call.Call.Value, ctxKey(call.Call.Args[0])})
		})
	}
	for _, t := range takers {
		if t.key == "" {
			continue
		}
		n++
		p, ok := t.val.(*ssa.Parameter)
		if !ok {
			x.seen = map[string]bool{}
			c.Ob("carried", c.P.Rel(t.fn.String()))
			if what, pos, way := x.missing(t.val, t.key, nil, 0); what != "" {
				c.Fail("carried", c.P.Rel(t.fn.String()), c.P.Pos(pos), what+" does not carry "+t.key, way...)
			}
			continue
		}
		i := 0
		for t.fn.Params[i] != p {
			i++
		}
		for _, call := range x.callers[t.fn] {
			args := call.Common().Args
			if call.Common().IsInvoke() || i >= len(args) {
				continue
			}
			where := c.P.Rel(t.fn.String()) + " | " + c.P.Rel(call.Parent().String())
			c.Ob("carried", where)
			x.seen = map[string]bool{}
			if what, pos, way := x.missing(args[i], t.key, nil, 0); what != "" {
				var w []string
				for k := len(way) - 1; k >= 0; k-- {
					w = append(w, way[k])
				}
				c.Fail("carried", where+" | "+what, c.P.Pos(pos), fmt.Sprintf("%s reaches %s, which takes the value for %s from it and panics when it is not there", what, c.P.Rel(call.Parent().String()), strings.TrimPrefix(t.key, c.P.Mod+"/")), w...)
			}
		}
	}
	if n == 0 {
		return fmt.Errorf("nothing takes values from contexts")
	}
	var keys []string
	for _, t := range takers {
		if t.key != "" && !strings.HasSuffix(c.P.Rel(t.fn.Pkg.Pkg.Path()), "internal/reporting") {
			keys = append(keys, t.key)
		}
	}
	keys = append(keys, "github.com/DanLavine/willow/pkg/clients.parentTrackerID \"X-Request-ID\"")
	sort.Strings(keys)
	return routeContexts(c, keys)
}

// checkedNil: the value is compared with nil before it is asserted.
func (x *ctxFlow) checkedNil(call *ssa.Call, ta *ssa.TypeAssert) bool {
	for _, r := range *call.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			continue
		}
		for _, rr := range *b.Referrers() {
			if i, ok := rr.(*ssa.If); ok {
				s := i.Block().Succs[0]
				if b.Op == token.EQL {
					s = i.Block().Succs[1]
				}
				if s.Dominates(ta.Block()) && len(s.Preds) == 1 {
					return true
				}
			}
		}
	}
	return false
}

// routeContexts runs what is registered for a route up to its handler.
func routeContexts(c *Ctx, keys []string) error {
	rs := registrations(c, "route")
	if len(rs) == 0 {
		return fmt.Errorf("no route registrations found")
	}
	for _, r := range rs {
		if r.name == "the function registered for it" || r.handler.K != flow.KFn || r.handler.Fn == nil {
			continue
		}
		construct := r.method + " " + r.path
		c.Ob("route", construct)
		base := handlerHooks(c, r, func(st *flow.State, ab, what string) {})
		missing := map[string]bool{}
		var wit []string
		reached := false
		h := &flow.Hooks{}
		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			m := callee(ci)
			recv, args := argsOf(ci)
			name := ""
			if m != nil {
				name = m.FullName()
			}
			one := func(v *flow.Val) ([]flow.Exit, bool) {
				return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
			}
			switch name {
			case "(*net/http.Request).Context":
				return one(requestContext(recv, ci.Res.At(0).Type()))
			case "context.WithValue":
				return one(flow.Term("with", ci.Res.At(0).Type(), flow.Strip(args[0]), flow.Strip(args[1]), args[2]))
			case "(context.Context).Value":
				if v := contextValue(recv, valKey(args[0])); v != nil {
					return one(v)
				}
				return one(flow.NilOf(ci.Res.At(0).Type()))
			}
			if m != nil && m.Pkg() != nil && strings.HasSuffix(m.Pkg().Path(), "/handlers") && len(args) == 2 && typeIs(args[1].T, "net/http", "Request") {
				reached = true
				ctx := requestContext(args[1], nil)
				for _, k := range keys {
					if contextValue(ctx, k) == nil && !missing[k] {
						missing[k] = true
						wit = e.Witness(st.Tr, 30)
					}
				}
				return []flow.Exit{{St: st, Pos: ci.Pos}}, true
			}
			return base.Call(e, st, ci)
		}
		e := c.Engine(h)
		fn := r.handler.Fn
		args := []*flow.Val{flow.Root("w", fn.Signature.Params().At(0).Type()), flow.Root("req", fn.Signature.Params().At(1).Type())}
		for _, x := range e.Analyze(fn, args, r.handler.Args, r.st.Clone()) {
			if x.Panic {
				c.Fail("route", construct+" | panic", c.P.Pos(x.Pos), "what comes before the handler panics, because the context does not carry what is taken from it", e.Witness(x.St.Tr, 30)...)
			}
		}
		if !reached {
			c.Fail("route", construct+" | unreached", c.P.Pos(r.pos), "the request does not reach a handler")
		}
		for k := range missing {
			c.Fail("route", construct+" | "+k, c.P.Pos(r.pos), "the request's context does not carry "+k+" when it reaches its handler", wit...)
		}
		c.Done("route", e)
	}
	return nil
}

// requestContext is the context of a request, by how it was made.
func requestContext(req *flow.Val, t types.Type) *flow.Val {
	req = flow.Strip(req)
	if req.K == flow.KTerm && req.S == "clone" && len(req.Args) == 2 {
		return flow.Strip(req.Args[1])
	}
	return flow.Term("ctx", t, req)
}

func contextValue(ctx *flow.Val, key string) *flow.Val {
	for ctx = flow.Strip(ctx); ctx.K == flow.KTerm && ctx.S == "with"; ctx = flow.Strip(ctx.Args[0]) {
		if valKey(ctx.Args[1]) == key {
			return ctx.Args[2]
		}
	}
	return nil
}

func valKey(v *flow.Val) string {
	v = flow.Strip(v)
	if s, ok := flow.StrVal(v); ok && v.T != nil {
		return fmt.Sprintf("%s %q", v.T.String(), s)
	}
	return v.Key()
}
