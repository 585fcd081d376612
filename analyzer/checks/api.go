package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

func init() {
	register("A01", "Requests are answered once and truthfully", func(c *Ctx) error {
		c.Rule("handler", "every path of a registered request handler writes exactly one response; a request that does not decode or validate is refused with a client error and no effect; a failed operation is answered with its own error; a success is answered only after the one operation succeeded, with its result", 25)
		return apiCheck(c, "handler", "answer")
	})
	register("A02", "Operations act on what the request names", func(c *Ctx) error {
		c.Rule("handler", "the operation a registered handler runs gets the request's context, the decoded body and the named parameters of its path in their order", 25)
		return apiCheck(c, "handler", "operand")
	})
	register("A03", "A grant that was not delivered is taken back", func(c *Ctx) error {
		c.Rule("handler", "when the response that carries a lock or a queue item could not be written, the grant is taken back, and only then", 2)
		return apiCheck(c, "handler", "grant")
	})
}

// route is one registration of a request handler.
type route struct {
	method, path string
	handler      *flow.Val
	st           *flow.State
	name         string
	pos          token.Pos
}

// boundName finds the method a chain of wrapped handlers ends in.
func boundName(e *flow.Engine, st *flow.State, v *flow.Val, depth int) string {
	v = flow.Strip(v)
	if v.K != flow.KFn || depth > 8 {
		return ""
	}
	if v.Fn.Synthetic != "" && strings.HasSuffix(v.Fn.Name(), "$bound") {
		return v.Fn.Name()
	}
	for _, b := range v.Args {
		if p, ok := b.T.Underlying().(*types.Pointer); ok && isHTTPHandler(p.Elem()) {
			b = e.LoadAt(st, b, p.Elem())
		}
		if n := boundName(e, st, b, depth+1); n != "" {
			return n
		}
	}
	return ""
}

// isHTTPHandler: func(http.ResponseWriter, *http.Request)
func isHTTPHandler(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 2 && s.Results().Len() == 0 && typeIs(s.Params().At(0).Type(), "net/http", "ResponseWriter") && typeIs(s.Params().At(1).Type(), "net/http", "Request")
}

// registrations runs every function that registers routes, and collects them.
func registrations(c *Ctx, rule string) []route {
	var out []route
	for _, fn := range c.P.AllFuncs {
		if fn.Pkg == nil || fn.Parent() != nil || !strings.Contains(fn.Pkg.Pkg.Path(), "/internal/") || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/router") {
			continue
		}
		uses := false
		for _, p := range fn.Params {
			uses = uses || typeIs(p.Type(), "urlrouter", "Router")
		}
		if !uses || !token.IsExported(fn.Name()) {
			continue
		}
		h := &flow.Hooks{}
		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			m := callee(ci)
			_, args := argsOf(ci)
			// a context made from others ends when they end
			if m != nil && m.Pkg() != nil && ci.Res != nil && ci.Res.Len() > 0 && typeIs(ci.Res.At(0).Type(), "context", "Context") && (m.Pkg().Path() == "context" || strings.HasSuffix(m.Pkg().Path(), "/contextops")) {
				ex := e.Unknown(st, ci)
				var of []*flow.Val
				for _, a := range args {
					if el, ok := e.Elems(st, a); ok {
						of = append(of, el...)
					} else {
						of = append(of, a)
					}
				}
				ex[0].Res[0] = flow.Term("derived", ci.Res.At(0).Type(), of...)
				return ex, true
			}
			if m != nil && m.Pkg() != nil && strings.HasSuffix(m.Pkg().Path(), "urlrouter") && strings.HasPrefix(m.Name(), "Handle") && len(args) == 3 {
				meth, ok1 := flow.StrVal(args[0])
				path, ok2 := flow.StrVal(args[1])
				if !ok1 || !ok2 {
					c.Fail(rule, c.fn(fn), c.P.Pos(ci.Pos), "a route is registered under a name that is not a constant")
					return e.Unknown(st, ci), true
				}
				hv := flow.Strip(args[2])
				name := ""
				name = boundName(e, st, hv, 0)
				if name == "" {
					name = "the function registered for it" // documentation pages
				}
				out = append(out, route{meth, path, hv, st.Clone(), strings.TrimSuffix(name, "$bound"), ci.Pos})
				return e.Unknown(st, ci), true
			}
			return nil, false
		}
		e := c.Engine(h)
		st := flow.NewState()
		e.Analyze(fn, rootArgs(fn, st), nil, st)
		c.Done(rule, e)
	}
	// one entry per registration
	seen := map[string]bool{}
	var uniq []route
	for _, r := range out {
		k := r.method + " " + r.path
		if !seen[k] {
			seen[k] = true
			uniq = append(uniq, r)
		}
	}
	return uniq
}

func apiCheck(c *Ctx, rule, about string) error {
	rs := registrations(c, rule)
	if len(rs) == 0 {
		return fmt.Errorf("no route registrations found")
	}
	for _, r := range rs {
		if r.name != "the function registered for it" {
			handlerCheck(c, rule, about, r)
		}
	}
	return nil
}

// handlerHooks gives requests, responses and the services behind the handlers their meaning.
func handlerHooks(c *Ctx, r route, bad func(st *flow.State, about, what string)) *flow.Hooks {
	w, req := flow.Root("w", nil), "$req;"
	strT := types.Typ[types.String]
	isBody := func(st *flow.State, v *flow.Val) bool {
		for _, k := range []string{"body", "bodyval"} {
			if b := st.MonV[k]; b != nil && flow.Strip(v).Key() == b.Key() {
				return true
			}
		}
		return false
	}
	fromBody := func(st *flow.State, v *flow.Val) bool {
		for _, k := range []string{"body", "bodyval"} {
			if b := st.MonV[k]; b != nil && containsVal(v, b) {
				return true
			}
		}
		return false
	}
	two := func(e *flow.Engine, st *flow.State, ci *flow.CallInfo, okRes, badRes []*flow.Val, f func(*flow.State)) []flow.Exit {
		b := st.Clone()
		f(b)
		return []flow.Exit{{St: st, Res: okRes, Pos: ci.Pos}, {St: b, Res: badRes, Pos: ci.Pos}}
	}
	decode := func(e *flow.Engine, st *flow.State, ci *flow.CallInfo, obj *flow.Val) []flow.Exit {
		obj = flow.Strip(obj)
		st.MonV["body"] = obj
		if p, ok := obj.T.Underlying().(*types.Pointer); ok {
			nv := e.Fresh(st, ci.Instr, "decoded", p.Elem())
			st.Store(obj, nv)
			st.MonV["bodyval"] = nv
		}
		er := e.Fresh(st, ci.Instr, "decerr", errType())
		ok := st.Clone()
		st.Restrict(er, nilErr(), flow.LT|flow.GT)
		st.Set("refused", 1)
		st.Note(ci.Pos, "the body does not decode")
		return []flow.Exit{{St: ok, Res: []*flow.Val{nilErr()}, Pos: ci.Pos}, {St: st, Res: []*flow.Val{er}, Pos: ci.Pos}}
	}
	status := func(st *flow.State, v *flow.Val, pos token.Pos) {
		st.Inc("heads", 1)
		if st.Mon["heads"] == 1 {
			st.MonV["status"] = globalConst(c, v)
		}
		st.Note(pos, "answered with status %s", describe(v))
	}

	h := &flow.Hooks{}
	h.Lookup = func(e *flow.Engine, st *flow.State, m, k *flow.Val, in *ssa.Lookup) *flow.Val {
		if p := st.MonV["params"]; p != nil && flow.Strip(m).Key() == p.Key() {
			if s, ok := flow.StrVal(k); ok {
				return flow.Root("param "+s, strT)
			}
		}
		return nil
	}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		m := callee(ci)
		recv, args := argsOf(ci)
		name := ""
		if m != nil {
			name = m.FullName()
		}
		if m != nil && m.Name() == "Error" && ci.Res != nil && ci.Res.Len() == 1 && len(args) == 0 {
			return e.Unknown(st, ci), true // rendering an error has no effect
		}
		// the request
		switch name {
		case "(*net/http.Request).Context":
			return []flow.Exit{{St: st, Res: []*flow.Val{flow.Term("ctx", ci.Res.At(0).Type(), recv)}, Pos: ci.Pos}}, true
		case "(*net/http.Request).Clone", "(*net/http.Request).WithContext":
			v := flow.Term("clone", ci.Res.At(0).Type(), recv, args[0])
			st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
			return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
		case "context.WithValue":
			return []flow.Exit{{St: st, Res: []*flow.Val{args[0]}, Pos: ci.Pos}}, true
		case "context.Background", "context.TODO", "context.WithoutCancel":
			return e.Unknown(st, ci), true
		case "(context.Context).Value":
			return e.Unknown(st, ci), true
		case "encoding/json.NewDecoder":
			v := flow.Term("decoder", ci.Res.At(0).Type(), args[0])
			return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
		case "(*encoding/json.Decoder).Decode":
			return decode(e, st, ci, args[0]), true
		case "encoding/json.Unmarshal":
			return decode(e, st, ci, args[1]), true
		// the response
		case "(net/http.ResponseWriter).WriteHeader":
			if containsVal(recv, w) {
				status(st, args[0], ci.Pos)
			}
			return e.Unknown(st, ci), true
		case "(net/http.ResponseWriter).Write":
			if !containsVal(recv, w) {
				return e.Unknown(st, ci), true
			}
			if st.Mon["heads"] == 0 {
				status(st, flow.Int(200), ci.Pos)
			}
			if flow.Contains(args[0], func(x *flow.Val) bool { return x.K == flow.KTerm && x.S == "json" }) {
				st.MonV["sent"] = flow.Strip(args[0]).Args[0]
			} else {
				st.MonV["sent"] = flow.Str("text")
			}
			n := e.Fresh(st, ci.Instr, "n", types.Typ[types.Int])
			er := freshErr(e, st, ci.Instr, "werr")
			return two(e, st, ci, []*flow.Val{n, nilErr()}, []*flow.Val{n, er}, func(s *flow.State) {
				s.Set("unsent", 1)
				s.Note(ci.Pos, "writing the response fails")
			}), true
		case "encoding/json.Marshal":
			er := freshErr(e, st, ci.Instr, "merr")
			d := flow.Term("json", ci.Res.At(0).Type(), flow.Strip(args[0]))
			return two(e, st, ci, []*flow.Val{d, nilErr()}, []*flow.Val{flow.NilOf(ci.Res.At(0).Type()), er}, func(s *flow.State) {
				s.Set("unsent", 1)
				s.Note(ci.Pos, "the response does not encode")
			}), true
		}
		// a context made from others ends when they end
		if m != nil && m.Pkg() != nil && ci.Res != nil && ci.Res.Len() > 0 && typeIs(ci.Res.At(0).Type(), "context", "Context") && (m.Pkg().Path() == "context" || strings.HasSuffix(m.Pkg().Path(), "/contextops")) {
			ex := e.Unknown(st, ci)
			var of []*flow.Val
			for _, a := range args {
				if el, ok := e.Elems(st, a); ok {
					of = append(of, el...)
				} else {
					of = append(of, a)
				}
			}
			ex[0].Res[0] = flow.Term("derived", ci.Res.At(0).Type(), of...)
			return ex, true
		}
		if m != nil && m.Pkg() != nil && strings.HasSuffix(m.Pkg().Path(), "urlrouter") && ci.Res != nil && ci.Res.Len() == 1 {
			v := e.Fresh(st, ci.Instr, "params", ci.Res.At(0).Type())
			if len(args) == 1 && !flow.Contains(args[0], func(x *flow.Val) bool { return x.K == flow.KSym && x.S == req }) {
				bad(st, "operand", "the path's parameters are not taken from the request")
			}
			if st.MonV["params"] == nil {
				st.MonV["params"] = v
			} else {
				v = st.MonV["params"]
			}
			return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
		}
		// validation, of the request's body before the operation and of the response after it
		if m != nil && recv != nil && strings.HasPrefix(m.Name(), "Validate") && ci.Res != nil && ci.Res.Len() == 1 && m.Pkg() != nil && c.P.InModule(m.Pkg().Path()) {
			body := st.Mon["ops"] == 0 && fromBody(st, recv)
			t := ci.Res.At(0).Type()
			er := e.Fresh(st, ci.Instr, "invalid", t)
			st.Restrict(er, flow.NilOf(t), flow.LT|flow.GT)
			if body {
				st.Set("validated", 1)
			}
			return two(e, st, ci, []*flow.Val{flow.NilOf(t)}, []*flow.Val{er}, func(s *flow.State) {
				if body {
					s.Set("refused", 1)
					s.Note(ci.Pos, "the body is not valid")
				} else {
					s.Set("unsent", 1)
					s.Note(ci.Pos, "the response is not valid")
				}
			}), true
		}
		// the outcome callbacks of a grant
		if ci.FnVal != nil {
			for i := 0; i < 4; i++ {
				k := fmt.Sprintf("res%d", i)
				if f := st.MonV[k]; f != nil && f.Key() == ci.FnVal.Key() {
					st.Inc("called"+fmt.Sprint(i), 1)
					if st.Mon["heads"] == 0 {
						bad(st, "grant", "the outcome of the hand-out is reported before the response was written")
					}
					st.Note(ci.Pos, "reports the outcome of the hand-out (result %d of the operation)", i)
					return e.Unknown(st, ci), true
				}
			}
		}
		// an operation on a service the handler holds
		if m != nil && recv != nil && m.Pkg() != nil && c.P.InModule(m.Pkg().Path()) {
			if f := flow.FieldOf(recv); f != nil && c.isHandlerField(f) && !strings.Contains(m.Pkg().Path(), "/config") {
				return domainOp(c, e, st, ci, m, args, r, isBody, req, bad), true
			}
		}
		if ci.Fn != nil && ci.Fn.Pkg != nil && strings.Contains(ci.Fn.Pkg.Pkg.Path(), "/pkg/clients") && len(ci.Fn.Name()) > 3 && strings.HasPrefix(ci.Fn.Name(), "New") {
			return e.Unknown(st, ci), true
		}
		return nil, false
	}
	return h
}

// globalConst reads a field of a package variable that is set up once, by a literal.
func globalConst(c *Ctx, v *flow.Val) *flow.Val {
	f, b := flow.FieldOf(v), flow.BaseOf(v)
	if f == nil || b == nil {
		return v
	}
	a := flow.LoadAddr(b)
	if a == nil || a.K != flow.KSym || !strings.HasPrefix(a.S, "$global ") {
		return v
	}
	full := strings.TrimSuffix(strings.TrimPrefix(a.S, "$global "), ";")
	var found *flow.Val
	for _, pk := range c.P.SSA.AllPackages() {
		if !strings.HasPrefix(full, pk.Pkg.Path()+".") {
			continue
		}
		g, _ := pk.Members[strings.TrimPrefix(full, pk.Pkg.Path()+".")].(*ssa.Global)
		init := pk.Func("init")
		if g == nil || init == nil {
			continue
		}
		for _, fn := range c.P.AllFuncs {
			for _, bl := range fn.Blocks {
				for _, in := range bl.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == g && fn != init {
						return v // reassigned
					}
				}
			}
		}
		for _, bl := range init.Blocks {
			for _, in := range bl.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || s.Addr != g {
					continue
				}
				al, ok := s.Val.(*ssa.Alloc)
				if !ok {
					return v
				}
				for _, ref := range *al.Referrers() {
					fa, ok := ref.(*ssa.FieldAddr)
					if !ok || structOf(al.Type()).Field(fa.Field).Name() != f.Name() {
						continue
					}
					for _, r2 := range *fa.Referrers() {
						if s2, ok := r2.(*ssa.Store); ok && s2.Addr == fa {
							if k, ok := s2.Val.(*ssa.Const); ok && k.Value != nil {
								found = flow.Const(k.Value, k.Type())
							}
						}
					}
				}
			}
		}
	}
	if found != nil {
		return found
	}
	return v
}

// isHandlerField: a field of a type whose methods are request handlers
func (c *Ctx) isHandlerField(f *types.Var) bool {
	if f.Pkg() == nil || !strings.HasSuffix(f.Pkg().Path(), "/handlers") {
		return false
	}
	return true
}

// domainOp summarises the operation behind a handler: what it is given, and each way it can end.
func domainOp(c *Ctx, e *flow.Engine, st *flow.State, ci *flow.CallInfo, m *types.Func, args []*flow.Val, r route, isBody func(*flow.State, *flow.Val) bool, req string, bad func(*flow.State, string, string)) []flow.Exit {
	st.Note(ci.Pos, "runs %s", m.Name())
	if st.Mon["heads"] > 0 {
		// taking back what was granted
		if st.Mon["unsent"] == 0 {
			bad(st, "answer", "runs "+m.Name()+" after the request was answered")
		}
		st.Set("takenback", 1)
		ok := false
		if len(args) == 3 {
			g := st.MonV["res0"]
			if g == nil {
				g = flow.NilOf(types.Typ[types.UnsafePointer])
			}
			id := e.LoadPath(st, g, "State", "LockID")
			sid := e.LoadPath(st, args[2], "SessionID")
			gs := e.LoadPath(st, g, "State", "SessionID")
			ok = m.Name() == "Release" && g != nil && id != nil && sid != nil && gs != nil && flow.Strip(args[1]).Key() == flow.Strip(id).Key() && flow.Strip(sid).Key() == flow.Strip(gs).Key()
		}
		if !ok {
			bad(st, "grant", "what is taken back with "+m.Name()+" is not shown to be the lock that was granted, claimed by its session")
		}
		return e.Unknown(st, ci)
	}
	st.Inc("ops", 1)
	if st.Mon["ops"] > 1 {
		bad(st, "answer", "runs "+m.Name()+" as a second operation for one request")
	}
	if st.Mon["refused"] > 0 {
		bad(st, "answer", "runs "+m.Name()+" for a request that was not decoded or is not valid")
	}
	// what it is given
	var want []string
	for _, p := range strings.Split(r.path, "/") {
		if strings.HasPrefix(p, ":") {
			want = append(want, p[1:])
		}
	}
	given := 0
	gotBody, gotCtx := false, false
	for _, a := range args {
		t := a.T
		if a.K == flow.KIface {
			t = a.Args[0].T
		}
		switch {
		case t != nil && typeIs(a.T, "context", "Context") || a.K == flow.KTerm && (a.S == "ctx" || a.S == "derived"):
			gotCtx = true
			if !flow.Contains(a, func(x *flow.Val) bool { return x.K == flow.KSym && x.S == req }) {
				bad(st, "operand", m.Name()+" does not run under the request's context")
			}
		case isBody(st, a):
			gotBody = true
		case t != nil && types.Identical(t.Underlying(), types.Typ[types.String]):
			if given >= len(want) || flow.Strip(a).Key() != flow.Root("param "+want[given], nil).Key() {
				n := "-"
				if given < len(want) {
					n = want[given]
				}
				bad(st, "operand", fmt.Sprintf("%s is given %s where the path's parameter %q belongs", m.Name(), describe(a), n))
			}
			given++
		}
	}
	if !gotCtx {
		bad(st, "operand", m.Name()+" does not run under the request's context")
	}
	if given != len(want) {
		bad(st, "operand", fmt.Sprintf("%s is given %d of the path's %d parameters", m.Name(), given, len(want)))
	}
	if st.MonV["body"] != nil && !gotBody {
		bad(st, "operand", m.Name()+" is not given the request's body")
	}
	if st.MonV["body"] != nil && st.Mon["validated"] == 0 {
		bad(st, "answer", "runs "+m.Name()+" with a body that was not validated")
	}

	// how it ends
	var res []*flow.Val
	n := ci.Res.Len()
	errAt := -1
	for i := 0; i < n; i++ {
		t := ci.Res.At(i).Type()
		if i == n-1 && (typeIs(t, "common/errors", "ServerError") || types.Identical(t, errType())) {
			errAt = i
			res = append(res, flow.NilOf(t))
			continue
		}
		v := e.Fresh(st, ci.Instr, fmt.Sprintf("op%d", i), t)
		if _, ok := t.Underlying().(*types.Signature); ok {
			st.Restrict(v, flow.NilOf(t), flow.LT|flow.GT)
		}
		res = append(res, v)
		st.MonV[fmt.Sprintf("res%d", i)] = v
	}
	st.Set("ran", 1)
	out := []flow.Exit{{St: st, Res: res, Pos: ci.Pos}}
	if errAt >= 0 {
		b := st.Clone()
		t := ci.Res.At(errAt).Type()
		er := e.Fresh(b, ci.Instr, "operr", t)
		b.Restrict(er, flow.NilOf(t), flow.LT|flow.GT)
		b.MonV["operr"] = er
		b.Note(ci.Pos, "%s fails", m.Name())
		r2 := append([]*flow.Val(nil), res...)
		r2[errAt] = er
		out = append(out, flow.Exit{St: b, Res: r2, Pos: ci.Pos})
	}
	return out
}

func handlerCheck(c *Ctx, rule, about string, r route) {
	construct := r.method + " " + r.path
	fn := r.handler.Fn
	if r.handler.K != flow.KFn || fn == nil {
		c.Fail(rule, construct, c.P.Pos(r.pos), "the registered handler is not a function the analysis can see")
		return
	}
	if about == "grant" {
		// only operations that grant something
	}
	fail := func(st *flow.State, e *flow.Engine, ab, what string) {
		if strings.Contains(ab, about) {
			c.Fail(rule, construct, c.P.Pos(r.pos), what, e.Witness(st.Tr, 30)...)
		}
	}
	var e *flow.Engine
	h := handlerHooks(c, r, func(st *flow.State, ab, what string) { fail(st, e, ab, what) })
	e = c.Engine(h)
	st := r.st.Clone()
	args := []*flow.Val{flow.Root("w", fn.Signature.Params().At(0).Type()), flow.Root("req", fn.Signature.Params().At(1).Type())}
	grants := false
	n := 0
	for _, x := range e.Analyze(fn, args, r.handler.Args, st) {
		if x.Panic {
			continue
		}
		n++
		s := x.St
		m := s.Mon
		bad := func(ab, f string, a ...any) { fail(s, e, ab, fmt.Sprintf(f, a...)) }
		if m["heads"] != 1 {
			bad("answer", "the request is answered %d times", m["heads"])
			continue
		}
		sv := s.MonV["status"]
		code, isConst := flow.IntVal(sv)
		good := isConst && code >= 200 && code < 300
		failing := isConst && code >= 400
		operr := s.MonV["operr"]
		sent := s.MonV["sent"]
		unsent := m["unsent"] > 0
		switch {
		case operr != nil:
			own := containsVal(sv, operr) && sent != nil && containsVal(sent, operr)
			if !own && !(unsent && failing) {
				bad("answer", "the operation failed, but the answer is status %s with body %s", describe(sv), describe(sent))
			}
		case m["refused"] > 0 && m["ops"] == 0:
			if !(isConst && code >= 400 && code < 500) && !(unsent && failing) {
				bad("answer", "a request that does not decode or validate is answered with status %s", describe(sv))
			}
		case m["ran"] == 0:
			if !failing {
				bad("answer", "a request for which no operation ran is answered with status %s", describe(sv))
			}
		default:
			var vals []*flow.Val
			for i := 0; i < 4; i++ {
				v := s.MonV[fmt.Sprintf("res%d", i)]
				if v == nil {
					break
				}
				if _, ok := v.T.Underlying().(*types.Signature); !ok {
					vals = append(vals, v)
				} else {
					grants = true
				}
			}
			if _, ok := s.Mon["takenback"]; ok {
				grants = true
			}
			switch {
			case unsent:
			case good && len(vals) == 0:
				if sent != nil {
					bad("answer", "a success carries a body that is no result of the operation")
				}
			case good:
				if s.IsNil(vals[0]) == 1 {
					bad("answer", "the operation found nothing, but the answer is status %d", code)
				}
				if sent == nil || !answerCarries(e, s, sent, vals[0]) {
					bad("answer", "the answer is status %d without the operation's result", code)
				}
			case failing && len(vals) > 0 && s.IsNil(vals[0]) == 1:
			default:
				bad("answer", "the operation succeeded, but the answer is status %s", describe(sv))
			}
			// grants
			if f, ok := s.MonV["res1"]; ok && f.T != nil {
				if _, isFn := f.T.Underlying().(*types.Signature); isFn {
					okc, badc := m["called1"], m["called2"]
					if unsent && (okc != 0 || badc != 1) {
						bad("grant", "the response was not written, but the hand-out is reported delivered %d times and undelivered %d times", okc, badc)
					}
					if !unsent && (okc != 1 || badc != 0) {
						bad("grant", "the response was written, but the hand-out is reported delivered %d times and undelivered %d times", okc, badc)
					}
				}
			}
			if len(vals) == 1 && typeIs(vals[0].T, "locker/v1", "Lock") && s.IsNil(vals[0]) != 1 {
				grants = true
				if unsent && m["takenback"] == 0 {
					bad("grant", "the lock was granted but the response could not be written, and the lock is not released")
				}
				if !unsent && m["takenback"] != 0 {
					bad("grant", "the lock was granted and delivered, and yet released")
				}
			}
		}
	}
	c.Done(rule, e)
	c.Check(n > 0, rule, construct, c.P.Pos(r.pos), "the handler never returns")
	if about == "grant" && !grants {
		delete(c.Obligations[rule], construct)
	}
}

// answerCarries: the body sent is the operation's result, points to it, or is an object that names it.
func answerCarries(e *flow.Engine, st *flow.State, sent, res *flow.Val) bool {
	if containsVal(sent, res) {
		return true
	}
	if p, ok := sent.T.Underlying().(*types.Pointer); ok {
		if v := e.LoadAt(st, sent, p.Elem()); v != nil && containsVal(v, res) {
			return true
		}
	}
	if v := e.LoadPath(st, sent, "State", "ID"); v != nil && containsVal(v, res) {
		return true
	}
	return false
}
