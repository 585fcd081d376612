package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

func init() {
	register("A04", "Clients and services speak the same protocol", func(c *Ctx) error {
		c.Rule("request", "every request a client sends names a route its service registers, says its content type, and carries the body and gets the response that route's handler decodes and encodes", 25)
		c.Rule("result", "a client call reports success exactly when the service answered with that route's success status and the answer could be read", 20)
		c.Rule("survives", "no path of a client call, or of the heartbeats it starts, uses a response that did not come or calls a callback that was not given", 25)
		return clientCheck(c)
	})
}

// routeFact is what a route's handler takes and gives.
type routeFact struct {
	route
	codes map[int64]bool
	body  types.Type
	sent  types.Type
}

func routeFacts(c *Ctx, rule string) []*routeFact {
	var out []*routeFact
	for _, r := range registrations(c, rule) {
		if r.handler.K != flow.KFn || r.name == "the function registered for it" {
			continue
		}
		f := &routeFact{route: r, codes: map[int64]bool{}}
		fn := r.handler.Fn
		e := c.Engine(handlerHooks(c, r, func(*flow.State, string, string) {}))
		args := []*flow.Val{flow.Root("w", fn.Signature.Params().At(0).Type()), flow.Root("req", fn.Signature.Params().At(1).Type())}
		for _, x := range e.Analyze(fn, args, r.handler.Args, r.st.Clone()) {
			s := x.St
			if x.Panic || s.Mon["ran"] == 0 || s.MonV["operr"] != nil || s.Mon["unsent"] > 0 {
				continue
			}
			if b := s.MonV["body"]; b != nil {
				f.body = deref(b.T)
			}
			if code, ok := flow.IntVal(s.MonV["status"]); ok && code < 300 {
				f.codes[code] = true
				if v := s.MonV["sent"]; v != nil {
					f.sent = deref(v.T)
				}
			}
		}
		c.Done(rule, e)
		out = append(out, f)
	}
	return out
}

// part of a request's path: literal text or a value
type urlPart struct {
	lit string
	val *flow.Val
}

func urlParts(e *flow.Engine, st *flow.State, v *flow.Val) []urlPart {
	v = flow.Strip(v)
	if s, ok := flow.StrVal(v); ok {
		return []urlPart{{lit: s}}
	}
	if v.K == flow.KTerm {
		switch {
		case v.S == "sprintf":
			f, _ := flow.StrVal(v.Args[0])
			var out []urlPart
			i := 1
			for f != "" {
				k := strings.Index(f, "%")
				if k < 0 || k+1 >= len(f) {
					out = append(out, urlPart{lit: f})
					break
				}
				if k > 0 {
					out = append(out, urlPart{lit: f[:k]})
				}
				if f[k+1] == '%' {
					out = append(out, urlPart{lit: "%"})
				} else if i < len(v.Args) {
					out = append(out, urlParts(e, st, v.Args[i])...)
					i++
				}
				f = f[k+2:]
			}
			return out
		case v.S == "op+" && len(v.Args) == 2:
			return append(urlParts(e, st, v.Args[0]), urlParts(e, st, v.Args[1])...)
		}
	}
	return []urlPart{{val: v}}
}

// pathPattern drops the leading base URL and renders values as ":".
func pathPattern(ps []urlPart) (string, []*flow.Val) {
	var b strings.Builder
	var holes []*flow.Val
	for i, p := range ps {
		if p.val != nil {
			if i == 0 {
				continue
			}
			b.WriteString(":")
			holes = append(holes, p.val)
			continue
		}
		b.WriteString(p.lit)
	}
	return b.String(), holes
}

func routePattern(path string) string {
	seg := strings.Split(path, "/")
	for i, s := range seg {
		if strings.HasPrefix(s, ":") {
			seg[i] = ":"
		}
	}
	return strings.Join(seg, "/")
}

// clientEntries: the exported functions and methods of the client packages, plus unexported ones that start goroutines.
func clientEntries(c *Ctx) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.AllFuncs {
		if fn.Pkg == nil || fn.Parent() != nil || fn.Synthetic != "" || len(fn.Blocks) == 0 || !strings.Contains(fn.Pkg.Pkg.Path(), "/pkg/clients/") {
			continue
		}
		starts := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					starts = true
				}
			}
		}
		if starts || token.IsExported(fn.Name()) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func clientCheck(c *Ctx) error {
	facts := routeFacts(c, "request")
	if len(facts) == 0 {
		return fmt.Errorf("no routes found")
	}
	for _, fn := range clientEntries(c) {
		clientFn(c, fn, facts)
	}
	return nil
}

// httpModel gives the client side of HTTP its meaning. onDo is told about each request that is sent.
func httpModel(c *Ctx, onDo func(e *flow.Engine, st *flow.State, ci *flow.CallInfo)) func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
	return func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		m := callee(ci)
		if m == nil {
			return nil, false
		}
		recv, args := argsOf(ci)
		one := func(v ...*flow.Val) ([]flow.Exit, bool) { return []flow.Exit{{St: st, Res: v, Pos: ci.Pos}}, true }
		orErr := func(v *flow.Val) ([]flow.Exit, bool) {
			b := st.Clone()
			er := freshErr(e, b, ci.Instr, "err")
			st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
			return []flow.Exit{{St: st, Res: []*flow.Val{v, nilErr()}, Pos: ci.Pos}, {St: b, Res: []*flow.Val{flow.NilOf(v.T), er}, Pos: ci.Pos}}, true
		}
		switch m.FullName() {
		case "fmt.Sprintf":
			if el, ok := e.Elems(st, args[1]); ok {
				return one(flow.Term("sprintf", types.Typ[types.String], append([]*flow.Val{args[0]}, el...)...))
			}
			return one(flow.Term("sprintf", types.Typ[types.String], args[0]))
		case "net/url.PathEscape":
			return one(args[0])
		case "encoding/json.Marshal":
			return orErr(flow.Term("json", ci.Res.At(0).Type(), flow.Strip(args[0])))
		case "bytes.NewBuffer", "bytes.NewReader":
			v := flow.Term("buffer", ci.Res.At(0).Type(), args[0])
			st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
			return one(v)
		case "net/http.NewRequest", "net/http.NewRequestWithContext":
			var ctx *flow.Val
			if len(args) == 4 {
				ctx, args = args[0], args[1:]
			}
			req := e.Fresh(st, ci.Instr, "req", ci.Res.At(0).Type())
			st.MonV["method"], st.MonV["url"], st.MonV["reqbody"] = args[0], args[1], args[2]
			delete(st.MonV, "reqctx")
			if ctx != nil {
				st.MonV["reqctx"] = ctx
			}
			st.MonV["req"] = req
			st.Set("ctype", 0)
			return orErr(req)
		case "(net/http.Header).Set", "(net/http.Header).Add":
			if k, ok := flow.StrVal(args[0]); ok && strings.EqualFold(k, "Content-Type") {
				if r := st.MonV["req"]; r != nil && containsVal(recv, r) {
					st.Set("ctype", 1)
				}
			}
			return e.Unknown(st, ci), true
		case "(context.Context).Value":
			return e.Unknown(st, ci), true
		case "(*net/http.Client).Do":
			st.Note(ci.Pos, "sends the request")
			onDo(e, st, ci)
			resp := e.Fresh(st, ci.Instr, "resp", ci.Res.At(0).Type())
			b := st.Clone()
			er := freshErr(e, b, ci.Instr, "doerr")
			st.Restrict(resp, flow.NilOf(resp.T), flow.LT|flow.GT)
			st.MonV["resp"] = resp
			st.Set("unread", 0)
			delete(st.MonV, "into")
			b.Set("failed", 1)
			delete(b.MonV, "resp")
			b.Note(ci.Pos, "the request fails")
			return []flow.Exit{{St: st, Res: []*flow.Val{resp, nilErr()}, Pos: ci.Pos}, {St: b, Res: []*flow.Val{flow.NilOf(resp.T), er}, Pos: ci.Pos}}, true
		case "encoding/json.NewDecoder":
			return one(flow.Term("decoder", ci.Res.At(0).Type(), args[0]))
		case "(*encoding/json.Decoder).Decode":
			obj := flow.Strip(args[0])
			if r := st.MonV["resp"]; r != nil && containsVal(recv, r) {
				st.MonV["into"] = obj
			}
			if p, ok := obj.T.Underlying().(*types.Pointer); ok {
				st.Store(obj, e.Fresh(st, ci.Instr, "decoded", p.Elem()))
			}
			b := st.Clone()
			er := freshErr(e, b, ci.Instr, "decerr")
			b.Set("unread", 1)
			return []flow.Exit{{St: st, Res: []*flow.Val{nilErr()}, Pos: ci.Pos}, {St: b, Res: []*flow.Val{er}, Pos: ci.Pos}}, true
		}
		if m.Name() == "Error" && ci.Res != nil && ci.Res.Len() == 1 && len(args) == 0 {
			return e.Unknown(st, ci), true
		}
		if recv != nil && strings.HasPrefix(m.Name(), "Validate") && ci.Res != nil && ci.Res.Len() == 1 && m.Pkg() != nil && c.P.InModule(m.Pkg().Path()) {
			t := ci.Res.At(0).Type()
			b := st.Clone()
			er := e.Fresh(b, ci.Instr, "invalid", t)
			b.Restrict(er, flow.NilOf(t), flow.LT|flow.GT)
			if b.MonV["into"] != nil {
				b.Set("unread", 1)
			}
			return []flow.Exit{{St: st, Res: []*flow.Val{flow.NilOf(t)}, Pos: ci.Pos}, {St: b, Res: []*flow.Val{er}, Pos: ci.Pos}}, true
		}
		return nil, false
	}
}

func clientFn(c *Ctx, fn *ssa.Function, facts []*routeFact) {
	name := c.fn(fn)
	service := ""
	for _, s := range []string{"limiter", "locker", "willow"} {
		if strings.Contains(fn.Pkg.Pkg.Path(), "/"+s+"_client") {
			service = s
		}
	}
	var e *flow.Engine
	fail := func(rule, construct string, st *flow.State, pos token.Pos, f string, a ...any) {
		c.Fail(rule, construct, c.P.Pos(pos), fmt.Sprintf(f, a...), e.Witness(st.Tr, 30)...)
	}
	match := func(st *flow.State) *routeFact {
		meth, ok := flow.StrVal(st.MonV["method"])
		if !ok {
			return nil
		}
		pat, _ := pathPattern(urlParts(e, st, st.MonV["url"]))
		for _, f := range facts {
			if f.method == meth && routePattern(f.path) == pat && strings.Contains(c.P.Pos(f.pos), "/"+service+"/") {
				return f
			}
		}
		return nil
	}
	sends := false
	var model func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool)
	inGo := false
	model = httpModel(c, func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) {
		meth, _ := flow.StrVal(st.MonV["method"])
		var pat string
		var holes []*flow.Val
		if st.MonV["url"] != nil {
			pat, holes = pathPattern(urlParts(e, st, st.MonV["url"]))
		}
		construct := name + ": " + meth + " " + pat
		if strings.HasSuffix(pat, "/health") {
			return
		}
		sends = true
		f := match(st)
		if f == nil {
			fail("request", construct, st, ci.Pos, "the %s service registers no such route", service)
			return
		}
		c.Ob("request", construct)
		if st.Mon["ctype"] == 0 {
			fail("request", construct, st, ci.Pos, "the request names no content type, which the service refuses")
		}
		// parameters in the order the caller gave them
		last := -1
		for _, h := range holes {
			for i, p := range fn.Params {
				if h.Key() == flow.Root(fmt.Sprintf("%s%d", p.Name(), i), p.Type()).Key() {
					if i < last {
						fail("request", construct, st, ci.Pos, "the path's parameters are not in the order of the call's arguments")
					}
					last = i
				}
			}
		}
		// the body
		var sent types.Type
		if b := st.MonV["reqbody"]; b != nil {
			flow.Contains(b, func(x *flow.Val) bool {
				if x.K == flow.KTerm && x.S == "json" {
					sent = deref(x.Args[0].T)
				}
				return false
			})
		}
		if f.body != nil && (sent == nil || !types.Identical(sent, f.body)) {
			fail("request", construct, st, ci.Pos, "the handler decodes %v, but the request carries %v", f.body, sent)
		}
	})
	h := &flow.Hooks{}
	h.Recv = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) (*flow.Val, bool) {
		if isCtxDone(ch) {
			st.Set("ctxdone", 1)
		}
		return nil, true
	}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if ci.Go {
			if ci.FnVal != nil && ci.FnVal.K == flow.KFn && !inGo {
				inGo = true
				ex := e.Call(st.Clone(), &flow.CallInfo{Instr: ci.Instr, Pos: ci.Pos, Fn: ci.FnVal.Fn, FnVal: ci.FnVal, Args: ci.Args, Res: ci.Res, Caller: ci.Caller})
				inGo = false
				for _, x := range ex {
					if x.Panic {
						fail("survives", name+" (background)", x.St, x.Pos, "this path ends in a crash")
					}
				}
			}
			return []flow.Exit{{St: st, Pos: ci.Pos}}, true
		}
		if ex, ok := ctxDoneCall(e, st, ci); ok {
			return ex, true
		}
		if ex, ok := model(e, st, ci); ok {
			return ex, true
		}
		if _, op, _, _ := treeKind(ci); op != "" {
			tm := &TreeModel{Err: func(*flow.Val, string) bool { return false }}
			return tm.Call(e, st, ci)
		}
		if opaqueAmbient(ci) {
			return e.Unknown(st, ci), true
		}
		if m := callee(ci); m != nil && (m.FullName() == "time.NewTicker" || m.FullName() == "time.NewTimer") {
			return newTimer(e, st, ci)
		}
		return nil, false
	}
	e = c.Engine(h)
	st := flow.NewState()
	args := rootArgs(fn, st)
	exits := e.Analyze(fn, args, nil, st)
	if !sends {
		return
	}
	c.Done("request", e)
	c.Ob("survives", name)
	for _, x := range exits {
		if x.Panic {
			fail("survives", name, x.St, x.Pos, "this path ends in a crash")
		}
	}
	res := fn.Signature.Results()
	errAt := -1
	for i := 0; i < res.Len(); i++ {
		if types.Identical(res.At(i).Type(), errType()) {
			errAt = i
		}
	}
	if errAt < 0 {
		return
	}
	c.Ob("result", name)
	var at token.Pos = fn.Pos()
	for _, x := range exits {
		if x.Panic {
			continue
		}
		s := x.St
		resp := s.MonV["resp"]
		errNil := s.IsNil(x.Res[errAt])
		if resp == nil {
			if s.Mon["failed"] > 0 && errNil != 0 && !cancelled(s) {
				fail("result", name, s, at, "the request failed, but the call reports no error")
			}
			continue
		}
		f := match(s)
		if f == nil {
			continue
		}
		sc := e.LoadPath(s, resp, "StatusCode")
		if sc == nil {
			fail("result", name, s, at, "the response's status cannot be followed")
			continue
		}
		// no error: the status has to be one of the route's success codes
		if errNil != 0 {
			t := s.Clone()
			ok := true
			for code := range f.codes {
				ok = ok && t.Restrict(sc, flow.Int(code), flow.LT|flow.GT)
			}
			if ok && !cancelled(s) {
				fail("result", name, s, at, "the call reports no error for an answer that is not status %s", codeList(f.codes))
				continue
			}
			if s.Mon["unread"] > 0 {
				fail("result", name, s, at, "the call reports no error although the answer could not be read")
			}
			if f.sent != nil {
				into := s.MonV["into"]
				if into == nil || !types.Identical(deref(into.T), f.sent) {
					fail("result", name, s, at, "the handler answers with %v, which the call does not read", f.sent)
				} else if vi := valueResult(res); vi >= 0 && !resultFrom(e, s, x.Res[vi], into) {
					fail("result", name, s, at, "the call's result is not what the service answered")
				}
			}
		}
		if errNil != 1 {
			t := s.Clone()
			t.Restrict(x.Res[errAt], nilErr(), flow.LT|flow.GT)
			for code := range f.codes {
				u := t.Clone()
				if u.Restrict(sc, flow.Int(code), flow.EQ) && s.Mon["unread"] == 0 {
					fail("result", name, s, at, "the call reports an error although the service answered status %d and the answer was read", code)
				}
			}
		}
	}
}

// cancelled: did the path take the branch for an ended context?
func cancelled(s *flow.State) bool { return s.Mon["ctxdone"] > 0 }

func valueResult(res *types.Tuple) int {
	for i := 0; i < res.Len(); i++ {
		if !types.Identical(res.At(i).Type(), errType()) {
			return i
		}
	}
	return -1
}

// resultFrom: the result is the decoded object, its content, or something built from it.
func resultFrom(e *flow.Engine, st *flow.State, v, into *flow.Val) bool {
	if containsVal(v, into) {
		return true
	}
	if p, ok := into.T.Underlying().(*types.Pointer); ok {
		if d := e.LoadAt(st, into, p.Elem()); d != nil && (containsVal(v, d) || flow.Strip(v).Key() == flow.Strip(d).Key()) {
			return true
		}
	}
	// an object made from it
	sv := flow.Strip(v)
	if s := structOf(sv.T); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if f := e.LoadPath(st, sv, s.Field(i).Name()); f != nil && flow.Contains(f, func(x *flow.Val) bool { return strings.Contains(x.Key(), "decoded") }) {
				return true
			}
		}
	}
	return false
}

func codeList(m map[int64]bool) string {
	var out []string
	for k := range m {
		out = append(out, fmt.Sprint(k))
	}
	sort.Strings(out)
	return strings.Join(out, " or ")
}
