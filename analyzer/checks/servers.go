package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

func init() {
	register("C01", "Services serve as configured, stop cleanly and fail loudly", func(c *Ctx) error {
		s := &servers{c: c}
		for _, f := range []func() error{s.anchor, s.serveRule, s.startRule, s.clientRule, s.wiredRule} {
			if err := f(); err != nil {
				return err
			}
		}
		return nil
	})
}

type servers struct {
	c  *Ctx
	ts []*types.Named // the servers' types
}

// anchor: a server runs until its context ends, and has an HTTP server.
func (s *servers) anchor() error {
	for _, p := range s.c.P.Pkgs {
		if !s.c.P.InModule(p.PkgPath) || !strings.Contains(p.PkgPath, "/internal/") {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			t, ok := tn.Type().(*types.Named)
			if !ok || s.field(t, func(f *types.Var) bool { return typeIs(f.Type(), "net/http", "Server") }) == nil {
				continue
			}
			if m, err := methodOf(s.c, types.NewPointer(t), "Execute"); err == nil && m != nil {
				s.ts = append(s.ts, t)
			}
		}
	}
	sort.Slice(s.ts, func(i, j int) bool { return s.ts[i].String() < s.ts[j].String() })
	if len(s.ts) < 3 {
		return fmt.Errorf("found %d servers, expected those of three services", len(s.ts))
	}
	return nil
}

func (s *servers) field(t types.Type, f func(*types.Var) bool) *types.Var {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if f(st.Field(i)) {
			return st.Field(i)
		}
	}
	return nil
}

// setup stores a configuration: settings name -> value of that string; InsecureHttp as given.
func (s *servers) setup(e *flow.Engine, st *flow.State, recv *flow.Val, t types.Type, insecure bool) (map[string]*flow.Val, error) {
	cf := s.field(t, func(f *types.Var) bool {
		n := namedOf(f.Type())
		return n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/config")
	})
	if cf == nil {
		return nil, fmt.Errorf("%s has no configuration", t)
	}
	cfg := flow.Root("configuration", cf.Type())
	st.Restrict(cfg, flow.NilOf(cf.Type()), flow.LT|flow.GT)
	st.Store(flow.FieldAddr(recv, cf), cfg)
	vals := map[string]*flow.Val{}
	u := deref(cf.Type()).Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		pt, ok := f.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		p := flow.Root("setting "+f.Name(), f.Type())
		st.Restrict(p, flow.NilOf(f.Type()), flow.LT|flow.GT)
		st.Store(flow.FieldAddr(cfg, f), p)
		v := flow.Root("value of "+f.Name(), pt.Elem())
		if f.Name() == "InsecureHttp" {
			v = flow.Bool(insecure)
			vals["insecure"] = v
		}
		st.Store(p, v)
		vals[f.Name()] = v
	}
	if vals["insecure"] == nil {
		return nil, fmt.Errorf("%s has no setting InsecureHttp", cf.Type())
	}
	return vals, nil
}

func closedErr(e *flow.Engine, st *flow.State) *flow.Val {
	v := e.LoadAt(st, flow.Root("global net/http.ErrServerClosed", types.NewPointer(errType())), errType())
	st.Restrict(v, nilErr(), flow.LT|flow.GT)
	return v
}

// serveRule: the life of a server.
func (s *servers) serveRule() error {
	const r = "serve"
	s.c.Rule(r, "a server listens, with TLS unless it is configured to be insecure, with its routes in place; when listening fails the failure is returned at once; when the context ends, and not before, the server is shut down once in a way that lets requests under way finish, and its outcome is awaited and returned", 12)
	for _, t := range s.ts {
		fn, err := methodOf(s.c, types.NewPointer(t), "Execute")
		if err != nil {
			return err
		}
		for _, insecure := range []bool{true, false} {
			for _, world := range []string{"stopped", "failed", "failed while stopping"} {
				if err := s.serve(r, t, fn, insecure, world); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

type spawnEffect struct {
	ch       *flow.Val
	val      *flow.Val
	closes   bool
	stores   [][2]*flow.Val
	shutdown int
}

func (s *servers) serve(r string, t *types.Named, fn *ssa.Function, insecure bool, world string) error {
	mode := map[bool]string{true: "insecure", false: "secure"}[insecure]
	name := fmt.Sprintf("%s, %s, %s", s.c.P.Rel(t.String()), mode, world)
	fail, pos := "", s.c.P.Pos(fn.Pos())
	var wit []string
	var ctx, recv, srv *flow.Val
	var effects []spawnEffect
	bad := func(e *flow.Engine, st *flow.State, p string, f string, a ...any) {
		fail, pos = fmt.Sprintf(f, a...), p
		if st != nil {
			wit = e.Witness(st.Tr, 25)
		}
	}
	inSpawn := false
	h := &flow.Hooks{}
	isDone := func(ch *flow.Val) bool { return ch.K == flow.KTerm && ch.S == "ended" }
	shutdownOut := func(e *flow.Engine, st *flow.State) []*flow.Val {
		return []*flow.Val{flow.Root("outcome of the shutdown", errType())}
	}
	h.Recv = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) (*flow.Val, bool) {
		if isDone(ch) {
			if !inSpawn && world == "failed" {
				return nil, false // it has not ended
			}
			st.Set("ended", 1)
			return nil, true
		}
		if inSpawn {
			return nil, true
		}
		for _, ef := range effects {
			if ef.ch == nil || ef.ch.Key() != ch.Key() {
				continue
			}
			if world == "failed" {
				return nil, false
			}
			for _, w := range ef.stores {
				st.Store(w[0], w[1])
			}
			st.Set("awaited", 1)
			return ef.val, true
		}
		return nil, true
	}
	h.Default = func(e *flow.Engine, st *flow.State, in *ssa.Select, chans []*flow.Val) bool {
		for _, ch := range chans {
			if isDone(ch) && world != "failed" {
				return false // it has ended already
			}
		}
		return true
	}
	h.Send = func(e *flow.Engine, st *flow.State, ch, val *flow.Val, in ssa.Instruction) bool {
		if inSpawn {
			st.MonV["sent to"], st.MonV["sent"] = ch, val
		}
		return true
	}
	h.Close = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) {
		if inSpawn {
			st.MonV["closed"] = ch
		}
	}
	h.Store = func(e *flow.Engine, st *flow.State, addr, val *flow.Val, in ssa.Instruction) {
		if inSpawn && flow.Strip(val).Key() == shutdownOut(e, st)[0].Key() {
			st.MonV["stored at"] = addr
		}
	}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		ret := func(v ...*flow.Val) ([]flow.Exit, bool) {
			return []flow.Exit{{St: st, Res: v, Pos: ci.Pos}}, true
		}
		if ci.Go {
			fv := ci.FnVal
			if fv == nil && ci.Fn != nil {
				fv = flow.Closure(ci.Fn, nil)
			}
			if fv == nil || inSpawn {
				return ret()
			}
			inSpawn = true
			for _, x := range e.CallValue(st.Clone(), fv, ci.Args, ci.Instr) {
				if x.Panic {
					bad(e, x.St, s.c.P.Pos(x.Pos), "the goroutine that shuts the server down panics")
					continue
				}
				if x.St.Mon["shutdown"] == 0 {
					continue
				}
				ef := spawnEffect{shutdown: x.St.Mon["shutdown"], ch: x.St.MonV["sent to"], val: x.St.MonV["sent"]}
				if c := x.St.MonV["closed"]; c != nil && ef.ch == nil {
					ef.ch, ef.closes = c, true
					if a := x.St.MonV["stored at"]; a != nil {
						ef.stores = append(ef.stores, [2]*flow.Val{a, shutdownOut(e, st)[0]})
					}
				}
				effects = append(effects, ef)
				if ef.shutdown != 1 {
					bad(e, x.St, s.c.P.Pos(x.Pos), "the server is shut down %d times", ef.shutdown)
				}
			}
			inSpawn = false
			st.Set("spawned", 1)
			return ret()
		}
		m := callee(ci)
		if m == nil || m.Pkg() == nil {
			return nil, false
		}
		recv0, args := argsOf(ci)
		switch m.Pkg().Path() {
		case "context":
			switch m.Name() {
			case "Done":
				if flow.Contains(recv0, func(v *flow.Val) bool { return v.Key() == ctx.Key() }) {
					return ret(flow.Term("ended", ci.Res.At(0).Type(), recv0))
				}
			case "Err", "Cause":
				of := recv0
				if m.Name() == "Cause" {
					of = args[0]
				}
				if flow.Contains(of, func(v *flow.Val) bool { return v.Key() == ctx.Key() }) {
					if world == "failed" && !inSpawn {
						return ret(nilErr())
					}
					return ret(freshErr(e, st, ci.Instr, "ended"))
				}
			case "WithoutCancel":
				return ret(flow.Root("context that does not end", ci.Res.At(0).Type()))
			case "WithCancel", "WithTimeout", "WithDeadline", "WithValue", "WithCancelCause":
				ex := e.Unknown(st, ci)
				ex[0].Res[0] = flow.Term("derived", ci.Res.At(0).Type(), args[0])
				return ex, true
			}
		case "errors":
			if m.Name() == "Is" && len(args) == 2 {
				c := closedErr(e, st)
				if flow.Strip(args[1]).Key() == flow.Strip(c).Key() {
					switch st.Rel(args[0], c) {
					case flow.EQ:
						return ret(flow.Bool(true))
					case flow.LT | flow.GT:
						return ret(flow.Bool(false))
					}
				}
			}
		case "net/http":
			if recv0 == nil || !typeIs(recv0.T, "net/http", "Server") {
				return nil, false
			}
			switch m.Name() {
			case "ListenAndServe", "ListenAndServeTLS", "Serve", "ServeTLS":
				tls := strings.HasSuffix(m.Name(), "TLS")
				st.Inc("listens", 1)
				if inSpawn {
					return nil, false
				}
				if tls == insecure {
					bad(e, st, s.c.P.Pos(ci.Pos), "it listens %s TLS although it is configured to be %s", map[bool]string{true: "with", false: "without"}[tls], mode)
				}
				if recv0.Key() != srv.Key() {
					bad(e, st, s.c.P.Pos(ci.Pos), "another server listens than the one that was set up")
				}
				hd := e.LoadPath(st, recv0, "Handler")
				if hd == nil || !flow.Contains(hd, func(v *flow.Val) bool { return v.T != nil && typeIs(v.T, "urlrouter", "Router") }) {
					bad(e, st, s.c.P.Pos(ci.Pos), "it listens before its routes are in place")
				}
				if st.Mon["spawned"] == 0 || len(effects) == 0 {
					bad(e, st, s.c.P.Pos(ci.Pos), "it listens before anything waits for the context to end in order to shut it down")
				}
				var err *flow.Val
				c := closedErr(e, st)
				if world == "stopped" {
					err = c
				} else {
					err = freshErr(e, st, ci.Instr, "lerr")
					st.Restrict(err, c, flow.LT|flow.GT)
				}
				st.MonV["listen error"] = err
				return ret(err)
			case "Shutdown":
				st.Inc("shutdown", 1)
				if recv0.Key() != srv.Key() {
					bad(e, st, s.c.P.Pos(ci.Pos), "another server is shut down than the one that listens")
				}
				if st.Mon["ended"] == 0 {
					bad(e, st, s.c.P.Pos(ci.Pos), "the server is shut down before the context ends")
				}
				if flow.Contains(args[0], func(v *flow.Val) bool { return v.Key() == ctx.Key() }) {
					bad(e, st, s.c.P.Pos(ci.Pos), "the server is shut down under a context that has ended, which lets no request finish")
				}
				return ret(shutdownOut(e, st)[0])
			case "Close":
				bad(e, st, s.c.P.Pos(ci.Pos), "the server is closed, which lets no request finish")
				return ret(freshErr(e, st, ci.Instr, "cerr"))
			}
		}
		if opaqueAmbient(ci) || strings.Contains(m.Pkg().Path(), "zap") || strings.HasSuffix(m.Pkg().Path(), "urlrouter") {
			return e.Unknown(st, ci), true
		}
		return nil, false
	}
	e := s.c.Engine(h)
	st := flow.NewState()
	args := rootArgs(fn, st)
	recv = args[0]
	for _, a := range args[1:] {
		if isContext(a.T) {
			ctx = a
		}
	}
	if ctx == nil {
		return fmt.Errorf("%s has no context", fn)
	}
	if _, err := s.setup(e, st, recv, t, insecure); err != nil {
		return err
	}
	sf := s.field(t, func(f *types.Var) bool { return typeIs(f.Type(), "net/http", "Server") })
	srv = flow.Root("http server", sf.Type())
	st.Restrict(srv, flow.NilOf(sf.Type()), flow.LT|flow.GT)
	st.Store(flow.FieldAddr(recv, sf), srv)
	n := 0
	for _, x := range e.Analyze(fn, args, nil, st) {
		if x.Panic {
			bad(e, x.St, s.c.P.Pos(x.Pos), "it panics")
			continue
		}
		n++
		p := s.c.P.Pos(x.Pos)
		if x.St.Mon["listens"] == 0 {
			bad(e, x.St, p, "it returns without having listened")
			continue
		}
		switch world {
		case "stopped":
			out := shutdownOut(e, x.St)[0]
			if x.St.Mon["awaited"] == 0 {
				bad(e, x.St, p, "it returns without waiting for the requests under way")
			} else if !agreeNil(x.St, x.Res[0], out) {
				bad(e, x.St, p, "what it returns is not the outcome of the shutdown")
			}
		default:
			if resNil(x, 0) != 0 {
				bad(e, x.St, p, "a failure to listen is not returned")
			}
		}
	}
	if n == 0 && fail == "" {
		fail = "it never returns"
		if world == "failed" {
			fail = "a failure to listen is not returned before the context ends"
		}
	}
	s.c.Done(r, e)
	s.c.Check(fail == "", r, name, pos, name+": "+fail, wit...)
	return nil
}

// certHooks models the reading of certificates; failing and succeeding.
func certHooks(extra func(e *flow.Engine, st *flow.State, ci *flow.CallInfo, m *types.Func, args []*flow.Val) ([]flow.Exit, bool)) *flow.Hooks {
	h := &flow.Hooks{}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		m := callee(ci)
		if m == nil || m.Pkg() == nil {
			return nil, false
		}
		recv, args := argsOf(ci)
		if extra != nil {
			if ex, ok := extra(e, st, ci, m, args); ok {
				return ex, true
			}
		}
		ret := func(v ...*flow.Val) ([]flow.Exit, bool) {
			return []flow.Exit{{St: st, Res: v, Pos: ci.Pos}}, true
		}
		orErr := func(v *flow.Val) ([]flow.Exit, bool) {
			no := st.Clone()
			no.Set("unusable", 1)
			no.Note(ci.Pos, "%s fails", m.Name())
			return []flow.Exit{{St: st, Res: []*flow.Val{v, nilErr()}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{flow.ZeroOf(ci.Res.At(0).Type()), freshErr(e, no, ci.Instr, "cerr")}, Pos: ci.Pos}}, true
		}
		switch m.Pkg().Path() + "." + m.Name() {
		case "fmt.Sprintf", "fmt.Sprint", "net.JoinHostPort":
			var as []*flow.Val
			for _, a := range args {
				if el, ok := e.Elems(st, a); ok {
					as = append(as, el...)
				} else {
					as = append(as, a)
				}
			}
			return ret(flow.Term("text", ci.Res.At(0).Type(), as...))
		case "crypto/tls.LoadX509KeyPair":
			return orErr(flow.Term("key pair", ci.Res.At(0).Type(), args...))
		case "crypto/tls.X509KeyPair":
			return orErr(flow.Term("key pair", ci.Res.At(0).Type(), flow.Strip(args[0]), flow.Strip(args[1])))
		case "os.ReadFile", "io/ioutil.ReadFile":
			return orErr(flow.Term("content", ci.Res.At(0).Type(), args[0]))
		case "crypto/x509.ParseCertificate":
			v := flow.Term("certificate", ci.Res.At(0).Type(), args...)
			st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
			return orErr(v)
		case "crypto/x509.Verify":
			return orErr(flow.Term("chains", ci.Res.At(0).Type(), recv))
		case "crypto/x509.NewCertPool":
			p := e.Fresh(st, ci.Instr, "pool", ci.Res.At(0).Type())
			st.Restrict(p, flow.NilOf(p.T), flow.LT|flow.GT)
			return ret(p)
		case "crypto/x509.SystemCertPool":
			p := e.Fresh(st, ci.Instr, "pool", ci.Res.At(0).Type())
			st.Restrict(p, flow.NilOf(p.T), flow.LT|flow.GT)
			return orErr(p)
		case "crypto/x509.AppendCertsFromPEM":
			no := st.Clone()
			no.Set("unusable", 1)
			no.Note(ci.Pos, "the CA cannot be parsed")
			st.MonV["in "+recv.Key()] = args[0]
			return []flow.Exit{{St: st, Res: []*flow.Val{flow.Bool(true)}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{flow.Bool(false)}, Pos: ci.Pos}}, true
		case "encoding/pem.Decode":
			b := e.Fresh(st, ci.Instr, "block", ci.Res.At(0).Type())
			no := st.Clone()
			no.Set("unusable", 1)
			no.Note(ci.Pos, "there is no block")
			st.Restrict(b, flow.NilOf(b.T), flow.LT|flow.GT)
			return []flow.Exit{{St: st, Res: []*flow.Val{b, flow.Root("rest", ci.Res.At(1).Type())}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{flow.NilOf(b.T), args[0]}, Pos: ci.Pos}}, true
		case "golang.org/x/net/http2.ConfigureServer":
			// it can only fail for settings that are not made here
			return ret(nilErr())
		}
		if strings.Contains(m.Pkg().Path(), "zap") {
			return e.Unknown(st, ci), true
		}
		return nil, false
	}
	return h
}

// certsOf: what a TLS configuration holds.
func certsOf(e *flow.Engine, st *flow.State, cfg *flow.Val) (pairs []*flow.Val, pools []*flow.Val, skip int) {
	if cs := e.LoadPath(st, cfg, "Certificates"); cs != nil {
		if el, ok := e.Elems(st, cs); ok {
			for _, c := range el {
				pairs = append(pairs, flow.Strip(c))
			}
		}
	}
	for _, f := range []string{"RootCAs", "ClientCAs"} {
		if p := e.LoadPath(st, cfg, f); p != nil && st.IsNil(p) != 1 {
			pools = append(pools, p)
		}
	}
	skip = 0
	if v := e.LoadPath(st, cfg, "InsecureSkipVerify"); v != nil {
		skip = st.Truth(v)
	}
	return
}

// startRule: what a server is set up with.
func (s *servers) startRule() error {
	const r = "start"
	s.c.Rule(r, "a server is set up for its port, with exactly the configured certificate and key, and with the configured CA if there is one, unless it is insecure; it does not start when any of these cannot be used", 9)
	for _, t := range s.ts {
		fn, err := methodOf(s.c, types.NewPointer(t), "Initialize")
		if err != nil {
			return err
		}
		for _, insecure := range []bool{true, false} {
			for _, ca := range []bool{true, false} {
				name := fmt.Sprintf("%s, %s, %s", s.c.P.Rel(t.String()), map[bool]string{true: "insecure", false: "secure"}[insecure], map[bool]string{true: "with a CA", false: "without a CA"}[ca])
				e := s.c.Engine(certHooks(nil))
				st := flow.NewState()
				args := rootArgs(fn, st)
				vals, err := s.setup(e, st, args[0], t, insecure)
				if err != nil {
					return err
				}
				if vals["ServerCA"] == nil || vals["ServerCRT"] == nil || vals["ServerKey"] == nil {
					return fmt.Errorf("%s: the configuration has no certificate", t)
				}
				bits := flow.EQ
				if ca {
					bits = flow.LT | flow.GT
				}
				if insecure && ca {
					continue // refused by the configuration
				}
				st.Restrict(vals["ServerCA"], flow.Str(""), bits)
				sf := s.field(t, func(f *types.Var) bool { return typeIs(f.Type(), "net/http", "Server") })
				st.Store(flow.FieldAddr(args[0], sf), flow.NilOf(sf.Type()))
				fail, pos := "", s.c.P.Pos(fn.Pos())
				var wit []string
				n := 0
				for _, x := range e.Analyze(fn, args, nil, st) {
					bad := func(f string) { fail, pos, wit = f, s.c.P.Pos(x.Pos), e.Witness(x.St.Tr, 25) }
					if x.Panic {
						bad("it panics")
						continue
					}
					if x.St.Mon["unusable"] != 0 {
						if resNil(x, 0) != 0 {
							bad("it starts although its certificates cannot be used")
						}
						continue
					}
					n++
					if resNil(x, 0) != 1 {
						bad("it does not start")
						continue
					}
					srv := e.LoadAt(x.St, flow.FieldAddr(args[0], sf), sf.Type())
					if x.St.IsNil(srv) == 1 {
						bad("no server is set up")
						continue
					}
					addr := e.LoadPath(x.St, srv, "Addr")
					if addr == nil || !refersTo(e, x.St, addr, func(v *flow.Val) bool {
						return v.K == flow.KSym && strings.Contains(v.S, "value of ") && strings.Contains(v.S, "Port")
					}) {
						bad("the server does not listen at the configured port")
					}
					tc := e.LoadPath(x.St, srv, "TLSConfig")
					if insecure {
						continue
					}
					if tc == nil || x.St.IsNil(tc) == 1 {
						bad("the server has no certificate")
						continue
					}
					pairs, pools, _ := certsOf(e, x.St, tc)
					if len(pairs) != 1 || pairs[0].K != flow.KTerm || pairs[0].S != "key pair" || !refersTo(e, x.St, pairs[0].Args[0], is(vals["ServerCRT"])) || !refersTo(e, x.St, pairs[0].Args[1], is(vals["ServerKey"])) {
						bad("the server's certificate is not the configured one")
					}
					if ca {
						okCA := len(pools) > 0
						for _, p := range pools {
							in := x.St.MonV["in "+p.Key()]
							okCA = okCA && in != nil && refersTo(e, x.St, in, is(vals["ServerCA"]))
						}
						if !okCA {
							bad("the configured CA is not used")
						}
					} else if len(pools) > 0 {
						bad("a CA is used that is not configured")
					}
				}
				if n == 0 && fail == "" {
					fail = "it never starts"
				}
				s.c.Done(r, e)
				s.c.Check(fail == "", r, name, pos, name+": "+fail, wit...)
			}
		}
	}
	return nil
}

func is(v *flow.Val) func(*flow.Val) bool {
	return func(o *flow.Val) bool { return o.Key() == v.Key() }
}

// refersTo: is the value made from one that satisfies f? Lists of arguments are looked into.
func refersTo(e *flow.Engine, st *flow.State, v *flow.Val, f func(*flow.Val) bool) bool {
	if v == nil {
		return false
	}
	if flow.Contains(v, f) {
		return true
	}
	found := false
	flow.Contains(v, func(x *flow.Val) bool {
		if el, ok := e.Elems(st, x); ok {
			for _, y := range el {
				found = found || flow.Contains(y, f)
			}
		}
		return false
	})
	return found
}

// clientRule: what a client is set up with.
func (s *servers) clientRule() error {
	const r = "client"
	s.c.Rule(r, "a client presents the configured certificate and trusts the configured CA whenever they are configured, verifies the server, and is refused when its configuration is incomplete or cannot be used", 8)
	fn, err := s.c.P.Func("pkg/clients", "NewHTTPClient")
	if err != nil {
		return err
	}
	for _, url := range []bool{true, false} {
		for mask := 0; mask < 8; mask++ {
			set := map[string]bool{"URL": url, "CAFile": mask&1 != 0, "ClientKeyFile": mask&2 != 0, "ClientCRTFile": mask&4 != 0}
			if !url && mask != 0 {
				continue
			}
			var on []string
			for _, n := range []string{"URL", "CAFile", "ClientKeyFile", "ClientCRTFile"} {
				if set[n] {
					on = append(on, n)
				}
			}
			name := "configured: " + strings.Join(on, ", ")
			if len(on) == 0 {
				name = "nothing is configured"
			}
			e := s.c.Engine(certHooks(nil))
			st := flow.NewState()
			args := rootArgs(fn, st)
			cfg := args[0]
			vals := map[string]*flow.Val{}
			for n, v := range set {
				f := fieldNamed(deref(cfg.T), n)
				if f == nil {
					return fmt.Errorf("the client's configuration has no %s", n)
				}
				vals[n] = flow.Root("value of "+n, types.Typ[types.String])
				st.Store(flow.FieldAddr(cfg, f), vals[n])
				bits := flow.EQ
				if v {
					bits = flow.LT | flow.GT
				}
				st.Restrict(vals[n], flow.Str(""), bits)
			}
			complete := url && (mask == 0 || set["ClientKeyFile"] && set["ClientCRTFile"])
			fail, pos := "", s.c.P.Pos(fn.Pos())
			var wit []string
			n := 0
			for _, x := range e.Analyze(fn, args, nil, st) {
				bad := func(f string) { fail, pos, wit = f, s.c.P.Pos(x.Pos), e.Witness(x.St.Tr, 25) }
				if x.Panic {
					bad("it panics")
					continue
				}
				if x.St.Mon["unusable"] != 0 || !complete {
					n++
					if resNil(x, 1) != 0 || resNil(x, 0) != 1 {
						bad("a configuration that is incomplete or cannot be used is accepted")
					}
					continue
				}
				n++
				if resNil(x, 1) != 1 || x.St.IsNil(x.Res[0]) == 1 {
					bad("a complete configuration is refused")
					continue
				}
				tr := e.LoadPath(x.St, x.Res[0], "Transport")
				var tc *flow.Val
				if tr != nil && tr.K == flow.KIface {
					tc = e.LoadPath(x.St, tr.Args[0], "TLSClientConfig")
				}
				if tc != nil {
					if _, _, skip := certsOf(e, x.St, tc); skip != 0 {
						bad("the server's certificate is not verified")
					}
				}
				if mask == 0 {
					continue
				}
				if tc == nil || x.St.IsNil(tc) == 1 {
					bad("the configured certificate is not used")
					continue
				}
				pairs, pools, _ := certsOf(e, x.St, tc)
				if len(pairs) != 1 || pairs[0].K != flow.KTerm || pairs[0].S != "key pair" || !refersTo(e, x.St, pairs[0].Args[0], is(vals["ClientCRTFile"])) || !refersTo(e, x.St, pairs[0].Args[1], is(vals["ClientKeyFile"])) {
					bad("the client's certificate is not the configured one")
				}
				if set["CAFile"] {
					in := (*flow.Val)(nil)
					if len(pools) == 1 {
						in = x.St.MonV["in "+pools[0].Key()]
					}
					if in == nil || !refersTo(e, x.St, in, is(vals["CAFile"])) {
						bad("the configured CA is not the one that is trusted")
					}
				}
			}
			if n == 0 && fail == "" {
				fail = "there is no outcome"
			}
			s.c.Done(r, e)
			s.c.Check(fail == "", r, name, pos, name+": "+fail, wit...)
		}
	}
	return nil
}

// wiredRule: what the programs run.
func (s *servers) wiredRule() error {
	const r = "wired"
	s.c.Rule(r, "a service's program runs everything it makes that has to be run, ends when told to, and reports when its settings are refused or something that it runs fails", 3)
	n := 0
	for _, fn := range s.c.P.AllFuncs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "main" || fn.Name() != "main" || !strings.Contains(fn.Pkg.Pkg.Path(), "/cmd/") {
			continue
		}
		runs := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if ci.Common().Method != nil && ci.Common().Method.Name() == "Run" {
						runs = true
					}
					if f := ci.Common().StaticCallee(); f != nil && f.Name() == "Run" {
						runs = true
					}
				}
			}
		}
		if !runs {
			continue
		}
		n++
		s.wired(r, fn)
	}
	if n < 3 {
		return fmt.Errorf("found %d programs that run a service, expected three", n)
	}
	return nil
}

// isTask: has to be run.
func (s *servers) isTask(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj()
		if m.Name() != "Execute" {
			continue
		}
		sig := m.Type().(*types.Signature)
		return sig.Params().Len() == 1 && isContext(sig.Params().At(0).Type()) && sig.Results().Len() == 1
	}
	return false
}

func (s *servers) wired(r string, fn *ssa.Function) {
	fail, pos := "", s.c.P.Pos(fn.Pos())
	var wit []string
	name := s.c.P.Rel(fn.Pkg.Pkg.Path())
	h := &flow.Hooks{}
	fatal := map[string]bool{}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		m := callee(ci)
		if m == nil || m.Pkg() == nil {
			return nil, false
		}
		_, args := argsOf(ci)
		bad := func(f string) { fail, pos, wit = f, s.c.P.Pos(ci.Pos), e.Witness(st.Tr, 30) }
		if ci.Fn != nil && ci.Fn.Pkg == fn.Pkg {
			return nil, false // a part of the program
		}
		switch {
		case strings.HasSuffix(m.Pkg().Path(), "goasync") && strings.HasPrefix(m.Name(), "Add"):
			st.Inc("added:"+flow.Strip(args[len(args)-1]).Key(), 1)
			if st.Mon["run"] != 0 {
				bad("something is added after the others were run to their end")
			}
			return []flow.Exit{{St: st, Res: e.Unknown(st, ci)[0].Res, Pos: ci.Pos}}, true
		case strings.HasSuffix(m.Pkg().Path(), "goasync") && m.Name() == "Run":
			st.Inc("run", 1)
			for _, k := range sortedKeys(st.Mon) {
				if strings.HasPrefix(k, "made:") && st.Mon["added:"+k[5:]] == 0 {
					bad("something that has to be run is not")
				}
			}
			if sig := st.MonV["signal"]; sig == nil || !flow.Contains(args[0], is(sig)) {
				bad("what is run does not end when the process is told to")
			}
			no := st.Clone()
			no.Set("failed", 1)
			no.Note(ci.Pos, "what is run fails")
			v := e.Fresh(no, ci.Instr, "errs", ci.Res.At(0).Type())
			no.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
			return []flow.Exit{{St: st, Res: []*flow.Val{flow.NilOf(v.T)}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
		case m.Pkg().Path() == "os/signal" && m.Name() == "NotifyContext":
			ex := e.Unknown(st, ci)
			st.MonV["signal"] = ex[0].Res[0]
			return ex, true
		case m.Pkg().Path() == "os" && m.Name() == "Exit":
			if k, ok := flow.IntVal(args[0]); ok && k == 0 && st.Mon["failed"] != 0 {
				bad("a failure is reported as a success")
			}
			fatal["exit"] = true
			return nil, true
		case m.Name() == "Fatal" || m.Name() == "Fatalf" || m.Name() == "Fatalln" || m.Name() == "Panic":
			fatal[m.Name()] = true
			return nil, true
		}
		if ci.Res == nil {
			return []flow.Exit{{St: st, Pos: ci.Pos}}, true
		}
		// anything else: fails, if it can, or makes what it makes
		ex := e.Unknown(st, ci)
		out := ex
		last := ci.Res.Len() - 1
		if last >= 0 && types.Identical(ci.Res.At(last).Type(), errType()) && s.c.P.InModule(m.Pkg().Path()) {
			no := ex[0].St.Clone()
			nr := append([]*flow.Val{}, ex[0].Res...)
			nr[last] = freshErr(e, no, ci.Instr, "err")
			no.Set("failed", 1)
			no.Note(ci.Pos, "%s fails", m.Name())
			ex[0].Res[last] = nilErr()
			if m.Name() != "Healthy" {
				out = append(out, flow.Exit{St: no, Res: nr, Pos: ci.Pos})
			}
		}
		for i := range ex[0].Res {
			if s.isTask(ci.Res.At(i).Type()) {
				st.Restrict(ex[0].Res[i], flow.NilOf(ex[0].Res[i].T), flow.LT|flow.GT)
				st.Set("made:"+flow.Strip(ex[0].Res[i]).Key(), 1)
			}
		}
		return out, true
	}
	e := s.c.Engine(h)
	st := flow.NewState()
	n := 0
	for _, x := range e.Analyze(fn, nil, nil, st) {
		if x.Panic {
			continue
		}
		n++
		if x.St.Mon["failed"] != 0 {
			fail, pos, wit = "it goes on, and ends as if all was well, although something failed", s.c.P.Pos(x.Pos), e.Witness(x.St.Tr, 30)
		} else if x.St.Mon["run"] != 1 {
			fail, pos, wit = "it ends without having run what it made", s.c.P.Pos(x.Pos), e.Witness(x.St.Tr, 30)
		}
	}
	if n == 0 && fail == "" {
		fail = "it never ends"
	}
	s.c.Done(r, e)
	s.c.Check(fail == "", r, name, pos, name+": "+fail, wit...)
}
