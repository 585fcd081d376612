package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

func init() {
	register("C02", "Settings come from where the usage says and are refused when unusable", func(c *Ctx) error {
		s := &settings{c: c}
		for _, f := range []func() error{s.anchor, s.sourceRule, s.refuseRule} {
			if err := f(); err != nil {
				return err
			}
		}
		return nil
	})
}

type settings struct {
	c        *Ctx
	services []*service
}

type service struct {
	name  string
	fn    *ssa.Function
	flags map[string]*setting
	field map[string][][]*types.Var // flag -> the fields that have its value
}

type setting struct {
	name, env string
	t         types.Type // what the flag holds
	def       *flow.Val
}

// world: what is given on the command line and in the environment; flags that are not named have a value of their own.
type world struct {
	given map[string]*flow.Val
	env   map[string]string
}

var envName = regexp.MustCompile(`env(?:ironment)? var(?:iable)? ([A-Z][A-Z0-9_]*)`)

func (s *settings) anchor() error {
	for _, fn := range s.c.P.AllFuncs {
		if fn.Pkg == nil || fn.Parent() != nil || fn.Signature.Recv() != nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/internal/config") || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		sig := fn.Signature
		if sig.Params().Len() != 1 || sig.Results().Len() != 2 || sig.Params().At(0).Type().String() != "[]string" || sig.Results().At(1).Type().String() != "error" {
			continue
		}
		s.services = append(s.services, &service{name: fn.Name(), fn: fn, flags: map[string]*setting{}, field: map[string][][]*types.Var{}})
	}
	sort.Slice(s.services, func(i, j int) bool { return s.services[i].name < s.services[j].name })
	if len(s.services) < 3 {
		return fmt.Errorf("found the settings of %d services, expected three", len(s.services))
	}
	for _, v := range s.services {
		s.run(v, s.base(v, true)) // learns the flags
		if len(v.flags) < 5 {
			return fmt.Errorf("%s: found %d flags", v.name, len(v.flags))
		}
	}
	return nil
}

func (v *service) own(flag string, t types.Type) *flow.Val {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		if b.Info()&types.IsString != 0 {
			return flow.Const(constant.MakeString("given "+flag), t)
		}
		if b.Info()&types.IsBoolean != 0 {
			return flow.Const(constant.MakeBool(false), t)
		}
		if b.Info()&types.IsInteger != 0 {
			return flow.Const(constant.MakeInt64(int64(41*time.Second)), t)
		}
	}
	return flow.Root("given "+flag, t)
}

// base: a usable configuration.
func (s *settings) base(v *service, insecure bool) *world {
	w := &world{given: map[string]*flow.Val{"log-level": flow.Str("debug"), "port": flow.Str("1234"), "storage-type": flow.Str("memory"), "insecure-http": flow.Bool(insecure)}, env: map[string]string{}}
	if insecure {
		for _, f := range []string{"server-ca", "server-key", "server-crt"} {
			w.given[f] = flow.Str("")
		}
	}
	return w
}

func (w *world) with(flag string, x *flow.Val) *world {
	n := &world{given: map[string]*flow.Val{}, env: map[string]string{}}
	for k, y := range w.given {
		n.given[k] = y
	}
	for k, y := range w.env {
		n.env[k] = y
	}
	n.given[flag] = x
	return n
}

func (w *world) withEnv(name, text string) *world {
	n := w.with("", nil)
	n.env[name] = text
	return n
}

// bare: the settings that nothing requires are not given.
func (v *service) bare(w *world) *world {
	n := w.with("", nil)
	for _, f := range v.flags {
		if b, ok := f.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && n.given[f.name] == nil && !strings.HasPrefix(f.name, "server-") {
			n.given[f.name] = flow.Str("")
		}
	}
	return n
}

// free: the variables of the settings that nothing requires are set.
func (v *service) free(w *world) *world {
	n := w.with("", nil)
	for _, f := range v.flags {
		if b, ok := f.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && n.given[f.name] == nil && !strings.HasPrefix(f.name, "server-") && f.env != "" {
			n.env[f.env] = "from the environment: " + f.name
		}
	}
	return n
}

// value of a flag as given in a world.
func (v *service) value(w *world, f *setting) *flow.Val {
	if x := w.given[f.name]; x != nil {
		return flow.Const(x.C, f.t)
	}
	return v.own(f.name, f.t)
}

func constText(x *flow.Val) (string, bool) {
	x = flow.Strip(x)
	if x.K == flow.KConst && x.C != nil && x.C.Kind() == constant.String {
		return constant.StringVal(x.C), true
	}
	return "", false
}

func (s *settings) run(v *service, w *world) (*flow.Engine, []flow.Exit) {
	h := &flow.Hooks{}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		m := callee(ci)
		if m == nil || m.Pkg() == nil {
			return nil, false
		}
		recv, args := argsOf(ci)
		ret := func(r ...*flow.Val) ([]flow.Exit, bool) {
			return []flow.Exit{{St: st, Res: r, Pos: ci.Pos}}, true
		}
		refuse := func() ([]flow.Exit, bool) {
			var r []*flow.Val
			for i := 0; i < ci.Res.Len()-1; i++ {
				r = append(r, flow.ZeroOf(ci.Res.At(i).Type()))
			}
			return ret(append(r, freshErr(e, st, ci.Instr, "serr"))...)
		}
		name := m.Name()
		switch m.Pkg().Path() {
		case "flag":
			if recv == nil {
				if name == "NewFlagSet" {
					p := flow.Root("flags", ci.Res.At(0).Type())
					st.Restrict(p, flow.NilOf(p.T), flow.LT|flow.GT)
					return ret(p)
				}
				return nil, false
			}
			var ptr, fname, def, usage *flow.Val
			kind := strings.TrimSuffix(name, "Var")
			switch kind {
			case "String", "Bool", "Duration", "Int", "Int64", "Uint", "Uint64", "Float64":
				if kind != name && len(args) == 4 {
					ptr, fname, def, usage = args[0], args[1], args[2], args[3]
				} else if kind == name && len(args) == 3 {
					fname, def, usage = args[0], args[1], args[2]
				}
			case "Parse":
				st.Set("parsed", 1)
				no := st.Clone()
				no.Set("unparsed", 1)
				no.Note(ci.Pos, "the command line is malformed")
				for _, f := range v.flags {
					if p := st.MonV["flag "+f.name]; p != nil {
						st.Store(p, v.value(w, f))
					}
				}
				return []flow.Exit{{St: st, Res: []*flow.Val{nilErr()}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{freshErr(e, no, ci.Instr, "serr")}, Pos: ci.Pos}}, true
			}
			if fname != nil {
				n, ok := constText(fname)
				if !ok {
					return nil, false
				}
				f := v.flags[n]
				if f == nil {
					f = &setting{name: n, t: def.T}
					if u, ok := constText(usage); ok {
						if g := envName.FindStringSubmatch(u); g != nil {
							f.env = g[1]
						}
					}
					if f.t == nil || kind == "Duration" {
						f.t = m.Signature().Params().At(m.Signature().Params().Len() - 2).Type()
					}
					f.def = def
					v.flags[n] = f
				}
				fresh := ptr == nil
				if fresh {
					ptr = flow.Root("flag "+n, types.NewPointer(f.t))
					st.Restrict(ptr, flow.NilOf(ptr.T), flow.LT|flow.GT)
				}
				st.MonV["flag "+n] = ptr
				st.Store(ptr, def)
				if fresh {
					return ret(ptr)
				}
				return ret()
			}
			return nil, false
		case "os":
			if (name == "Getenv" || name == "LookupEnv") && len(args) == 1 {
				n, ok := constText(args[0])
				if !ok {
					return nil, false
				}
				t := flow.Str(w.env[n])
				if name == "LookupEnv" {
					return ret(t, flow.Bool(w.env[n] != ""))
				}
				return ret(t)
			}
		case "strings":
			if len(args) >= 1 {
				if a, ok := constText(args[0]); ok {
					switch name {
					case "ToLower":
						return ret(flow.Str(strings.ToLower(a)))
					case "ToUpper":
						return ret(flow.Str(strings.ToUpper(a)))
					case "TrimSpace":
						return ret(flow.Str(strings.TrimSpace(a)))
					case "EqualFold":
						if b, ok := constText(args[1]); ok {
							return ret(flow.Bool(strings.EqualFold(a, b)))
						}
					}
				}
			}
		case "strconv":
			if len(args) >= 1 {
				if a, ok := constText(args[0]); ok {
					switch name {
					case "Atoi", "ParseInt":
						n, err := strconv.ParseInt(a, 10, 64)
						if err != nil {
							return refuse()
						}
						return ret(flow.Const(constant.MakeInt64(n), ci.Res.At(0).Type()), nilErr())
					case "ParseUint":
						n, err := strconv.ParseUint(a, 10, 64)
						if err != nil {
							return refuse()
						}
						return ret(flow.Const(constant.MakeUint64(n), ci.Res.At(0).Type()), nilErr())
					case "ParseBool":
						b, err := strconv.ParseBool(a)
						if err != nil {
							return refuse()
						}
						return ret(flow.Bool(b), nilErr())
					}
				}
			}
		case "time":
			if name == "ParseDuration" {
				if a, ok := constText(args[0]); ok {
					d, err := time.ParseDuration(a)
					if err != nil {
						return refuse()
					}
					return ret(flow.Const(constant.MakeInt64(int64(d)), ci.Res.At(0).Type()), nilErr())
				}
			}
		}
		return nil, false
	}
	e := s.c.Engine(h)
	st := flow.NewState()
	args := rootArgs(v.fn, st)
	return e, e.Analyze(v.fn, args, nil, st)
}

// leaves: the values that a configuration has, by the fields that lead to them.
func (s *settings) leaves(e *flow.Engine, st *flow.State, v *flow.Val, t types.Type, path []*types.Var, f func(path []*types.Var, x *flow.Val)) {
	if len(path) > 4 || v == nil {
		return
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if st.IsNil(v) == 1 {
			return
		}
		if u, ok := p.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				fl := u.Field(i)
				s.leaves(e, st, e.LoadAt(st, flow.FieldAddr(v, fl), fl.Type()), fl.Type(), append(append([]*types.Var{}, path...), fl), f)
			}
			return
		}
		s.leaves(e, st, e.LoadAt(st, v, p.Elem()), p.Elem(), path, f)
		return
	}
	f(path, v)
}

func pathName(p []*types.Var) string {
	var n []string
	for _, f := range p {
		n = append(n, f.Name())
	}
	return strings.Join(n, ".")
}

// settle runs a world: accepted, with which values; or refused on every path.
func (s *settings) settle(v *service, w *world, see func(e *flow.Engine, x flow.Exit, vals map[string]*flow.Val, paths map[string][]*types.Var) string) (accepted int, fail, pos string, wit []string, eng *flow.Engine) {
	e, xs := s.run(v, w)
	pos = s.c.P.Pos(v.fn.Pos())
	for _, x := range xs {
		bad := func(f string) { fail, pos, wit = f, s.c.P.Pos(x.Pos), e.Witness(x.St.Tr, 25) }
		if x.Panic {
			bad("it ends the process")
			continue
		}
		if x.St.Mon["unparsed"] != 0 {
			if resNil(x, 1) != 0 {
				bad("a malformed command line is accepted")
			}
			continue
		}
		if resNil(x, 1) == 0 {
			continue
		}
		if resNil(x, 1) != 1 || x.St.IsNil(x.Res[0]) == 1 {
			bad("it is not known whether the settings are refused")
			continue
		}
		if x.St.Mon["parsed"] == 0 {
			bad("the command line is not read")
			continue
		}
		accepted++
		vals, paths := map[string]*flow.Val{}, map[string][]*types.Var{}
		s.leaves(e, x.St, x.Res[0], v.fn.Signature.Results().At(0).Type(), nil, func(p []*types.Var, y *flow.Val) {
			vals[pathName(p)] = flow.Strip(y)
			paths[pathName(p)] = p
		})
		if f := see(e, x, vals, paths); f != "" {
			bad(f)
		}
	}
	return accepted, fail, pos, wit, e
}

func sameConst(a, b *flow.Val) bool {
	return a != nil && b != nil && a.K == flow.KConst && b.K == flow.KConst && a.C != nil && b.C != nil && a.C.Kind() == b.C.Kind() && constant.Compare(a.C, token.EQL, b.C)
}

// flagNames in order.
func (v *service) flagNames() []string {
	var r []string
	for n := range v.flags {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// sourceRule: where each setting comes from.
func (s *settings) sourceRule() error {
	const r = "source"
	s.c.Rule(r, "each setting is the one given by its flag, unless the environment variable that the flag's usage names is set, which then decides this setting and no other; another service's variables have no effect", 35)
	foreign := map[string]bool{}
	for _, v := range s.services {
		for _, f := range v.flags {
			foreign[f.env] = f.env != ""
		}
	}
	for _, v := range s.services {
		// the fields of each flag
		learn := func(w *world, only func(string) bool) {
			s.settle(v, w, func(e *flow.Engine, x flow.Exit, vals map[string]*flow.Val, paths map[string][]*types.Var) string {
				for _, n := range v.flagNames() {
					if !only(n) {
						continue
					}
					for p, y := range vals {
						if sameConst(y, v.value(w, v.flags[n])) {
							v.field[n] = append(v.field[n], paths[p])
						}
					}
				}
				return ""
			})
		}
		learn(s.base(v, false), func(n string) bool { return n != "insecure-http" })
		learn(s.base(v, true), func(n string) bool { return n == "insecure-http" })
		expect := func(w *world, set map[string]*flow.Val) func(*flow.Engine, flow.Exit, map[string]*flow.Val, map[string][]*types.Var) string {
			return func(e *flow.Engine, x flow.Exit, vals map[string]*flow.Val, _ map[string][]*types.Var) string {
				for _, n := range v.flagNames() {
					want := v.value(w, v.flags[n])
					if y := set[n]; y != nil {
						want = y
					}
					for _, p := range v.field[n] {
						if y := vals[pathName(p)]; !sameConst(y, want) {
							return fmt.Sprintf("setting %s (-%s) is %v instead of %v", pathName(p), n, y, want)
						}
					}
				}
				if m, _ := methodOf(s.c, v.fn.Signature.Results().At(0).Type(), "LogLevel"); m != nil {
					want := v.value(w, v.flags["log-level"])
					if y := set["log-level"]; y != nil {
						want = y
					}
					for _, y := range e.Analyze(m, []*flow.Val{x.Res[0]}, nil, x.St.Clone()) {
						if y.Panic || len(y.Res) != 1 || !sameConst(flow.Strip(y.Res[0]), want) {
							return "the reported log level is not the configured one"
						}
					}
				}
				return ""
			}
		}
		judge := func(name string, w *world, set map[string]*flow.Val) {
			n, fail, pos, wit, e := s.settle(v, w, expect(w, set))
			if n == 0 && fail == "" {
				fail = "usable settings are refused"
			}
			s.c.Done(r, e)
			s.c.Check(fail == "", r, v.name+": "+name, pos, v.name+": "+name+": "+fail, wit...)
		}
		for _, n := range v.flagNames() {
			s.c.Check(len(v.field[n]) > 0, r, v.name+": -"+n, s.c.P.Pos(v.fn.Pos()), v.name+": the flag -"+n+" sets nothing")
		}
		judge("flags, insecure", s.base(v, true), nil)
		judge("flags, secure with a CA", s.base(v, false), nil)
		judge("flags, secure without a CA", s.base(v, false).with("server-ca", flow.Str("")), nil)
		judge("log level info", s.base(v, true).with("log-level", flow.Str("info")), nil)
		all := s.base(v, true)
		any := false
		for n, ok := range foreign {
			mine := false
			for _, f := range v.flags {
				mine = mine || f.env == n
			}
			if ok && !mine {
				all, any = all.withEnv(n, "foreign"), true
			}
		}
		if any {
			judge("another service's environment", all, nil)
		}
		for _, n := range v.flagNames() {
			f := v.flags[n]
			if f.env == "" {
				continue
			}
			w, text := s.base(v, false), "from the environment: "+n
			val := flow.Str(text)
			switch n {
			case "log-level":
				text, val = "info", flow.Str("info")
			case "port":
				text, val = "4321", flow.Str("4321")
			case "storage-type":
				w, text, val = w.with(n, flow.Str("given")), "memory", flow.Str("memory")
			case "insecure-http":
				w, text, val = s.base(v, true).with(n, flow.Bool(false)), "true", flow.Bool(true)
			default:
				if b, ok := f.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					text, val = "7s", flow.Const(constant.MakeInt64(int64(7*time.Second)), f.t)
				}
			}
			judge(f.env+" for -"+n, w.withEnv(f.env, text), map[string]*flow.Val{n: val})
			if !strings.HasPrefix(n, "server-") {
				judge(f.env+" for -"+n+" and nothing else", v.bare(s.base(v, true)).with("insecure-http", flow.Bool(n != "insecure-http")).withEnv(f.env, text), map[string]*flow.Val{n: val})
			}
			if n == "insecure-http" {
				judge(f.env+" against -"+n, s.base(v, false).with(n, flow.Bool(true)).withEnv(f.env, "false"), map[string]*flow.Val{n: flow.Bool(false)})
			}
		}
	}
	return nil
}

// refuseRule: settings that cannot be used.
func (s *settings) refuseRule() error {
	const r = "refuse"
	s.c.Rule(r, "a log level or storage that does not exist, a certificate of an insecure server, a missing certificate of a secure one and a default timeout that is not positive are refused, wherever they come from", 20)
	for _, v := range s.services {
		judge := func(name string, w *world) {
			n, fail, pos, wit, e := s.settle(v, w, func(*flow.Engine, flow.Exit, map[string]*flow.Val, map[string][]*types.Var) string { return "" })
			if n > 0 && fail == "" {
				fail = "it is accepted"
			}
			s.c.Done(r, e)
			s.c.Check(fail == "", r, v.name+": "+name, pos, v.name+": "+name+": "+fail, wit...)
		}
		both := func(name, flag, text string, val *flow.Val, w *world) {
			f := v.flags[flag]
			if f == nil {
				return
			}
			judge(name, w.with(flag, val))
			if f.env != "" && text != "" {
				judge(name+", from the environment", w.withEnv(f.env, text))
			}
		}
		ins, sec := s.base(v, true), s.base(v, false)
		both("unknown log level", "log-level", "trace", flow.Str("trace"), ins)
		both("no log level", "log-level", "", flow.Str(""), ins)
		both("unknown storage", "storage-type", "tape", flow.Str("tape"), ins)
		for _, n := range []string{"server-ca", "server-key", "server-crt"} {
			both("insecure with -"+n, n, "x", flow.Str("x"), ins)
		}
		for _, n := range []string{"server-key", "server-crt"} {
			both("secure without -"+n, n, "", flow.Str(""), sec)
			judge("secure without -"+n+", with the clients' variables", v.free(sec.with(n, flow.Str(""))))
		}
		for _, n := range v.flagNames() {
			f := v.flags[n]
			if b, ok := f.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && typeIs(f.t, "time", "Duration") {
				both("-"+n+" of zero", n, "0s", flow.Const(constant.MakeInt64(0), f.t), ins)
				both("negative -"+n, n, "-3s", flow.Const(constant.MakeInt64(-3e9), f.t), ins)
				if f.env != "" {
					judge("malformed "+f.env, ins.withEnv(f.env, "soon"))
				}
			}
		}
	}
	return nil
}
