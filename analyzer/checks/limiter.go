package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

const (
	relCounters  = "internal/limiter/counters"
	relRules     = "internal/limiter/rules"
	relOverrides = "internal/limiter/overrides"
	pkgLimiterV1 = "models/api/limiter/v1"
)

func init() {
	register("M01", "An accepted increment keeps every limit", func(c *Ctx) error {
		c.Rule("increment", "an increment is applied, to the counter it names and with its amount, only on paths where for every limit of every matching rule either the limit is unlimited or total + amount <= limit has been established over all counters of the limit's group", 9)
		c.Rule("increment-handler", "the handler increments only positive amounts and decrements otherwise", 2)
		if err := incrementCheck(c, "M01"); err != nil {
			return err
		}
		return upsertHandler(c, "increment-handler")
	})
	register("M02", "Limit checks are serialised and every lock is released", func(c *Ctx) error {
		c.Rule("locks", "limits are checked and the counter is changed while a lock for each of the counter's keys is held; the locks are taken in key order, watched, and released exactly once on every exit", 9)
		c.Rule("own locks", "each request locks with a client of its own: a client hands a lock it holds to everybody who asks it for the same key values", 1)
		ownLocks(c, "own locks")
		return incrementCheck(c, "M02")
	})
}

// ownLocks: the client that a request takes its locks with is made for that request.
func ownLocks(c *Ctx, rule string) {
	for _, r := range registrations(c, rule) {
		if r.handler.K != flow.KFn || r.name == "the function registered for it" {
			continue
		}
		h := handlerHooks(c, r, func(*flow.State, string, string) {})
		inner := h.Call
		used := false
		var e *flow.Engine
		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			m := callee(ci)
			if m != nil {
				sig := m.Type().(*types.Signature)
				if sig.Recv() == nil && sig.Results().Len() == 2 && typeIs(deref(sig.Results().At(0).Type()), "/locker_client", "LockClient") && sig.Results().At(0).Type() != nil {
					v := flow.Root("own client", ci.Res.At(0).Type())
					st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
					b := st.Clone()
					er := freshErr(e, b, ci.Instr, "clienterr")
					return []flow.Exit{{St: st, Res: []*flow.Val{v, flow.NilOf(ci.Res.At(1).Type())}, Pos: ci.Pos}, {St: b, Res: []*flow.Val{flow.NilOf(v.T), er}, Pos: ci.Pos}}, true
				}
				_, args := argsOf(ci)
				for i := 0; i < sig.Params().Len() && i < len(args); i++ {
					if t := sig.Params().At(i).Type(); !ci.Go && (typeIs(t, "/locker_client", "LockerClient") || typeIs(deref(t), "/locker_client", "LockClient")) && (ci.Fn == nil || ci.Method != nil) {
						used = true
						if !flow.Contains(args[i], func(x *flow.Val) bool { return strings.Contains(x.Key(), "$own client") }) {
							c.Fail(rule, r.name, c.P.Pos(ci.Pos), r.name+": the locks are taken with a client that other requests share", e.Witness(st.Tr, 20)...)
						}
					}
				}
			}
			return inner(e, st, ci)
		}
		e = c.Engine(h)
		fn := r.handler.Fn
		args := []*flow.Val{flow.Root("w", fn.Signature.Params().At(0).Type()), flow.Root("req", fn.Signature.Params().At(1).Type())}
		e.Analyze(fn, args, r.handler.Args, r.st.Clone())
		if used {
			c.Ob(rule, r.name)
			c.Done(rule, e)
		}
	}
}

// ---- linear arithmetic over terms ----

type linear struct {
	coef map[string]int64
	k    int64
}

func linOf(v *flow.Val) linear {
	l := linear{coef: map[string]int64{}}
	l.add(v, 1)
	return l
}
func (l *linear) add(v *flow.Val, s int64) {
	switch {
	case v.K == flow.KConst:
		if i, ok := flow.IntVal(v); ok {
			l.k += s * i
			return
		}
	case v.K == flow.KZero:
		return
	case v.K == flow.KTerm && v.S == "op+":
		l.add(v.Args[0], s)
		l.add(v.Args[1], s)
		return
	case v.K == flow.KTerm && v.S == "op-" && len(v.Args) == 2:
		l.add(v.Args[0], s)
		l.add(v.Args[1], -s)
		return
	case v.K == flow.KTerm && v.S == "u-":
		l.add(v.Args[0], -s)
		return
	case v.K == flow.KTerm && v.S == "conv":
		l.add(v.Args[0], s)
		return
	}
	l.coef[v.Key()] += s
	if l.coef[v.Key()] == 0 {
		delete(l.coef, v.Key())
	}
}

// sameCoef: do the two have the same leaves, up to the factor s?
func (l linear) sameCoef(o linear, s int64) bool {
	if len(l.coef) != len(o.coef) {
		return false
	}
	for k, v := range l.coef {
		if o.coef[k]*s != v {
			return false
		}
	}
	return true
}

// provesLE: does some branch fact of the state say that the linear expression is at most zero?
func provesLE(st *flow.State, t linear) bool {
	if len(t.coef) == 0 {
		return t.k <= 0
	}
	ok := false
	st.Facts(func(x, y *flow.Val, bits int) {
		if ok || x.T == nil || y.T == nil || !isInt(x.T) && !isInt(y.T) {
			return
		}
		d := linOf(x)
		d.add(y, -1)
		if d.sameCoef(t, 1) {
			// t = d - (d.k - t.k)
			off := t.k - d.k
			switch bits {
			case flow.LT:
				ok = ok || off-1 <= 0
			case flow.LT | flow.EQ, flow.EQ:
				ok = ok || off <= 0
			}
		}
		if d.sameCoef(t, -1) {
			// t = -d + (t.k + d.k)
			off := t.k + d.k
			switch bits {
			case flow.GT:
				ok = ok || off-1 <= 0
			case flow.GT | flow.EQ, flow.EQ:
				ok = ok || off <= 0
			}
		}
	})
	return ok
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// ---- key values ----

func isKeyValues(t types.Type) bool { return t != nil && typeIs(t, "models/datatypes", "KeyValues") }

// keyValuesCall models the two ways to list the keys of a KeyValues map (two entries) and the sorting of such a list.
func keyValuesCall(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
	if ci.Fn == nil {
		return nil, false
	}
	m, _ := ci.Fn.Object().(*types.Func)
	if m == nil && ci.Fn.Origin() != nil {
		m, _ = ci.Fn.Origin().Object().(*types.Func)
	}
	if m == nil || m.Pkg() == nil {
		return nil, false
	}
	if methodIs(m, "models/datatypes", "SortedKeys", "Keys") && len(ci.Args) == 1 && isKeyValues(ci.Args[0].T) {
		kv := ci.Args[0]
		if kv.K == flow.KSym && kv.Alloc {
			return nil, false
		}
		k0, k1 := flow.MapKey(kv, 0, types.Typ[types.String]), flow.MapKey(kv, 1, types.Typ[types.String])
		if m.Name() == "Keys" {
			k0, k1 = k1, k0
		}
		return []flow.Exit{{St: st, Res: []*flow.Val{e.NewSlice(st, ci.Instr, ci.Res.At(0).Type(), k0, k1)}, Pos: ci.Pos}}, true
	}
	if p := m.Pkg().Path(); p == "sort" && (m.Name() == "Strings" || m.Name() == "Sort" || m.Name() == "Slice") || p == "slices" && strings.HasPrefix(m.Name(), "Sort") {
		sl := flow.Strip(ci.Args[0])
		if el, ok := e.Elems(st, sl); ok && len(el) == 2 && p+"."+m.Name() != "sort.Slice" {
			a, b := el[0], el[1]
			if a.K == flow.KTerm && b.K == flow.KTerm && a.S == "key1" && b.S == "key0" && a.Args[0].Key() == b.Args[0].Key() {
				st.Store(flow.IndexAddr(sl.Args[0], flow.Int(0), a.T), b)
				st.Store(flow.IndexAddr(sl.Args[0], flow.Int(1), a.T), a)
			}
		}
		return []flow.Exit{{St: st, Pos: ci.Pos}}, true
	}
	return nil, false
}

// noteMap remembers what is put into maps built by the analysed code.
func noteMap(e *flow.Engine, st *flow.State, m, k, v *flow.Val, in ssa.Instruction) {
	if !(m.K == flow.KSym && m.Alloc) {
		return
	}
	cur := st.MonV["maps"]
	var all []*flow.Val
	if cur != nil {
		for _, t := range cur.Args {
			if !strings.Contains(t.Args[0].Key(), "~") && !(t.Args[0].Key() == m.Key() && t.Args[1].Key() == k.Key()) {
				all = append(all, t)
			}
		}
	}
	if v != nil {
		all = append(all, flow.Tup(m, k, v))
	}
	st.MonV["maps"] = flow.Tup(all...)
}

// mapEntries lists what was put into a map.
func mapEntries(st *flow.State, m *flow.Val) (keys, vals []*flow.Val) {
	if cur := st.MonV["maps"]; cur != nil {
		for _, t := range cur.Args {
			if t.Args[0].Key() == m.Key() {
				keys, vals = append(keys, t.Args[1]), append(vals, t.Args[2])
			}
		}
	}
	return
}

// isEntry: is v the value stored in map m under key k?
func isEntry(v, m, k *flow.Val) bool {
	a := flow.LoadAddr(flow.Strip(v))
	return a != nil && a.K == flow.KAddr && a.Key() == flow.IndexAddr(m, k, v.T).Key()
}

// fieldVal reads a field of a struct value (or of what a pointer points to).
func fieldVal(e *flow.Engine, st *flow.State, v *flow.Val, name string) *flow.Val {
	if v == nil || v.T == nil {
		return nil
	}
	if v.K == flow.KStruct {
		s, ok := v.T.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return v.Args[i]
			}
		}
		return nil
	}
	if v.K == flow.KZero {
		if f := fieldNamed(v.T, name); f != nil {
			return flow.ZeroOf(f.Type())
		}
		return nil
	}
	if a := flow.LoadAddr(v); a != nil {
		if f := fieldNamed(v.T, name); f != nil {
			return e.LoadAt(st, flow.FieldAddr(a, f), f.Type())
		}
	}
	return e.LoadPath(st, v, name)
}

// ---- increments ----

type limitCfg []int // number of overrides of each matching rule

func (c limitCfg) String() string {
	if len(c) == 0 {
		return "no matching rule"
	}
	var s []string
	for _, n := range c {
		s = append(s, fmt.Sprintf("a rule with %d overrides", n))
	}
	return strings.Join(s, ", ")
}

func callee(ci *flow.CallInfo) *types.Func {
	if ci.Method != nil {
		return ci.Method
	}
	if ci.Fn != nil {
		if m, ok := ci.Fn.Object().(*types.Func); ok {
			return m
		}
		if o := ci.Fn.Origin(); o != nil {
			if m, ok := o.Object().(*types.Func); ok {
				return m
			}
		}
	}
	return nil
}

// argsOf: the arguments without the receiver, and the receiver.
func argsOf(ci *flow.CallInfo) (*flow.Val, []*flow.Val) {
	if ci.Method != nil {
		return ci.Recv, ci.Args
	}
	if ci.Fn != nil && ci.Fn.Signature.Recv() != nil && len(ci.Args) > 0 {
		return ci.Args[0], ci.Args[1:]
	}
	return nil, ci.Args
}

func serverErr(e *flow.Engine, st *flow.State, ci *flow.CallInfo, t types.Type, tag string) *flow.Val {
	v := e.Fresh(st, ci.Instr, tag, t)
	st.Restrict(v, flow.NilOf(t), flow.LT|flow.GT)
	return v
}

func int64c(i int64) *flow.Val { return flow.Const(constant.MakeInt64(i), types.Typ[types.Int64]) }

func incrementCheck(c *Ctx, about string) error {
	fn, err := c.P.Method(relCounters, "counterClientLocal", "IncrementCounters")
	if err != nil {
		return err
	}
	rule := map[string]string{"M01": "increment", "M02": "locks"}[about]
	for _, cfg := range []limitCfg{{}, {0}, {1}, {2}, {0, 0}, {2, 0}, {0, 2}, {1, 1}, {0, 1}} {
		incrementCase(c, about, rule, fn, cfg)
	}
	return nil
}

func incrementCase(c *Ctx, about, rule string, fn *ssa.Function, cfg limitCfg) {
	anyBad := map[string]bool{}
	var e *flow.Engine
	fail := func(st *flow.State, pos string, ab, what string) {
		if ab != about || anyBad[what] {
			return
		}
		anyBad[what] = true
		c.Fail(rule, what, pos, what+" ("+cfg.String()+")", e.Witness(st.Tr, 60)...)
	}
	var ptypes []types.Type
	for _, p := range fn.Params {
		ptypes = append(ptypes, p.Type())
	}
	recv := flow.Root("recv", ptypes[0])
	ctx := flow.Root("ctx", ptypes[1])
	locker := flow.Root("lockerClient", ptypes[2])
	counter := flow.Root("counter", ptypes[3])

	tm := &TreeModel{}
	h := &flow.Hooks{Map: noteMap}
	e = c.Engine(h)
	e.Unroll = 4
	st0 := flow.NewState()
	for _, v := range []*flow.Val{recv, ctx, locker, counter} {
		st0.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
	}
	kv := e.LoadPath(st0, counter, "Spec", "DBDefinition", "KeyValues")
	props := e.LoadPath(st0, counter, "Spec", "Properties")
	inc := e.LoadPath(st0, counter, "Spec", "Properties", "Counters", "*")
	if kv == nil || props == nil || inc == nil {
		c.Fail(rule, "undecided", c.P.Pos(fn.Pos()), "the request's key values, properties and amount could not be located")
		return
	}
	st0.Restrict(inc, int64c(0), flow.GT)

	// the matching rules
	ruleT, ovT := limTypes(c)
	if ruleT == nil || ovT == nil {
		c.Fail(rule, "undecided", c.P.Pos(fn.Pos()), "the rule and override models could not be located")
		return
	}
	type limit struct{ group, limit *flow.Val }
	var limits []limit
	var rules []*flow.Val
	for i, n := range cfg {
		r := flow.Root(fmt.Sprintf("rule%d", i), types.NewPointer(ruleT))
		st0.Restrict(r, flow.NilOf(r.T), flow.LT|flow.GT)
		rules = append(rules, r)
		state := e.LoadPath(st0, r, "State")
		fOv := fieldNamed(state.T, "Overrides")
		if n == 0 {
			limits = append(limits, limit{e.LoadPath(st0, r, "Spec", "DBDefinition", "GroupByKeyValues"), e.LoadPath(st0, r, "Spec", "Properties", "Limit", "*")})
			st0.Store(flow.FieldAddr(state, fOv), flow.NilOf(fOv.Type()))
			continue
		}
		var ovs []*flow.Val
		for j := 0; j < n; j++ {
			o := flow.Root(fmt.Sprintf("override%d_%d", i, j), types.NewPointer(ovT))
			st0.Restrict(o, flow.NilOf(o.T), flow.LT|flow.GT)
			ovs = append(ovs, o)
			limits = append(limits, limit{e.LoadPath(st0, o, "Spec", "DBDefinition", "GroupByKeyValues"), e.LoadPath(st0, o, "Spec", "Properties", "Limit", "*")})
		}
		st0.Store(flow.FieldAddr(state, fOv), e.NewSlice(st0, fmt.Sprintf("ovs%d", i), fOv.Type(), ovs...))
	}
	for _, l := range limits {
		st0.Restrict(l.limit, int64c(-1), flow.GT|flow.EQ)
		st0.MonV["keep "+l.limit.Key()] = l.limit
	}

	bad := func(st *flow.State, what string) { st.Set("bad:"+what, 1) }
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if ex, ok := ctxDoneCall(e, st, ci); ok {
			return ex, true
		}
		if ex, ok := keyValuesCall(e, st, ci); ok {
			return ex, true
		}
		if ex, ok := itemCall(st, ci); ok {
			return ex, true
		}
		m := callee(ci)
		rcv, args := argsOf(ci)
		ret := func(s *flow.State, vals ...*flow.Val) flow.Exit { return flow.Exit{St: s, Res: vals, Pos: ci.Pos} }
		switch {
		case methodIs(m, relRules, "FindLimits"):
			if args[len(args)-1].Key() != kv.Key() {
				bad(st, "M01:the limits are looked up for other key values than the counter's")
			}
			f := st.Clone()
			f.Set("limerr", 1)
			f.Note(ci.Pos, "looking up the limits fails")
			st.Set("lim", 1)
			st.Note(ci.Pos, "limits found: %s", cfg)
			return []flow.Exit{
				ret(f, flow.NilOf(ci.Res.At(0).Type()), serverErr(e, f, ci, ci.Res.At(1).Type(), "lerr")),
				ret(st, e.NewSlice(st, ci.Instr, ci.Res.At(0).Type(), rules...), flow.NilOf(ci.Res.At(1).Type())),
			}, true
		case methodIs(m, "clients/locker_client", "ObtainLock"):
			n := st.Mon["nlock"]
			lkv := e.LoadPath(st, args[1], "Spec", "DBDefinition", "KeyValues")
			if lkv == nil {
				bad(st, "M02:a lock is requested for other key values than one of the counter's")
			} else {
				ks, vs := mapEntries(st, lkv)
				switch {
				case len(ks) != 1 || ks[0].K != flow.KTerm || !strings.HasPrefix(ks[0].S, "key") || ks[0].Args[0].Key() != kv.Key() || !isEntry(vs[0], kv, ks[0]):
					bad(st, "M02:a lock is requested for other key values than one of the counter's")
				case ks[0].S != fmt.Sprintf("key%d", n):
					bad(st, "M02:the locks are not requested once each in the order of their keys")
				}
			}
			if st.Mon["query"] != 0 {
				bad(st, "M02:a lock is taken after limits were already checked")
			}
			f, cn := st.Clone(), st.Clone()
			f.Note(ci.Pos, "lock %d refused", n)
			f.Set("lockfail", 1)
			cn.Note(ci.Pos, "obtaining lock %d cancelled", n)
			cn.Set("lockfail", 1)
			st.Inc("nlock", 1)
			st.Note(ci.Pos, "lock %d obtained", n)
			l := e.Fresh(st, ci.Instr, fmt.Sprintf("lock%d", n), ci.Res.At(0).Type())
			st.Restrict(l, flow.NilOf(l.T), flow.LT|flow.GT)
			st.MonV[fmt.Sprintf("lock%d", n)] = l
			return []flow.Exit{
				ret(f, flow.NilOf(ci.Res.At(0).Type()), freshErr(e, f, ci.Instr, "lkerr")),
				ret(cn, flow.NilOf(ci.Res.At(0).Type()), nilErr()),
				ret(st, l, nilErr()),
			}, true
		case methodIs(m, "clients/locker_client", "Done", "Release"):
			i := -1
			for k := 0; k < 4; k++ {
				if l := st.MonV[fmt.Sprintf("lock%d", k)]; l != nil && rcv != nil && flow.Strip(l).Key() == flow.Strip(rcv).Key() {
					i = k
				}
			}
			if rcv != nil && st.IsNil(rcv) == 1 {
				bad(st, "M02:a cancelled lock request is used as if it had returned a lock (nil dereference)")
				return []flow.Exit{{St: st, Panic: true, Pos: ci.Pos}}, true
			}
			if m.Name() == "Done" {
				return []flow.Exit{ret(st, flow.Term("done", ci.Res.At(0).Type(), flow.Strip(rcv)))}, true
			}
			if i < 0 {
				bad(st, "M02:something that is not an obtained lock is released")
			} else {
				st.Inc(fmt.Sprintf("rel%d", i), 1)
				st.Note(ci.Pos, "lock %d released", i)
			}
			f := st.Clone()
			return []flow.Exit{ret(st, nilErr()), ret(f, freshErr(e, f, ci.Instr, "relerr"))}, true
		case m != nil && m.Pkg() != nil && strings.HasSuffix(m.Pkg().Path(), "/channelops"):
			switch m.Name() {
			case "NewMergeRead":
				o := e.FreshAlloc(st, ci.Instr, ci.Res.At(0).Type())
				ch := e.Fresh(st, ci.Instr, "watch", ci.Res.At(1).Type())
				st.MonV["watch"], st.MonV["watchobj"] = ch, o
				for k := 0; k < 4; k++ { // a new watch starts with nothing in it
					st.Set(fmt.Sprintf("watched%d", k), 0)
				}
				return []flow.Exit{ret(st, o, ch)}, true
			case "MergeOrToOne", "MergeOrToOneIgnoreDuplicates":
				f := st.Clone()
				f.Set("lost", 1)
				f.Note(ci.Pos, "a watched lock is already lost")
				outs := []flow.Exit{ret(f, freshErr(e, f, ci.Instr, "merr"))}
				if st.Mon["lost"] == 0 {
					o := st.MonV["watchobj"]
					if el, ok := e.Elems(st, args[len(args)-1]); ok && o != nil && rcv != nil && flow.Strip(o).Key() == flow.Strip(rcv).Key() {
						for _, ch := range el {
							ch = flow.Strip(ch)
							if ch.K == flow.KTerm && ch.S == "done" {
								for k := 0; k < 4; k++ {
									if l := st.MonV[fmt.Sprintf("lock%d", k)]; l != nil && flow.Strip(l).Key() == ch.Args[0].Key() {
										st.Set(fmt.Sprintf("watched%d", k), 1)
									}
								}
							}
						}
					}
					outs = append(outs, ret(st, nilErr()))
				}
				return outs, true
			}
		case methodIs(m, relCounters, "New", "Update", "Set", "Load") && (ci.Method != nil):
			switch m.Name() {
			case "Load":
				it := flow.Strip(rcv)
				if it.K == flow.KTerm && it.S == "m.Value" {
					it = it.Args[0]
				}
				return []flow.Exit{ret(st, counterLoad(it))}, true
			case "New":
				st.Inc("new", 1)
				if args[0].Key() != props.Key() {
					bad(st, "M01:the counter is created with something else than the request's properties")
				}
				v := e.Fresh(st, ci.Instr, "counter", ci.Res.At(0).Type())
				st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
				return []flow.Exit{ret(st, v)}, true
			case "Update":
				st.Inc("update", 1)
				if args[0].Key() != props.Key() {
					bad(st, "M01:the counter is raised by something else than the request's amount")
				}
				return []flow.Exit{ret(st, e.Fresh(st, ci.Instr, "total", types.Typ[types.Int64]))}, true
			case "Set":
				bad(st, "M01:an increment sets the counter")
				return []flow.Exit{ret(st)}, true
			}
		}
		if kind, op, _, targs := treeKind(ci); kind == "assoc" && op == "QueryAction" {
			return limitQuery(e, st, ci, kv, targs, bad), true
		}
		if ex, ok := tm.Call(e, st, ci); ok {
			return ex, true
		}
		if opaqueAmbient(ci) {
			return e.Unknown(st, ci), true
		}
		return nil, false
	}
	h.Recv = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) (*flow.Val, bool) {
		ch = flow.Strip(ch)
		if w := st.MonV["watch"]; w != nil && flow.Strip(w).Key() == ch.Key() {
			st.Set("watchat", st.Mon["nlock"])
		}
		if ch.K == flow.KTerm && ch.S == "done" {
			st.Set("lost", 1)
		}
		return nil, true
	}
	h.RecvOk = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) *flow.Val {
		if w := st.MonV["watch"]; w != nil && flow.Strip(w).Key() == flow.Strip(ch).Key() {
			if st.Mon["lost"] != 0 {
				return flow.Bool(false)
			}
			v := e.Fresh(st, in, "wok", types.Typ[types.Bool])
			st.MonV["watchok"] = v
			return v
		}
		return nil
	}
	h.Default = func(e *flow.Engine, st *flow.State, in *ssa.Select, chans []*flow.Val) bool {
		for _, ch := range chans {
			ch = flow.Strip(ch)
			if ch.K == flow.KTerm && ch.S == "done" {
				for k := 0; k < 4; k++ {
					if l := st.MonV[fmt.Sprintf("lock%d", k)]; l != nil && flow.Strip(l).Key() == ch.Args[0].Key() {
						st.Set(fmt.Sprintf("alive%d", k), 1)
					}
				}
			}
		}
		return true
	}
	held := func(st *flow.State) string {
		for k := 0; k < 2; k++ {
			if st.MonV[fmt.Sprintf("lock%d", k)] == nil {
				return "M02:limits are enforced without holding a lock for every key of the counter"
			}
			if st.Mon[fmt.Sprintf("rel%d", k)] != 0 {
				return "M02:a lock is released before the counter is changed"
			}
		}
		w := st.MonV["watchok"]
		ok := st.Mon["watchat"] == 2 && w != nil && st.Truth(w) == 1 && st.Mon["watched0"]+st.Mon["watched1"] == 2
		if !ok && st.Mon["alive0"]+st.Mon["alive1"] != 2 {
			return "M02:the limits are checked without having seen that no lock was lost"
		}
		return ""
	}
	accepted := 0
	tm.OnOp = func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
		if strings.Contains(op, "Find") || strings.Contains(op, "Query") || strings.Contains(op, "Match") {
			if !strings.HasSuffix(op, "CreateOrFind") {
				return
			}
		}
		if outcome == "error" {
			st.Set("treeerr", 1)
			return
		}
		if outcome != "created" && outcome != "found" {
			bad(st, "M01:an increment removes or drops a counter")
			return
		}
		st.Inc("applied", 1)
		if key.Args[0].Key() != kv.Key() {
			bad(st, "M01:another counter than the requested one is changed")
		}
		if st.Mon["new"]+st.Mon["update"] != 1 || (outcome == "created") != (st.Mon["new"] == 1) {
			bad(st, "M01:the counter is not changed exactly once")
		}
		accepted++
		if st.Mon["lim"] == 0 {
			bad(st, "M01:a counter is raised without looking up its limits")
			return
		}
		needLock := false
		for i, l := range limits {
			if st.Rel(l.limit, int64c(-1)) == flow.EQ {
				continue
			}
			needLock = true
			if !limitProved(st, l.group, l.limit, inc) {
				bad(st, "M01:a counter is raised although a limit may be exceeded")
				st.Note(in.Pos(), "limit %d is not established", i)
			}
		}
		if needLock {
			if w := held(st); w != "" {
				bad(st, w)
			}
		}
	}
	exits := e.Analyze(fn, []*flow.Val{recv, ctx, locker, counter}, nil, st0)
	for _, x := range exits {
		pos := c.P.Pos(x.Pos)
		for _, k := range sortedKeys(x.St.Mon) {
			if strings.HasPrefix(k, "bad:") {
				fail(x.St, pos, k[4:7], k[8:])
			}
		}
		for k := 0; k < x.St.Mon["nlock"]; k++ {
			if n := x.St.Mon[fmt.Sprintf("rel%d", k)]; n == 0 && !x.Panic {
				fail(x.St, pos, "M02", "an obtained lock is not released")
			} else if n > 1 {
				fail(x.St, pos, "M02", "a lock is released twice")
			}
		}
		if x.Panic {
			continue
		}
		switch resNil(x, 0) {
		case 1:
			if x.St.Mon["applied"] != 1 {
				fail(x.St, pos, "M01", "an increment is reported as accepted without being applied")
			}
		case 0:
			if x.St.Mon["applied"] != 0 {
				fail(x.St, pos, "M01", "an increment is applied but reported as refused")
			}
		default:
			fail(x.St, pos, "M01", "whether the increment was accepted is not determined")
		}
	}
	c.Check(accepted > 0, rule, cfg.String(), c.P.Pos(fn.Pos()), "no path accepts an increment with "+cfg.String())
	c.Done(rule, e)
}

func limTypes(c *Ctx) (rule, override types.Type) {
	for _, p := range c.P.Pkgs {
		if strings.HasSuffix(p.PkgPath, pkgLimiterV1) {
			if o := p.Types.Scope().Lookup("Rule"); o != nil {
				rule = o.Type()
			}
			if o := p.Types.Scope().Lookup("Override"); o != nil {
				override = o.Type()
			}
		}
	}
	return
}

// limitQuery models the query over the stored counters when limits are checked: it verifies that exactly the counters
// of one group are selected, and lets the callback see none or two of them.
func limitQuery(e *flow.Engine, st *flow.State, ci *flow.CallInfo, kv *flow.Val, targs []*flow.Val, bad func(*flow.State, string)) []flow.Exit {
	var out []flow.Exit
	st.Inc("query", 1)
	f := st.Clone()
	f.Note(ci.Pos, "querying the counters fails")
	out = append(out, flow.Exit{St: f, Res: []*flow.Val{freshErr(e, f, ci.Instr, "qerr")}, Pos: ci.Pos})

	var group *flow.Val
	q := targs[0]
	wrong := func() { group = nil }
	if m := e.LoadPath(st, q, "Selection", "KeyValues"); m != nil {
		ks, vs := mapEntries(st, m)
		okAll := len(ks) == 2
		for i, k := range ks {
			if k.K != flow.KTerm || !strings.HasPrefix(k.S, "key") || i > 0 && (group == nil || k.Args[0].Key() != group.Key() || k.S == ks[0].S) {
				okAll = false
				break
			}
			group = k.Args[0]
			val := fieldVal(e, st, vs[i], "Value")
			cmp := fieldVal(e, st, vs[i], "Comparison")
			tr := fieldVal(e, st, vs[i], "TypeRestrictions")
			mn, mx := fieldVal(e, st, tr, "MinDataType"), fieldVal(e, st, tr, "MaxDataType")
			s, isStr := "", false
			if cmp != nil {
				s, isStr = flow.StrVal(cmp)
			}
			want := flow.IndexAddr(kv, k, nil).Key()
			if val == nil || !isStr || s != "=" || mn == nil || mx == nil || mn.Key() != mx.Key() || !flow.Contains(val, func(v *flow.Val) bool { return v.Key() == want }) || !flow.Contains(mn, func(v *flow.Val) bool { return v.Key() == want }) {
				okAll = false
				break
			}
		}
		if !okAll {
			wrong()
		}
	}
	for _, n := range []string{"And", "Or"} {
		if v := e.LoadPath(st, q, n); v == nil || v.K != flow.KNil && v.K != flow.KZero {
			wrong()
		}
	}
	if v := e.LoadPath(st, q, "Selection", "IDs"); v == nil || v.K != flow.KNil && v.K != flow.KZero {
		wrong()
	}
	chk := st.Mon["query"]
	for n := 0; n <= 2; n += 2 {
		cur := []*flow.State{st.Clone()}
		var loads []*flow.Val
		var done []*flow.State
		full := map[*flow.State]bool{}
		for j := 0; j < n; j++ {
			var next []*flow.State
			for _, s := range cur {
				s = s.Clone()
				it := e.Fresh(s, ci.Instr, fmt.Sprintf("it%d_%d", chk, j), types.NewInterfaceType(nil, nil))
				s.Restrict(it, flow.NilOf(it.T), flow.LT|flow.GT)
				s.Set("cb", 1)
				ld := counterLoad(it)
				s.MonV[fmt.Sprintf("ld%d_%d", chk, j)] = ld
				if j == len(loads) {
					loads = append(loads, ld)
				}
				for _, x := range e.CallValue(s, targs[1], []*flow.Val{it}, ci.Instr) {
					if x.Panic {
						out = append(out, x)
						continue
					}
					for _, y := range x.St.Assume(x.Res[0], true) {
						if j == n-1 {
							full[y] = true
							done = append(done, y)
						} else {
							next = append(next, y)
						}
					}
					for _, y := range x.St.Assume(x.Res[0], false) {
						full[y] = j == n-1
						done = append(done, y)
					}
				}
			}
			cur = next
		}
		if n == 0 {
			done = cur
			full[cur[0]] = true
		}
		for _, s := range done {
			if group != nil && full[s] {
				s.MonV[fmt.Sprintf("chk%d", chk)] = flow.Tup(append([]*flow.Val{group}, loads...)...)
			}
			s.Note(ci.Pos, "counted %d counters", n)
			out = append(out, flow.Exit{St: s, Res: []*flow.Val{nilErr()}, Pos: ci.Pos})
		}
	}
	return out
}

// counterLoad is the value a stored counter reports: item.Value().(Counter).Load()
func counterLoad(item *flow.Val) *flow.Val {
	return flow.Term("load", types.Typ[types.Int64], item)
}

// limitProved: is total + amount <= limit established by a complete check of the group?
func limitProved(st *flow.State, group, limit, inc *flow.Val) bool {
	for _, k := range sortedKeys(st.MonV) {
		v := st.MonV[k]
		if !strings.HasPrefix(k, "chk") || v.K != flow.KTuple || v.Args[0].Key() != group.Key() {
			continue
		}
		t := linOf(inc)
		for _, l := range v.Args[1:] {
			t.add(l, 1)
		}
		t.add(limit, -1)
		if provesLE(st, t) {
			return true
		}
	}
	return false
}

// upsertHandler: positive amounts are increments, the others decrements.
func upsertHandler(c *Ctx, rule string) error {
	for _, fn := range c.P.AllFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(ssa.CallInstruction)
				if !ok || !cc.Common().IsInvoke() || !methodIs(cc.Common().Method, relCounters, "IncrementCounters", "DecrementCounters") {
					continue
				}
				upsertCase(c, rule, fn)
			}
		}
	}
	return nil
}

func upsertCase(c *Ctx, rule string, fn *ssa.Function) {
	h := &flow.Hooks{}
	e := c.Engine(h)
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		m := callee(ci)
		_, args := argsOf(ci)
		if methodIs(m, relCounters, "IncrementCounters", "DecrementCounters") {
			obj := args[len(args)-1]
			amount := e.LoadPath(st, obj, "Spec", "Properties", "Counters", "*")
			r := 0
			if amount != nil {
				r = st.Rel(amount, int64c(0))
			}
			what := c.fn(fn) + " calls " + m.Name()
			if m.Name() == "IncrementCounters" {
				c.Check(r == flow.GT, rule, what, c.P.Pos(ci.Pos), "an increment may be requested with an amount that is not positive, for which limits mean nothing", e.Witness(st.Tr, 30)...)
			} else {
				c.Check(r&flow.GT == 0 && r != 0, rule, what, c.P.Pos(ci.Pos), "a positive amount may bypass the limits as a decrement", e.Witness(st.Tr, 30)...)
			}
			return e.Unknown(st, ci), true
		}
		if m != nil && m.Pkg() != nil && (strings.HasSuffix(m.Pkg().Path(), "models/api") || strings.HasSuffix(m.Pkg().Path(), "locker_client")) || opaqueAmbient(ci) {
			e.Havoc(st, ci)
			return e.Unknown(st, ci), true
		}
		return nil, false
	}
	e.Analyze(fn, nil, nil, nil)
	c.Done(rule, e)
}

// itemCall names what an entry handed to a tree callback reports about itself.
func itemCall(st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
	m := ci.Method
	if m == nil || !methodIs(m, pkgAssoc) && !methodIs(m, pkgO2M) || len(ci.Args) != 0 {
		return nil, false
	}
	switch recvTypeName(m) {
	case "AssociatedKeyValues", "OneToManyItem":
		return []flow.Exit{{St: st, Res: []*flow.Val{flow.Term("m."+m.Name(), ci.Res.At(0).Type(), flow.Strip(ci.Recv))}, Pos: ci.Pos}}, true
	}
	return nil, false
}
