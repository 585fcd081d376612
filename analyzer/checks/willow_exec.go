package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

func init() {
	register("W10", "a channel's executor, and failures of the limiter", func(c *Ctx) error {
		if err := executorRounds(c); err != nil {
			return err
		}
		return limiterFailures(c)
	})
}

// wlimit is one limit that applies to a channel's running messages, with the counters stored for its group.
type wlimit struct {
	limit  int64
	counts []int64
}

func (l wlimit) reached() bool {
	if l.limit == -1 {
		return false
	}
	n := int64(0)
	for _, x := range l.counts {
		n += x
	}
	return n >= l.limit
}

type wrule struct {
	wlimit
	over []wlimit
}

func (r wrule) String() string {
	if len(r.over) == 0 {
		return fmt.Sprintf("limit %d counters %v", r.limit, r.counts)
	}
	var s []string
	for _, o := range r.over {
		s = append(s, fmt.Sprintf("override limit %d counters %v", o.limit, o.counts))
	}
	return strings.Join(s, " and ")
}

func wlimitWorlds(thorough bool) [][]wrule {
	full := []wlimit{{-1, []int64{9}}, {0, nil}, {3, []int64{1, 2}}, {3, []int64{3}}, {3, []int64{1, 1}}, {3, nil}, {3, []int64{4}}, {1, []int64{1}}}
	few := []wlimit{{-1, []int64{9}}, {0, nil}, {3, []int64{1, 2}}, {3, []int64{1, 1}}}
	if thorough {
		few = full
	}
	worlds := [][]wrule{nil}
	for _, l := range full {
		worlds = append(worlds, []wrule{{wlimit: l}})
		worlds = append(worlds, []wrule{{wlimit{0, nil}, []wlimit{l}}})
		worlds = append(worlds, []wrule{{wlimit{3, nil}, []wlimit{l}}})
	}
	for _, a := range few {
		for _, b := range few {
			worlds = append(worlds, []wrule{{wlimit: a}, {wlimit: b}})
			worlds = append(worlds, []wrule{{wlimit{0, nil}, []wlimit{a, b}}})
			worlds = append(worlds, []wrule{{wlimit{0, nil}, []wlimit{a}}, {wlimit: b}})
			worlds = append(worlds, []wrule{{wlimit: a}, {wlimit{-1, nil}, []wlimit{b}}})
		}
	}
	return worlds
}

func storePath(e *flow.Engine, st *flow.State, o, val *flow.Val, path ...string) {
	p := e.LoadPath(st, o, path...)
	if p != nil {
		st.Store(p, val)
		st.Restrict(p, flow.NilOf(p.T), flow.LT|flow.GT)
	}
}

// executorRounds follows the executor of a channel through one hand-out and what comes after it.
func executorRounds(c *Ctx) error {
	const r1, r2, r3 = "one-offer-per-message", "waits-for-limit", "executor-ends"
	c.Rule(r1, "the executor offers a hand-out only after it was told of a waiting message, and waits for its outcome before the next", 2)
	c.Rule(r2, "after a refused hand-out the executor asks the limiter for every limit that applies to the channel's running counter, with the channel's own values; it goes on exactly when none is reached, and asks again after a pause otherwise and whenever the limiter fails", 40)
	c.Rule(r3, "whatever the executor waits for, it also waits for the server to stop and for the channel's deletion; it then stops the heartbeats of its messages, waits for them, and closes its offers", 4)
	w, err := willowAnchors(c)
	if err != nil {
		return err
	}
	stop := stopChan(w)
	if stop == nil {
		return fmt.Errorf("the in-memory queue channel has no channel that tells its executor to stop")
	}
	fn, err := c.mqcMethod("Execute")
	if err != nil {
		return err
	}
	lt := func(n string) (types.Type, error) { return c.P.Named("pkg/models/api/limiter/v1", n) }
	ruleT, err := lt("Rule")
	if err != nil {
		return err
	}
	ovT, err := lt("Override")
	if err != nil {
		return err
	}
	cntT, err := lt("Counter")
	if err != nil {
		return err
	}
	var kvF *types.Var
	for i := 0; i < structOf(w.typ).NumFields(); i++ {
		if f := structOf(w.typ).Field(i); isKeyValues(f.Type()) {
			kvF = f
		}
	}
	if kvF == nil {
		return fmt.Errorf("the in-memory queue channel does not know its key values")
	}
	evT := kvF.Type().Underlying().(*types.Map).Elem()
	var selects, ends, offers int
	for _, wd := range wlimitWorlds(c.Thorough) {
		wd := wd
		name := "no limit"
		anyReached := false
		for i, r := range wd {
			if i == 0 {
				name = r.String()
			} else {
				name += "; " + r.String()
			}
			if len(r.over) == 0 {
				anyReached = anyReached || r.reached()
			}
			for _, o := range r.over {
				anyReached = anyReached || o.reached()
			}
		}
		st := flow.NewState()
		args := rootArgs(fn, st)
		recv, ctx := args[0], args[1]
		h := &flow.Hooks{}
		e := c.Engine(h)
		e.Unroll, e.Maps = 4, true

		// the world: rules, overrides and counters
		own := map[string]*flow.Val{}
		var chanEnts []*flow.Val
		mk := func(t types.Type, id string, l wlimit) (*flow.Val, string) {
			o := flow.Root(id, types.NewPointer(t))
			st.Restrict(o, flow.NilOf(o.T), flow.LT|flow.GT)
			storePath(e, st, o, int64c(l.limit), "Spec", "Properties", "Limit")
			key := "group of " + id
			val := flow.Root("value of "+id, types.Typ[types.String])
			own[key] = structWith(evT, map[string]*flow.Val{"Type": flow.Int(typeString), "Data": flow.IfaceOf(val, types.Typ[types.String])})
			chanEnts = append(chanEnts, flow.Tup(flow.Str(key), own[key]))
			grp := structWith(evT, map[string]*flow.Val{"Type": flow.Int(typeAny)})
			if len(own)%2 == 0 {
				grp = own[key]
			}
			m := e.NewMap(st, "groupby "+id, kvF.Type(), flow.Tup(flow.Str(key), grp))
			db := e.LoadPath(st, o, "Spec", "DBDefinition")
			if f := fieldByType(db.T, isKeyValues); f != nil {
				st.Store(flow.FieldAddr(db, f), m)
			}
			return o, key
		}
		var rules []*flow.Val
		overOf := map[string][]*flow.Val{}
		countsOf := map[string][]int64{}
		var applicable []string
		for i, r := range wd {
			ro, key := mk(ruleT, fmt.Sprint("rule ", i), r.wlimit)
			rules = append(rules, ro)
			countsOf[key] = r.counts
			if len(r.over) == 0 {
				applicable = append(applicable, key)
			}
			for j, o := range r.over {
				oo, key := mk(ovT, fmt.Sprintf("override %d of rule %d", j, i), o)
				id := e.LoadPath(st, ro, "State", "ID")
				overOf[id.Key()] = append(overOf[id.Key()], oo)
				countsOf[key] = o.counts
				applicable = append(applicable, key)
			}
		}
		st.Store(flow.FieldAddr(recv, kvF), e.NewMap(st, "channel", kvF.Type(), chanEnts...))
		failed := false
		// the path may be cut off later: report at once
		bad := func(s *flow.State, what string) {
			failed = true
			rule := r1
			switch {
			case strings.Contains(what, "limit"):
				rule = r2
			case strings.Contains(what, "heartbeats"):
				rule = r3
			}
			c.Fail(rule, what, c.P.Pos(fn.Pos()), fmt.Sprintf("Execute: %s (with %s; on this path: %s)", what, name, monInts(s)), e.Witness(s.Tr, 40)...)
		}
		var mainCtx *flow.Val = flow.Strip(ctx)

		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			one := func(v ...*flow.Val) ([]flow.Exit, bool) {
				return []flow.Exit{{St: st, Res: v, Pos: ci.Pos}}, true
			}
			if ci.Go {
				st.Inc("go", 1)
				// what the goroutine does matters when the executor waits for it
				if ci.Fn != nil || ci.FnVal != nil {
					fv := ci.FnVal
					if fv == nil {
						fv = flow.Closure(ci.Fn, nil)
					}
					st.MonV["goroutine"] = flow.Strip(fv)
				}
				return one()
			}
			if ex, ok := ctxDoneCall(e, st, ci); ok {
				return ex, true
			}
			if ci.FnVal != nil && ci.Fn == nil && flow.Strip(ci.FnVal).K == flow.KSym && strings.HasPrefix(flow.Strip(ci.FnVal).S, "$cancel") {
				st.Set("cancelled", 1)
				return one()
			}
			if ci.Fn != nil && ci.Fn.Pkg != nil {
				switch p := ci.Fn.Pkg.Pkg.Path(); {
				case p == "context" && ci.Fn.Name() == "WithCancel":
					return one(flow.Tup(flow.Term("cancelctx", ci.Res.At(0).Type(), ci.Args[0]), flow.Root("cancel", ci.Res.At(1).Type())).Args...)
				case p == "time" && (ci.Fn.Name() == "After" || ci.Fn.Name() == "Tick"):
					if d, ok := flow.IntVal(ci.Args[0]); ok && d <= 0 {
						return one(flow.Root("elapsed", ci.Res.At(0).Type()))
					}
					return one(flow.Root("timerchan", ci.Res.At(0).Type()))
				case p == "time" && ci.Fn.Signature.Recv() == nil && (ci.Fn.Name() == "NewTimer" || ci.Fn.Name() == "NewTicker"):
					return newTimer(e, st, ci)
				}
			}
			if ci.Fn != nil && ci.Fn.Signature.Recv() != nil && typeIs(ci.Fn.Signature.Recv().Type(), "/gonotify", "Notify") {
				switch ci.Fn.Name() {
				case "Ready":
					return one(flow.Root("readychan", ci.Res.At(0).Type()))
				case "ForceStop":
					st.Set("forcestop", 1)
				case "Add":
					bad(st, "a waiting message is made up")
				}
				return e.Unknown(st, ci), true
			}
			if ex, ok := queryCtor(ci); ok {
				return one(ex...)
			}
			if methodIs(ci.Method, "/clients/limiter_client") {
				nm := ci.Method.Name()
				st.Note(ci.Pos, "limiter: %s", nm)
				failed := st.Clone()
				failed.Set("limerr", 1)
				failed.Note(ci.Pos, "limiter: %s fails", nm)
				anyOf := func(i int) {
					q := flow.Strip(ci.Args[i])
					if !(q.K == flow.KTerm && q.S == "anyOf") || !runningCounter(e, st, w, recv, q.Args[0], own) {
						bad(st, "limits of another counter than the channel's running one are looked up")
					}
				}
				var res *flow.Val
				switch nm {
				case "MatchRules":
					anyOf(1)
					if st.Mon["asked"] != 0 {
						bad(st, "the limiter is asked again without a pause")
					}
					st.Set("asked", 1)
					failed.Set("asked", 1)
					res = e.FixedSlice(st, "rules", ci.Res.At(0).Type(), rules...)
				case "MatchOverrides":
					anyOf(2)
					found := false
					for _, r := range rules {
						if id := e.LoadPath(st, r, "State", "ID"); sameVal(id, ci.Args[1]) {
							found = true
							res = e.FixedSlice(st, "overrides"+id.Key(), ci.Res.At(0).Type(), overOf[id.Key()]...)
						}
					}
					if !found {
						bad(st, "overrides of something else than a matching rule are looked up")
						return nil, true
					}
				case "QueryCounters":
					key, ok := groupQuery(e, st, ci.Args[1], own)
					if !ok {
						bad(st, "other counters than those of the limit's group are counted")
						return nil, true
					}
					var cs []*flow.Val
					for i, n := range countsOf[key] {
						o := flow.Root(fmt.Sprintf("counter %d of %s", i, key), types.NewPointer(cntT))
						st.Restrict(o, flow.NilOf(o.T), flow.LT|flow.GT)
						storePath(e, st, o, int64c(n), "Spec", "Properties", "Counters")
						cs = append(cs, o)
					}
					res = e.FixedSlice(st, "counters of "+key, ci.Res.At(0).Type(), cs...)
				default:
					bad(st, "the executor changes something in the limiter")
					return e.Unknown(st, ci), true
				}
				er := ci.Res.At(1).Type()
				return []flow.Exit{{St: st, Res: []*flow.Val{res, flow.NilOf(er)}, Pos: ci.Pos},
					{St: failed, Res: []*flow.Val{flow.NilOf(ci.Res.At(0).Type()), freshErr(e, failed, ci.Instr, "lerr")}, Pos: ci.Pos}}, true
			}
			if opaqueAmbient(ci) {
				return e.Unknown(st, ci), true
			}
			return nil, false
		}
		var sawPause, sawResume bool
		// ending the wait for the limit
		goesOn := func(st *flow.State) {
			if st.Mon["limited"] != 0 {
				if st.Mon["limerr"] != 0 {
					bad(st, "hand-outs go on although the limiter could not be asked")
				} else if anyReached {
					bad(st, "hand-outs go on although a limit is reached")
				}
				st.Set("limited", 0)
				sawResume = true
			}
		}
		isReady := func(v *flow.Val) bool {
			v = flow.Strip(v)
			return v.K == flow.KSym && strings.HasPrefix(v.S, "$readychan")
		}
		h.Select = func(e *flow.Engine, st *flow.State, in *ssa.Select, chans []*flow.Val) {
			if !in.Blocking {
				return
			}
			done, del := false, false
			for _, ch := range chans {
				done = done || isCtxDone(ch)
				del = del || flow.FieldOf(ch) == stop
			}
			selects++
			if !done {
				c.Fail(r3, "a wait without the server's stop", c.P.Pos(in.Pos()), "the executor waits without noticing that the server stops", e.Witness(st.Tr, 20)...)
			}
			if !del {
				c.Fail(r3, "a wait without the channel's deletion", c.P.Pos(in.Pos()), "the executor waits without noticing that its channel is deleted", e.Witness(st.Tr, 20)...)
			}
		}
		h.Send = func(e *flow.Engine, st *flow.State, ch, val *flow.Val, in ssa.Instruction) bool {
			if flow.FieldOf(ch) != w.fDeq {
				return true
			}
			goesOn(st)
			if st.Mon["token"] == 0 {
				bad(st, "a hand-out is offered although no message waits")
			}
			if st.Mon["open"] != 0 {
				bad(st, "a hand-out is offered before the previous one was answered")
			}
			if st.Mon["closed"] != 0 {
				bad(st, "a hand-out is offered after the offers were closed")
			}
			st.Set("token", 0)
			st.Set("open", 1)
			st.Note(in.Pos(), "hand-out taken by a client")
			return true
		}
		h.Recv = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) (*flow.Val, bool) {
			switch {
			case isReady(ch):
				goesOn(st)
				if st.Mon["round"] != 0 {
					return nil, false // one round is enough: it ends in the state it began with
				}
				st.Set("token", 1)
				return nil, true
			case flow.FieldOf(ch) == w.fDeqRsp:
				if st.Mon["open"] == 0 {
					bad(st, "an answer is awaited that nobody gives")
				}
				st.Set("open", 0)
				st.Set("round", 1)
				st.Set("limited", 1)
				st.Note(in.Pos(), "hand-out refused by the limiter")
				return flow.Bool(true), true
			case flow.Strip(ch).K == flow.KSym && strings.HasPrefix(flow.Strip(ch).S, "$elapsed"):
				return nil, true
			case isTimerChan(ch):
				if st.Mon["limited"] != 0 && st.Mon["limerr"] == 0 && !anyReached {
					bad(st, "hand-outs are held back although no limit is reached")
				}
				st.Set("limerr", 0)
				st.Set("asked", 0)
				sawPause = true
				return nil, true
			case isCtxDone(ch):
				if c := flow.Strip(ch); mainCtx != nil && !strings.Contains(c.S, mainCtx.Key()) && !strings.Contains(c.S, "ctxdone") {
					return nil, true
				}
				st.Set("shutdown", 1)
				return nil, true
			case flow.FieldOf(ch) == stop:
				st.Set("deleted", 1)
				return nil, true
			}
			// waiting for a goroutine
			if st.Mon["shutdown"] == 0 && st.Mon["deleted"] == 0 {
				bad(st, "the executor waits for its heartbeats while it should hand out messages")
			}
			if st.Mon["deleted"] != 0 && st.Mon["shutdown"] == 0 && st.Mon["cancelled"] == 0 {
				bad(st, "the executor of a deleted channel waits for heartbeats that nothing stops")
			}
			st.Set("joined", 1)
			st.MonV["join"] = ch
			return nil, true
		}
		h.RecvOk = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) *flow.Val {
			if isReady(ch) || flow.FieldOf(ch) == w.fDeqRsp {
				return flow.Bool(true)
			}
			return nil
		}
		h.Close = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) {
			if flow.FieldOf(ch) == w.fDeq {
				if st.Mon["closed"] != 0 {
					bad(st, "the offers are closed twice")
				}
				st.Set("closed", 1)
			}
		}
		for _, x := range e.Analyze(fn, args, nil, st) {
			n := x.St.Mon
			report := func(rule, what string) {
				failed = true
				c.Fail(rule, what, c.P.Pos(x.Pos), fmt.Sprintf("Execute: %s (with %s; on this path: %s)", what, name, monInts(x.St)), e.Witness(x.St.Tr, 40)...)
			}
			if x.Panic {
				if n["limerr"] != 0 {
					report(r2, "a failing limiter stops the server")
				} else {
					report(r3, "the executor stops the server")
				}
				continue
			}
			ends++
			if n["shutdown"] == 0 && n["deleted"] == 0 {
				report(r3, "the executor ends although neither the server stops nor its channel is deleted")
			}
			if n["closed"] == 0 {
				report(r3, "the executor ends without closing its offers")
			}
			if n["forcestop"] == 0 {
				report(r3, "the executor ends without stopping the notifications of waiting messages")
			}
			if n["joined"] == 0 {
				report(r3, "the executor ends without waiting for its messages' heartbeats")
			}
			if n["round"] != 0 {
				offers++
			}
			if g := x.St.MonV["goroutine"]; g != nil && !failed {
				joinable(c, r3, e, x.St, g, x.St.MonV["join"], ctx)
			}
		}
		c.Done(r2, e)
		if !failed {
			if anyReached {
				c.Check(sawPause, r2, name, c.P.Pos(fn.Pos()), "the executor never pauses while a limit is reached")
			} else {
				c.Check(sawResume, r2, name, c.P.Pos(fn.Pos()), "the executor does not go on although no limit is reached: "+name)
			}
		}
		_ = applicable
	}
	if offers > 0 {
		c.Ob(r1, "hand-out")
		c.Ob(r1, "answer")
	}
	for i := 0; i < 4 && i < ends && i < selects; i++ {
		c.Ob(r3, fmt.Sprint("end ", i))
	}
	return nil
}

// joinable: the goroutine that the executor waits for runs the heartbeats until its context ends, and then says so.
func joinable(c *Ctx, r string, e0 *flow.Engine, st *flow.State, g, join, ctx *flow.Val) {
	if g.K != flow.KFn || join == nil {
		return
	}
	h := &flow.Hooks{}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		m := callee(ci)
		if m != nil && m.Name() == "Run" && len(ci.Args) > 0 {
			if a := ci.Args[len(ci.Args)-1]; a != nil && typeIs(a.T, "context", "Context") {
				v := flow.Strip(a)
				if v.K == flow.KTerm && v.S == "cancelctx" {
					st.Set("run", 1)
				} else {
					st.Set("bad", 1)
				}
				return e.Unknown(st, ci), true
			}
		}
		return nil, false
	}
	h.Close = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) {
		if sameVal(ch, join) {
			st.Inc("closed", 1)
			if st.Mon["run"] == 0 {
				st.Set("early", 1)
			}
		}
	}
	s := st.Clone()
	s.Mon = map[string]int{}
	e := c.Engine(h)
	for _, x := range e.Analyze(g.Fn, nil, g.Args, s) {
		if x.Panic {
			continue
		}
		if x.St.Mon["bad"] != 0 {
			c.Fail(r, "heartbeats cannot be ended", c.P.Pos(x.Pos), "Execute: the heartbeats run under a context that the executor cannot end")
		}
		if x.St.Mon["closed"] != 1 || x.St.Mon["early"] != 0 {
			c.Fail(r, "heartbeats' end", c.P.Pos(x.Pos), "Execute: the end of the heartbeats is not announced exactly once, after them")
		}
	}
}

// runningCounter: are these the key values of the channel's running counter?
func runningCounter(e *flow.Engine, st *flow.State, w *willowChan, recv, m *flow.Val, own map[string]*flow.Val) bool {
	ents, ok := e.Entries(st, flow.Strip(m))
	if !ok {
		return false
	}
	n := 0
	run, queue := false, false
	for _, en := range ents {
		k, ok := flow.StrVal(en.Args[0])
		if !ok {
			return false
		}
		d := fieldVal(e, st, en.Args[1], "Data")
		if d == nil {
			return false
		}
		switch {
		case own[k] != nil:
			if own[k].Key() != en.Args[1].Key() {
				return false
			}
			n++
		case k == "_willow_running":
			s, _ := flow.StrVal(flow.Strip(d))
			run = s == "true"
		case k == "_willow_queue_name":
			f := flow.FieldOf(flow.Strip(d))
			queue = f != nil && types.Identical(f.Type(), types.Typ[types.String])
		default:
			return false
		}
	}
	return run && queue && n == len(own)
}

// groupQuery: which limit's group does the query count? It has to select by the channel's own values.
func groupQuery(e *flow.Engine, st *flow.State, q *flow.Val, own map[string]*flow.Val) (string, bool) {
	sel := e.LoadPath(st, q, "Selection")
	if sel == nil {
		return "", false
	}
	ents, ok := e.Entries(st, e.LoadPath(st, sel, "KeyValues"))
	if !ok || len(ents) != 1 {
		return "", false
	}
	k, ok := flow.StrVal(ents[0].Args[0])
	if !ok || own[k] == nil {
		return "", false
	}
	v := fieldVal(e, st, ents[0].Args[1], "Value")
	if v == nil || v.Key() != own[k].Key() {
		return "", false
	}
	if s, ok := flow.StrVal(fieldVal(e, st, ents[0].Args[1], "Comparison")); !ok || s != "=" {
		return "", false
	}
	tr := fieldVal(e, st, ents[0].Args[1], "TypeRestrictions")
	lo, hi := typeConst(e, st, tr, "MinDataType"), typeConst(e, st, tr, "MaxDataType")
	if lo != typeString || hi != typeString {
		return "", false
	}
	for _, lim := range []string{"IDs", "MinNumberOfKeyValues", "MaxNumberOfKeyValues"} {
		if x := e.LoadPath(st, sel, lim); x != nil && st.IsNil(x) != 1 {
			return "", false
		}
	}
	return k, true
}

// limiterFailures: no operation on a channel stops the server when the limiter fails.
func limiterFailures(c *Ctx) error {
	const r = "limiter-failures"
	c.Rule(r, "no operation on a channel, and nothing that runs in the background for it, stops the process when the limiter fails", 7)
	w, err := willowAnchors(c)
	if err != nil {
		return err
	}
	entries, err := mqcEntries(c, w)
	if err != nil {
		return err
	}
	for _, n := range []string{"ForceDelete", "Delete"} {
		f, err := c.mqcMethod(n)
		if err != nil {
			return err
		}
		entries = append(entries, mqcEntry{name: n, fn: f})
	}
	for _, en := range entries {
		e := c.Engine(mqcHooks(c, w, en.name))
		for _, x := range e.Analyze(en.fn, en.args, en.bind, en.st) {
			if x.Panic && x.St.Mon["limerr"] != 0 {
				what := ""
				for _, k := range sortedKeys(x.St.Mon) {
					if strings.HasPrefix(k, "failing:") {
						what += ", " + k[len("failing:"):]
					}
				}
				c.Fail(r, en.name+what, c.P.Pos(x.Pos), en.name+" stops the process, or leaves the channel locked, when the limiter fails", e.Witness(x.St.Tr, 30)...)
			}
		}
		c.Done(r, e)
		c.Ob(r, en.name)
	}
	return nil
}
