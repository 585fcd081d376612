package checks

import (
	"strings"

	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

// agreeNil: is a nil exactly when b is?
func agreeNil(st *flow.State, a, b *flow.Val) bool {
	if flow.Strip(a).Key() == flow.Strip(b).Key() {
		return true
	}
	for _, bits := range []int{flow.EQ, flow.LT | flow.GT} {
		s := st.Clone()
		if !s.Restrict(b, flow.NilOf(b.T), bits) {
			continue
		}
		want := 0
		if bits == flow.EQ {
			want = 1
		}
		if s.IsNil(a) != want {
			return false
		}
	}
	return true
}

// agreeBool: are two booleans the same on this path?
func agreeBool(st *flow.State, a, b *flow.Val) bool {
	if a.Key() == b.Key() {
		return true
	}
	for _, want := range []bool{true, false} {
		for _, s := range st.Assume(b, want) {
			t := s.Truth(a)
			if t == -1 || (t == 1) != want {
				return false
			}
		}
	}
	return true
}

// isNewID: a call that generates a unique id.
func isNewID(ci *flow.CallInfo) bool {
	if ci.Fn != nil {
		if m, ok := ci.Fn.Object().(*types.Func); ok {
			return methodIs(m, "internal/idgenerator", "ID")
		}
	}
	return methodIs(ci.Method, "internal/idgenerator", "ID")
}

// selectedIDs: the ids a query selects, if it is built from a literal list.
func selectedIDs(e *flow.Engine, st *flow.State, q *flow.Val) []*flow.Val {
	ids := e.LoadPath(st, q, "Selection", "IDs")
	if ids == nil || ids.K != flow.KTerm || ids.S != "mslice" {
		return nil
	}
	a, ok := deref(ids.Args[0].T).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	var out []*flow.Val
	for i := int64(0); i < a.Len(); i++ {
		out = append(out, e.LoadAt(st, flow.IndexAddr(ids.Args[0], flow.Int(i), a.Elem()), a.Elem()))
	}
	return out
}

// lockOps gives the lock's own operations a summary, so that the lock manager can be analysed around them.
func lockOps(a *lockAnchors, tm *TreeModel) *flow.Hooks {
	h := &flow.Hooks{}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if ex, ok := ctxDoneCall(e, st, ci); ok {
			return ex, true
		}
		if ex, ok := tm.Call(e, st, ci); ok {
			return ex, true
		}
		if opaqueAmbient(ci) {
			return e.Unknown(st, ci), true
		}
		one := func(k string) ([]flow.Exit, bool) {
			ex := e.Unknown(st, ci)
			st.Inc(k, 1)
			for i, r := range ex[0].Res {
				st.MonV[fmt.Sprintf("%s%d", k, i)] = r
			}
			for i, v := range ci.Args {
				st.MonV[fmt.Sprintf("%s_arg%d", k, i)] = v
			}
			st.Note(ci.Pos, "%s", k)
			return ex, true
		}
		switch ci.Fn {
		case nil:
		case a.mClaim:
			return one("waiting")
		case a.mHb:
			return one("heartbeat")
		case a.mRel:
			return one("release")
		case a.mLost:
			return one("lost")
		case a.mTimeOut:
			return one("timedout")
		}
		if ci.FnVal != nil && st.MonV["claimfn"] != nil && ci.FnVal.Key() == st.MonV["claimfn"].Key() {
			return one("claimed")
		}
		if ci.Method != nil && ci.Method.Name() == "AddExecuteTask" {
			y := st.Clone()
			y.Inc("task", 1)
			y.MonV["task"] = ci.Args[len(ci.Args)-1]
			st.Set("notask", 1)
			st.Note(ci.Pos, "the task manager refuses the lock's process")
			return []flow.Exit{{St: y, Res: []*flow.Val{nilErr()}, Pos: ci.Pos}, {St: st, Res: []*flow.Val{freshErr(e, st, ci.Instr, "terr")}, Pos: ci.Pos}}, true
		}
		return nil, false
	}
	return h
}

// lockManager analyses the lock manager's operations; faults are reported under the property they concern.
func lockManager(c *Ctx, rule, about string, a *lockAnchors) error {
	fail := func(e *flow.Engine, x flow.Exit, ab, op, what string) {
		c.Ob(rule, op)
		if strings.Contains(ab, about) {
			c.Fail(rule, op+": "+what, c.P.Pos(x.Pos), op+": "+what, e.Witness(x.St.Tr, 40)...)
		}
	}
	method := func(n string) (*ssa.Function, error) { return c.P.Method(relLock, "exclusiveLocker", n) }

	// obtaining
	obtain, err := method("ObtainLock")
	if err != nil {
		return err
	}
	var timeouts []flow.Exit // states holding the clean-up callback, with the key values of the lock
	tm := &TreeModel{
		Err: func(*flow.Val, string) bool { return false },
		OnOp: func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
			switch op {
			case "assoc.CreateOrFind", "assoc.Create":
				st.MonV["stored_key"] = key.Args[0]
				st.Set("op_"+outcome, 1)
			case "assoc.Delete":
				st.Set("op_"+outcome, 1)
				if outcome != "error" {
					st.MonV["deleted_key"] = key.Args[0]
				}
				if l := st.MonV["lost0"]; l != nil && (outcome == "removed" || outcome == "kept") {
					if t := st.Truth(l); t != map[string]int{"removed": 1, "kept": 0}[outcome] {
						st.Set("wrongremove", 1)
					}
				}
			}
		},
	}
	h := lockOps(a, tm)
	isClaim := func(ch *flow.Val) bool {
		t, ok := ch.T.Underlying().(*types.Chan)
		if !ok {
			return false
		}
		_, ok = t.Elem().Underlying().(*types.Signature)
		return ok
	}
	h.Recv = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) (*flow.Val, bool) {
		if isCtxDone(ch) {
			st.Set("ctx", 1)
			st.Note(in.Pos(), "client gone")
		}
		if isClaim(ch) {
			v := e.Fresh(st, in, "claimfn", ch.T.Underlying().(*types.Chan).Elem())
			st.MonV["claimfn"] = v
			st.MonV["claimch"] = ch
			return v, true
		}
		return nil, true
	}
	h.RecvOk = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) *flow.Val {
		if isClaim(ch) {
			v := e.Fresh(st, in, "claimok", types.Typ[types.Bool])
			st.MonV["claimok"] = v
			return v
		}
		return nil
	}
	h.Select = func(e *flow.Engine, st *flow.State, in *ssa.Select, chans []*flow.Val) {
		ctx, claim := false, false
		for _, ch := range chans {
			ctx = ctx || isCtxDone(ch)
			claim = claim || isClaim(ch)
		}
		if claim && !ctx {
			st.Set("noctx", 1)
		}
	}
	h.Store = func(e *flow.Engine, st *flow.State, addr, val *flow.Val, in ssa.Instruction) {
		if addr.K == flow.KAddr && addr.Field == a.fTimeoutFn {
			st.MonV["timeoutfn"] = val
		}
	}
	e := c.Engine(h)
	req := flow.Root("request", obtain.Params[len(obtain.Params)-1].Type())
	args := []*flow.Val{flow.Root("recv", obtain.Params[0].Type()), flow.Root("ctx", obtain.Params[1].Type()), req}
	st := flow.NewState()
	for _, v := range []*flow.Val{args[0], req} {
		st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
	}
	granted := false
	for _, x := range e.Analyze(obtain, args, nil, st) {
		if x.Panic {
			continue
		}
		m, op := x.St.Mon, "obtaining a lock"
		bad := func(ab, what string) { fail(e, x, ab, op, what) }
		kv := e.LoadPath(x.St, req, "Spec", "DBDefinition", "KeyValues")
		if k := x.St.MonV["stored_key"]; k == nil || kv == nil || k.Key() != kv.Key() {
			bad("L01", "the lock is not stored under the requested key values")
		}
		if m["op_created"] != 0 {
			if m["task"] != 1 {
				bad("L04 L05", "a lock is stored although nothing runs it")
			}
			if t := x.St.MonV["timeoutfn"]; t == nil || t.K != flow.KFn {
				bad("L03", "a new lock has no clean-up for when it expires")
			} else {
				timeouts = append(timeouts, flow.Exit{St: x.St, Res: []*flow.Val{t, x.St.MonV["stored_key"]}})
			}
		}
		if m["op_declined"] == 0 && m["op_created"]+m["op_found"] > 0 && m["waiting"] != 1 {
			bad("L04", fmt.Sprintf("a client is counted in %d times", m["waiting"]))
		}
		if m["op_declined"] != 0 && m["waiting"] != 0 {
			bad("L04", "a client waits for a lock that is not stored")
		}
		if m["noctx"] != 0 {
			bad("L04 L05", "a client that goes away while waiting is not noticed")
		}
		var ok = -1
		if v := x.St.MonV["claimok"]; v != nil {
			ok = x.St.Truth(v)
		}
		got := x.St.MonV["claimfn"] != nil
		if got && ok == -1 && m["claimed"] == 0 && resNil(x, 0) == 1 {
			bad("L01 L05", "a granted claim is dropped")
		}
		if got && ok == 1 && m["claimed"] != 1 {
			bad("L05", "a granted claim is not taken")
		}
		if m["claimed"] != 0 && (!got || ok != 1) {
			bad("L01", "a lock is taken without its claim")
		}
		if ch := x.St.MonV["claimch"]; got && m["op_declined"] == 0 && m["waiting"] == 1 {
			if w := x.St.MonV["waiting0"]; w == nil || ch == nil || flow.Strip(ch).Key() != flow.Strip(w).Key() {
				bad("L01", "the claim waited for is not this lock's")
			}
		}
		switch resNil(x, 0) {
		case 1:
			if m["claimed"] != 0 {
				bad("L01 L05", "a claimed lock is not handed to its client")
			}
			if !got && m["lost"] != 1 && m["op_absent"] == 0 {
				bad("L04", "a client that gives up is not counted out")
			}
		default:
			granted = true
			if m["claimed"] != 1 {
				bad("L01", "a lock is handed out without having been claimed")
				break
			}
			if m["lost"] != 0 {
				bad("L04", "a client that got the lock is counted out")
			}
			s := e.LoadPath(x.St, x.Res[0], "State", "SessionID")
			if s == nil || s.Key() != x.St.MonV["claimed0"].Key() {
				bad("L02", "the session handed to the client is not the holder's")
			}
			id := e.LoadPath(x.St, x.Res[0], "State", "LockID")
			if id == nil || id.K == flow.KConst {
				bad("L02", "the client is not told the lock's id")
			}
			want := e.LoadPath(x.St, req, "Spec", "Properties", "Timeout", "*")
			if want == nil || x.St.MonV["claimed_arg0"].Key() != want.Key() {
				bad("L03", "the lock does not run with the requested timeout")
			}
		}
		if m["lost"] > 1 {
			bad("L04", "a client is counted out more than once")
		}
		if m["wrongremove"] != 0 {
			bad("L03 L04", "the lock's entry does not follow whether clients are left")
		}
		if d := x.St.MonV["deleted_key"]; d != nil && d.Key() != kv.Key() {
			bad("L04", "a client is counted out of another lock")
		}
	}
	c.Check(granted || about != "L01", rule, "obtaining a lock", c.P.Pos(obtain.Pos()), "no path hands out a lock")
	c.Done(rule, e)

	// expiry clean-up
	c.Check(len(timeouts) > 0, rule, "clean-up of an expired lock", c.P.Pos(obtain.Pos()), "no clean-up callback found")
	for _, t := range timeouts {
		kv := t.Res[1]
		e := c.Engine(lockOps(a, &TreeModel{
			Err: func(*flow.Val, string) bool { return false },
			OnOp: func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
				st.Set("op_"+outcome, 1)
				if len(key.Args) > 0 {
					st.MonV["deleted_key"] = key.Args[0]
				}
				if r := st.MonV["timedout0"]; r != nil && (outcome == "removed" || outcome == "kept") {
					if t := st.Truth(r); t != map[string]int{"removed": 1, "kept": 0}[outcome] {
						st.Set("wrongremove", 1)
					}
				}
			},
		}))
		s := t.St.Clone()
		s.Mon = map[string]int{}
		s.MonV = map[string]*flow.Val{}
		for _, x := range e.Analyze(t.Res[0].Fn, []*flow.Val{}, t.Res[0].Args, s) {
			if x.Panic {
				continue
			}
			m, op := x.St.Mon, "clean-up of an expired lock"
			if d := x.St.MonV["deleted_key"]; d == nil || d.Key() != kv.Key() {
				fail(e, x, "L03", op, "it looks for another lock than the expired one")
			}
			if m["op_absent"] == 0 && m["timedout"] != 1 {
				fail(e, x, "L01 L03 L05", op, "the expired lock is not told to go on")
			}
			if m["wrongremove"] != 0 {
				fail(e, x, "L03 L04", op, "the lock's entry does not follow whether clients are left")
			}
		}
		c.Ob(rule, "clean-up of an expired lock")
		c.Done(rule, e)
	}

	// heartbeats and releases
	for _, o := range []struct{ name, op, key, tree string }{{"Heartbeat", "heartbeating a lock", "heartbeat", ""}, {"Release", "releasing a lock", "release", ""}} {
		fn, err := method(o.name)
		if err != nil {
			return err
		}
		e := c.Engine(lockOps(a, &TreeModel{
			OnOp: func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
				st.Set("op_"+outcome, 1)
				k := key.Args[0]
				if ids := selectedIDs(e, st, k); len(ids) == 1 {
					k = ids[0]
				}
				st.MonV["looked_up"] = k
				if r := st.MonV["release0"]; r != nil && (outcome == "removed" || outcome == "kept") {
					if t := st.Truth(r); t != map[string]int{"removed": 1, "kept": 0}[outcome] {
						st.Set("wrongremove", 1)
					}
				}
			},
		}))
		var args []*flow.Val
		st := flow.NewState()
		for i, p := range fn.Params {
			v := flow.Root(fmt.Sprint("p", i), p.Type())
			args = append(args, v)
			if i == 0 || i == len(fn.Params)-1 {
				st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
			}
		}
		did := false
		for _, x := range e.Analyze(fn, args, nil, st) {
			if x.Panic {
				continue
			}
			m := x.St.Mon
			if k := x.St.MonV["looked_up"]; k == nil || flow.Strip(k).Key() != args[2].Key() {
				fail(e, x, "L02", o.op, "another lock than the requested one is looked up")
			}
			switch n := m[o.key]; {
			case n == 0:
				if resNil(x, 0) != 0 {
					fail(e, x, "L02", o.op, "succeeds although there is no such lock")
				}
			case n > 1:
				fail(e, x, "L05", o.op, "the lock is asked more than once")
			default:
				did = true
				res := x.St.MonV[o.key+"0"]
				if o.key == "release" {
					res = x.St.MonV["release1"]
				}
				if !agreeNil(x.St, x.Res[0], res) {
					fail(e, x, "L02", o.op, "the answer is not the lock's")
				}
				if cl := x.St.MonV[o.key+"_arg1"]; cl == nil || cl.Key() != args[3].Key() {
					fail(e, x, "L02", o.op, "the lock is asked about another claim")
				}
			}
			if m["wrongremove"] != 0 {
				fail(e, x, "L03 L04", o.op, "the lock's entry does not follow whether clients are left")
			}
		}
		c.Ob(rule, o.op)
		if !did && about == "L02" {
			c.Fail(rule, o.op+": reach", c.P.Pos(fn.Pos()), "the lock is never asked")
		}
		c.Done(rule, e)
	}
	return nil
}

// lockClient analyses the lock's operations as the callers of its process see them.
func lockClient(c *Ctx, rule, about string, a *lockAnchors, r *lockRun) error {
	fail := func(e *flow.Engine, x flow.Exit, ab, op, what string) {
		c.Ob(rule, op)
		if strings.Contains(ab, about) {
			c.Fail(rule, op+": "+what, c.P.Pos(x.Pos), op+": "+what, e.Witness(x.St.Tr, 40)...)
		}
	}
	run := func(fn *ssa.Function, bind []*flow.Val, h *flow.Hooks) (*flow.Engine, []flow.Exit, []*flow.Val) {
		e := c.Engine(h)
		var args []*flow.Val
		st := flow.NewState()
		for i, p := range fn.Params {
			v := flow.Root(fmt.Sprint("p", i), p.Type())
			if i == 0 && fn.Signature.Recv() != nil {
				v = flow.Root("recv", p.Type())
				st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
			}
			args = append(args, v)
		}
		var out []flow.Exit
		for _, x := range e.Analyze(fn, args, bind, st) {
			if !x.Panic {
				out = append(out, x)
			}
		}
		c.Done(rule, e)
		return e, out, args
	}
	// a request and the possible answers to it
	ask := func(fn *ssa.Function, req, rsp *types.Var, answer *flow.Val, op string) (*flow.Engine, []flow.Exit, []*flow.Val) {
		c.Ob(rule, op)
		h := &flow.Hooks{
			Send: func(e *flow.Engine, st *flow.State, ch, val *flow.Val, in ssa.Instruction) bool {
				if flow.FieldOf(ch) == req {
					if st.Mon["asked"] == 0 && st.Mon["guarded"] == 0 && req != a.fTimedOut {
						st.Set("unguarded", 1)
					}
					st.Inc("asked", 1)
					st.MonV["asked"] = val
				}
				return true
			},
			Recv: func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) (*flow.Val, bool) {
				switch f := flow.FieldOf(ch); {
				case f == a.fDone:
					st.Set("done", 1)
				case f == req && req == a.fLost:
					st.Inc("asked", 1)
				case f == rsp:
					if st.Mon["asked"] == 0 {
						st.Set("early", 1)
					}
					st.Inc("answered", 1)
					return answer, true
				}
				return nil, true
			},
			Select: func(e *flow.Engine, st *flow.State, in *ssa.Select, chans []*flow.Val) {
				for _, ch := range chans {
					if flow.FieldOf(ch) == a.fDone {
						st.Set("guarded", 1)
					}
				}
			},
		}
		if req == a.fLost {
			h.RecvOk = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) *flow.Val {
				if flow.FieldOf(ch) == a.fLost {
					v := e.Fresh(st, in, "lostok", types.Typ[types.Bool])
					st.MonV["lostok"] = v
					return v
				}
				return nil
			}
		}
		return run(fn, nil, h)
	}
	protocol := func(e *flow.Engine, x flow.Exit, op string) {
		m := x.St.Mon
		if m["early"] != 0 || m["asked"] > 1 || m["answered"] > 1 {
			fail(e, x, "L05", op, "request and answer do not alternate")
		}
		if m["unguarded"] != 0 {
			fail(e, x, "L05", op, "the request blocks for ever when the lock's process has ended")
		}
		if m["asked"]+m["done"] == 0 {
			fail(e, x, "L02", op, "the lock's process is not asked")
		}
		ok := 1
		if v := x.St.MonV["lostok"]; v != nil {
			ok = x.St.Truth(v)
		}
		if m["asked"] == 1 && m["answered"] == 0 && ok != 0 {
			fail(e, x, "L05", op, "the answer is not waited for, so the lock's process blocks")
		}
	}
	for _, passed := range []bool{true, false} {
		op := "heartbeat"
		e, exits, args := ask(a.mHb, a.fHb, a.fHbRsp, flow.Bool(passed), op)
		for _, x := range exits {
			protocol(e, x, op)
			if v := x.St.MonV["asked"]; v != nil && v.Key() != args[1].Key() {
				fail(e, x, "L02", op, "another claim is sent")
			}
			want := 0
			if x.St.Mon["answered"] == 1 && passed {
				want = 1
			}
			if resNil(x, 0) != want {
				fail(e, x, "L02", op, "the result is not the answer of the lock's process")
			}
		}
	}
	for _, kind := range []string{"last", "others wait", "refused"} {
		op := "release"
		c.Check(len(r.codes[kind]) > 0 || about != "L02", rule, op+" "+kind, c.P.Pos(a.exec.Pos()), "no answer is sent for this outcome of a release")
		for other, codes := range r.codes {
			for code := range codes {
				if other != kind && r.codes[kind][code] && about == "L04" {
					c.Fail(rule, "release answers", c.P.Pos(a.exec.Pos()), fmt.Sprintf("the same answer means %q and %q", kind, other))
				}
			}
		}
		for code := range r.codes[kind] {
			var v *flow.Val
			et := a.fRelRsp.Type().Underlying().(*types.Chan).Elem()
			for i := int64(-64); i < 64; i++ {
				if k := flow.Int(i); k.Key() == code {
					v = flow.Const(k.C, et)
				}
			}
			for _, b := range []bool{true, false} {
				if k := flow.Bool(b); k.Key() == code {
					v = flow.Const(k.C, et)
				}
			}
			if v == nil {
				continue
			}
			e, exits, args := ask(a.mRel, a.fRel, a.fRelRsp, v, op)
			for _, x := range exits {
				protocol(e, x, op)
				if v := x.St.MonV["asked"]; v != nil && v.Key() != args[1].Key() {
					fail(e, x, "L02", op, "another claim is sent")
				}
				if len(x.Res) != 2 {
					continue
				}
				gone, wantErr := 0, 0
				if x.St.Mon["answered"] == 1 {
					if kind == "last" {
						gone = 1
					}
					if kind != "refused" {
						wantErr = 1
					}
				}
				if x.St.Truth(x.Res[0]) != gone {
					fail(e, x, "L04", op, "whether clients are left is misreported")
				}
				if resNil(x, 1) != wantErr {
					fail(e, x, "L02", op, "the result is not the answer of the lock's process")
				}
			}
		}
	}
	answer := flow.Root("answer", types.Typ[types.Bool])
	for _, o := range []struct {
		fn       *ssa.Function
		req, rsp *types.Var
		op       string
	}{{a.mLost, a.fLost, a.fLostRsp, "losing a client"}, {a.mTimeOut, a.fTimedOut, a.fTimedOutRsp, "timing out"}} {
		e, exits, _ := ask(o.fn, o.req, o.rsp, answer, o.op)
		for _, x := range exits {
			protocol(e, x, o.op)
			if x.St.Mon["answered"] == 1 {
				if !agreeBool(x.St, x.Res[0], answer) {
					fail(e, x, "L04", o.op, "whether clients are left is misreported")
				}
			} else if x.St.Truth(x.Res[0]) != 0 {
				fail(e, x, "L04", o.op, "a lock whose process has ended is removed")
			}
		}
	}
	// counting in
	{
		op := "waiting for a claim"
		e, exits, _ := run(a.mClaim, nil, &flow.Hooks{Call: func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			if len(ci.Args) == 2 && flow.FieldOf(ci.Args[0]) == a.fWaiting {
				if d, ok := atomicDelta(ci.Args[1]); ok {
					st.Inc("in", d)
				} else {
					st.Set("in", 9)
				}
				return e.Unknown(st, ci), true
			}
			return nil, false
		}})
		for _, x := range exits {
			if x.St.Mon["in"] != 1 {
				fail(e, x, "L04", op, "a waiting client is not counted in exactly once")
			}
			if flow.FieldOf(x.Res[0]) != a.fClaim {
				fail(e, x, "L01", op, "what is waited for is not the lock's claim")
			}
		}
		c.Ob(rule, op)
	}
	// claiming
	for _, cl := range r.claims {
		op := "claiming"
		if cl.K != flow.KFn {
			c.Fail(rule, op, c.P.Pos(a.exec.Pos()), "what the lock offers to its clients could not be determined")
			continue
		}
		e, exits, args := run(cl.Fn, cl.Args, &flow.Hooks{
			Call: func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
				if isNewID(ci) {
					ex := e.Unknown(st, ci)
					st.MonV["uid"] = ex[0].Res[0]
					return ex, true
				}
				return nil, false
			},
			Store: func(e *flow.Engine, st *flow.State, addr, val *flow.Val, in ssa.Instruction) {
				if addr.K == flow.KAddr && addr.Field == a.fSession {
					st.Set("order", st.Mon["sent"])
					st.MonV["session"] = val
				}
				if addr.K == flow.KAddr && addr.Field == a.fLockTimeout {
					st.MonV["timeout"] = val
					st.Set("torder", st.Mon["sent"])
				}
			},
			Send: func(e *flow.Engine, st *flow.State, ch, val *flow.Val, in ssa.Instruction) bool {
				if flow.FieldOf(ch) == a.fClaimRsp {
					st.Inc("sent", 1)
					st.MonV["sent"] = val
				}
				return true
			},
		})
		arg := args[len(args)-1]
		for _, x := range exits {
			u, s := x.St.MonV["uid"], x.St.MonV["session"]
			if u == nil || s == nil || u.Key() != s.Key() {
				fail(e, x, "L01 L02", op, "the session is not a newly generated id")
			} else if !containsVal(x.Res[0], u) {
				fail(e, x, "L02", op, "the client gets another session than the holder's")
			}
			if x.St.Mon["sent"] != 1 {
				fail(e, x, "L05", op, fmt.Sprintf("the lock's process is told %d times", x.St.Mon["sent"]))
			} else if x.St.MonV["sent"].Key() != arg.Key() {
				fail(e, x, "L03", op, "the lock's process is told another timeout")
			}
			if t := x.St.MonV["timeout"]; t == nil || t.Key() != arg.Key() {
				fail(e, x, "L03", op, "the timeout that heartbeats restart is not the requested one")
			}
			if x.St.Mon["order"]+x.St.Mon["torder"] != 0 {
				fail(e, x, "L02", op, "the lock's process goes on before the claim is recorded")
			}
		}
		c.Ob(rule, op)
	}
	return nil
}

func init() {
	for _, p := range []struct{ id, title, text string }{
		{"L01", "mutual exclusion", "the lock's process offers a claim only while free, frees itself only on the holder's release or its expiry, and a lock is handed out only through such a claim"},
		{"L02", "sessions", "heartbeats and releases are compared with the holder's session: same session accepted, any other refused without effect; unknown locks refused; sessions are fresh ids"},
		{"L03", "expiry", "a claim starts a timer for the requested timeout which every accepted heartbeat restarts; its end clears the session and starts exactly one clean-up of this very lock"},
		{"L04", "waiter accounting", "every client is counted in once and out once; the process ends and the entry goes exactly when none is left"},
		{"L05", "one answer per request", "each request is answered exactly once on its own channel before the next; in every state the process receives every kind of request; its end is told to all who wait"},
	} {
		p := p
		register(p.id, p.title, func(c *Ctx) error {
			c.Rule("lock-process", p.text, 6)
			c.Rule("lock-manager", "the lock manager: "+p.text, 3)
			c.Rule("lock-callers", "the callers of the lock's process: "+p.text, 4)
			a, err := lockerAnchors(c)
			if err != nil {
				return err
			}
			r := lockerRun(c, a)
			r.report(c, "lock-process", p.id)
			if err := lockManager(c, "lock-manager", p.id, a); err != nil {
				return err
			}
			return lockClient(c, "lock-callers", p.id, a, r)
		})
	}
}
