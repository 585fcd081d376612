package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

const relLock = "internal/locker/lock_manager"

// lockAnchors holds the anchors of the exclusive lock's process. Channels get their roles from the operations that
// use them, other fields from their types.
type lockAnchors struct {
	typ                                                         *types.Named
	fClaim, fClaimRsp, fHb, fHbRsp, fRel, fRelRsp               *types.Var
	fLost, fLostRsp, fTimedOut, fTimedOutRsp, fDone             *types.Var
	fSession, fTimeoutFn, fWaiting, fLockTimeout, fClaimSession *types.Var
	exec, mHb, mRel, mLost, mTimeOut, mClaim                    *ssa.Function
}

type chanOp struct {
	send bool
	f    *types.Var
}

// chanOpsOf lists the channel fields an operation sends to and receives from, in order of first use.
func chanOpsOf(c *Ctx, fn *ssa.Function) []chanOp {
	var out []chanOp
	add := func(send bool, ch *flow.Val) {
		f := flow.FieldOf(ch)
		if f == nil {
			return
		}
		for _, o := range out {
			if o.send == send && o.f == f {
				return
			}
		}
		out = append(out, chanOp{send, f})
	}
	e := c.Engine(&flow.Hooks{
		Send: func(e *flow.Engine, st *flow.State, ch, val *flow.Val, in ssa.Instruction) bool {
			add(true, ch)
			return true
		},
		Recv: func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) (*flow.Val, bool) {
			add(false, ch)
			return nil, true
		},
	})
	e.Analyze(fn, nil, nil, nil)
	return out
}

func lockerAnchors(c *Ctx) (*lockAnchors, error) {
	a := &lockAnchors{}
	var err error
	if a.typ, err = c.P.Named(relLock, "exclusiveLock"); err != nil {
		return nil, err
	}
	m := func(n string) *ssa.Function {
		f, e := c.P.Method(relLock, "exclusiveLock", n)
		if e != nil && err == nil {
			err = e
		}
		return f
	}
	a.exec, a.mHb, a.mRel, a.mLost, a.mTimeOut, a.mClaim = m("Execute"), m("Heartbeat"), m("ReleaseLock"), m("LostClient"), m("TimeOut"), m("GetClaimChannel")
	if err != nil {
		return nil, err
	}
	elem := func(f *types.Var) types.Type {
		if ch, ok := f.Type().Underlying().(*types.Chan); ok {
			return ch.Elem()
		}
		return nil
	}
	isStruct := func(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
	for _, o := range chanOpsOf(c, a.mHb) {
		switch {
		case o.send:
			a.fHb = o.f
		case isStruct(elem(o.f)):
			a.fDone = o.f
		default:
			a.fHbRsp = o.f
		}
	}
	for _, o := range chanOpsOf(c, a.mRel) {
		switch {
		case o.send:
			a.fRel = o.f
		case !isStruct(elem(o.f)):
			a.fRelRsp = o.f
		}
	}
	for _, o := range chanOpsOf(c, a.mLost) {
		if !o.send {
			if isStruct(elem(o.f)) {
				a.fLost = o.f
			} else {
				a.fLostRsp = o.f
			}
		}
	}
	for _, o := range chanOpsOf(c, a.mTimeOut) {
		if o.send {
			a.fTimedOut = o.f
		} else {
			a.fTimedOutRsp = o.f
		}
	}
	st := structOf(a.typ)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch t := f.Type().Underlying().(type) {
		case *types.Chan:
			if _, ok := t.Elem().Underlying().(*types.Signature); ok {
				a.fClaim = f
			} else if typeIs(t.Elem(), "time", "Duration") {
				a.fClaimRsp = f
			}
		case *types.Signature:
			a.fTimeoutFn = f
		case *types.Basic:
			if t.Kind() == types.String {
				a.fSession = f
			} else if typeIs(f.Type(), "time", "Duration") {
				a.fLockTimeout = f
			}
		}
		if typeIs(f.Type(), "sync/atomic", "Uint64") || typeIs(f.Type(), "sync/atomic", "Int64") || typeIs(f.Type(), "sync/atomic", "Int32") || typeIs(f.Type(), "sync/atomic", "Uint32") {
			a.fWaiting = f
		}
	}
	lc, err := c.P.Named("pkg/models/api/locker/v1", "LockClaim")
	if err != nil {
		return nil, err
	}
	a.fClaimSession = fieldNamed(lc, "SessionID")
	for n, f := range map[string]*types.Var{"claim channel": a.fClaim, "claim response": a.fClaimRsp, "heartbeat channel": a.fHb, "heartbeat response": a.fHbRsp,
		"release channel": a.fRel, "release response": a.fRelRsp, "lost client channel": a.fLost, "lost client response": a.fLostRsp, "timed out channel": a.fTimedOut,
		"timed out response": a.fTimedOutRsp, "done channel": a.fDone, "session id": a.fSession, "timeout callback": a.fTimeoutFn, "waiting clients": a.fWaiting,
		"lock timeout": a.fLockTimeout, "claim's session": a.fClaimSession} {
		if f == nil {
			return nil, fmt.Errorf("the exclusive lock has no field in the role of %s", n)
		}
	}
	return a, nil
}

// isDec/isInc: an atomic add of minus one or one.
func atomicDelta(v *flow.Val) (int, bool) {
	if v.K != flow.KConst || v.C.Kind() != constant.Int {
		return 0, false
	}
	if i, ok := constant.Int64Val(v.C); ok {
		if i == 1 || i == -1 {
			return int(i), true
		}
	}
	if u, ok := constant.Uint64Val(v.C); ok && (u == 1<<64-1 || u == 1<<32-1) {
		return -1, true
	}
	return 0, false
}

func isTimerChan(v *flow.Val) bool {
	v = flow.Strip(v)
	if v.K == flow.KSym && strings.HasPrefix(v.S, "$timerchan") {
		return true
	}
	f := flow.FieldOf(v)
	return f != nil && f.Name() == "C" && f.Pkg() != nil && f.Pkg().Path() == "time"
}

// newTimer models the creation of a timer or ticker.
func newTimer(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
	v := e.FreshAlloc(st, ci.Instr, ci.Res.At(0).Type())
	if f := fieldNamed(v.T, "C"); f != nil {
		st.Store(flow.FieldAddr(v, f), flow.Root("timerchan", f.Type()))
	}
	return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
}

// isCtxDone: a channel obtained from a context's Done method.
func isCtxDone(v *flow.Val) bool {
	v = flow.Strip(v)
	return v.K == flow.KSym && strings.Contains(v.S, "ctxdone")
}

// ctxDoneCall gives ctx.Done() a recognisable value.
func ctxDoneCall(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
	if ci.Method != nil && ci.Method.FullName() == "(context.Context).Done" {
		v := flow.Root("ctxdone "+ci.Recv.Key(), ci.Res.At(0).Type())
		return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
	}
	return nil, false
}

// lockFault is one broken transition of the lock's process. About says which property it concerns.
type lockFault struct {
	about, construct, what string
	st                     *flow.State
	e                      *flow.Engine
	pos                    string
}

const (
	lkFree    = 0
	lkHeld    = 1
	lkExpired = 2
)

var lkNames = []string{"free", "held", "expired"}

type lockRun struct {
	faults []lockFault
	seen   map[string]bool            // transitions seen
	codes  map[string]map[string]bool // release outcome -> codes sent for it
	e      *flow.Engine
	claims []*flow.Val // what the process offers to waiting clients
}

// lockerRun analyses the lock's process as a request/response automaton: every received request is a transaction that
// has to be answered, on its own response channel and exactly once, before the process waits again.
func lockerRun(c *Ctx, a *lockAnchors) *lockRun {
	r := &lockRun{seen: map[string]bool{}, codes: map[string]map[string]bool{}}
	dup := map[string]bool{}
	recv := flow.Root("recv", types.NewPointer(a.typ))
	fault := func(e *flow.Engine, st *flow.State, pos, about, construct, what string) {
		k := about + construct + what
		if dup[k] {
			return
		}
		dup[k] = true
		r.faults = append(r.faults, lockFault{about, construct, what, st.Clone(), e, pos})
	}
	main := func(chans []*flow.Val) bool {
		for _, ch := range chans {
			if f := flow.FieldOf(ch); f == a.fClaim || f == a.fRel || f == a.fHb {
				return true
			}
		}
		return false
	}
	txName := []string{"", "claim", "heartbeat", "release", "lost client", "expiry", "timed out", "shutdown"}
	const (
		txClaim = 1 + iota
		txHb
		txRel
		txLost
		txTick
		txTimedOut
		txCtx
	)
	// the outcome of a comparison of the request's session with the holder's: 1 same, 0 different, -1 not compared
	match := func(e *flow.Engine, st *flow.State) int {
		cs, ss := st.MonV["claim_session"], st.MonV["session"]
		if cs == nil || ss == nil {
			return -1
		}
		switch b := st.Rel(cs, ss); {
		case b == flow.EQ:
			return 1
		case b&flow.EQ == 0:
			return 0
		}
		return -1
	}
	// end closes the running transaction
	end := func(e *flow.Engine, st *flow.State, pos string, exiting bool) {
		m := st.Mon
		tx := m["tx"]
		n := txName[tx]
		if tx == 0 {
			return
		}
		r.seen[n] = true
		bad := func(about, what string) { fault(e, st, pos, about, n, what) }
		if m["wrong"] != 0 {
			bad("L05", "a request is answered on another request's channel")
		}
		answered := m["rsp"]
		rsp := st.MonV["rsp"]
		// does the answer say "nobody is left"? it has to agree with the counter
		last := func() int {
			d := st.MonV["dec"]
			if d == nil {
				return -1
			}
			z := flow.Const(constant.MakeInt64(0), d.T)
			verdict := -2
			for _, want := range []bool{true, false} {
				bits := flow.EQ
				if !want {
					bits = flow.LT | flow.GT
				}
				s := st.Clone()
				if !s.Restrict(d, z, bits) {
					continue
				}
				if rsp == nil || s.Truth(rsp) == -1 || (s.Truth(rsp) == 1) != want {
					return -3
				}
				if verdict == -2 {
					verdict = map[bool]int{true: 1, false: 0}[want]
				} else {
					verdict = 2 // either, decided later
				}
			}
			return verdict
		}
		sess := m["sess"] // 0 untouched, 1 cleared, 2 set to something else
		switch tx {
		case txClaim:
			if m["ticker"] != 1 {
				bad("L03", "a claimed lock gets no expiry timer")
			}
			if m["ticker_wrong"] != 0 {
				bad("L03", "the expiry timer does not run for the requested timeout")
			}
			if m["claimed"] != 1 {
				bad("L01", "the claim is not waited for")
			}
		case txHb:
			if answered != 1 {
				bad("L02 L05", fmt.Sprintf("a heartbeat is answered %d times", answered))
			}
			ok := match(e, st)
			t := -1
			if rsp != nil {
				t = st.Truth(rsp)
			}
			if m["dec"] != 0 || sess != 0 {
				bad("L01 L02", "a heartbeat changes who holds the lock")
			}
			if m["at"] == lkHeld && ok == -1 && t == -1 && rsp != nil {
				// the comparison itself may be the answer
				for _, want := range []bool{true, false} {
					s := st.Clone()
					bits := flow.EQ
					if !want {
						bits = flow.LT | flow.GT
					}
					if s.Restrict(st.MonV["claim_session"], st.MonV["session"], bits) && (s.Truth(rsp) == 1) != want {
						bad("L02", "a heartbeat's answer does not depend on the session")
					}
				}
				if m["reset"] == 0 {
					bad("L02 L03", "an accepted heartbeat does not restart the timeout")
				}
				break
			}
			switch {
			case m["at"] != lkHeld:
				if t != 0 {
					bad("L02 L05", "a heartbeat is accepted although nobody holds the lock")
				}
			case ok == 1:
				if t != 1 {
					bad("L02", "the holder's heartbeat is refused")
				}
				if m["reset"] != 1 || m["ticker_wrong"] != 0 {
					bad("L02 L03", "the holder's heartbeat does not restart the full timeout")
				}
			case ok == 0:
				if t != 0 {
					bad("L02", "a heartbeat with another session's id is accepted")
				}
				if m["reset"]+m["ticker"]+m["stop"] != 0 {
					bad("L02 L03", "a refused heartbeat changes the expiry timer")
				}
			default:
				bad("L02", "a heartbeat is answered without comparing its session with the holder's")
			}
		case txRel:
			if answered != 1 {
				bad("L02 L05", fmt.Sprintf("a release is answered %d times", answered))
				break
			}
			ok := match(e, st)
			if m["at"] != lkHeld {
				ok = 0
			}
			code := ""
			if rsp.K == flow.KConst {
				code = rsp.Key()
			}
			put := func(kind string) {
				if r.codes[kind] == nil {
					r.codes[kind] = map[string]bool{}
				}
				r.codes[kind][code] = true
			}
			if code == "" {
				bad("L02", "the answer to a release could not be determined")
			}
			switch ok {
			case 1:
				if sess != 1 || m["now"] != lkFree {
					bad("L01 L02", "the holder's release does not free the lock")
				}
				if m["dec"] != 1 {
					bad("L04", fmt.Sprintf("a release counts %d clients out", m["dec"]))
					break
				}
				d := st.MonV["dec"]
				switch b := st.Rel(d, flow.Const(constant.MakeInt64(0), d.T)); {
				case b == flow.EQ:
					put("last")
					if !exiting {
						bad("L04", "the lock's process goes on after its last client released it")
					}
				case b&flow.EQ == 0:
					put("others wait")
					if exiting {
						bad("L01 L04", "the lock's process ends although clients wait for it")
					}
				default:
					bad("L04", "a release does not look whether clients are left")
				}
			case 0:
				put("refused")
				if sess != 0 || m["dec"] != 0 || m["reset"]+m["ticker"]+m["stop"] != 0 || m["now"] != m["at"] || exiting {
					bad("L01 L02", "a refused release changes the lock")
				}
			default:
				bad("L01 L02", "a release is answered without comparing its session with the holder's")
			}
		case txLost, txTimedOut:
			who := map[int]string{txLost: "a client that stopped waiting", txTimedOut: "an expired holder"}[tx]
			if answered != 1 {
				bad("L03 L05", fmt.Sprintf("%s is answered %d times", who, answered))
			}
			if m["dec"] != 1 {
				bad("L04", fmt.Sprintf("%s is counted out %d times", who, m["dec"]))
			}
			if tx == txLost && (sess != 0 || m["now"] != m["at"]) {
				bad("L02", "a client that stopped waiting changes who holds the lock")
			}
			if tx == txTimedOut && m["at"] != lkExpired {
				bad("L01 L03", "a lock that has not expired is freed as if it had")
			}
			if answered == 1 && m["dec"] == 1 {
				l := last()
				if l == -3 && tx == txLost && m["at"] != lkFree && rsp != nil && st.Truth(rsp) == 0 {
					l = 0 // the holder is still counted, so clients are left
				}
				switch {
				case l < 0:
					bad("L04", "the answer to "+who+" does not say whether clients are left")
				case l == 1 && !exiting && m["ctx"] == 0:
					bad("L04", "the lock's process goes on after its last client has gone")
				case l == 0 && exiting && m["ctx"] == 0:
					bad("L01 L04", "the lock's process ends although clients are left")
				case l == 2 && !exiting:
					bad("L04", "the lock's process goes on without looking whether clients are left")
				}
			}
		case txTick:
			if sess != 1 {
				bad("L02 L03", "an expired lock keeps its holder's session")
			}
			if m["timeout"] != 1 {
				bad("L03", fmt.Sprintf("an expiry starts %d clean-ups", m["timeout"]))
			}
			if m["dec"] != 0 {
				bad("L03 L04", "an expired holder is counted out before its clean-up")
			}
			if exiting {
				bad("L03 L04", "the lock's process ends at an expiry")
			}
		}
		if tx != txTick && m["timeout"] != 0 {
			bad("L01 L03", "a lock that has not expired is cleaned up as if it had")
		}
		if m["timeout_sync"] != 0 {
			bad("L03 L05", "the clean-up runs on the lock's own process, which then cannot answer it")
		}
		if sess == 2 {
			bad("L01 L02", "the lock's process makes up a session")
		}
		if m["inc"] != 0 {
			bad("L04", "the lock's process counts a client in")
		}
	}
	reset := func(st *flow.State) {
		for _, k := range []string{"tx", "rsp", "wrong", "dec", "inc", "sess", "reset", "ticker", "ticker_wrong", "stop", "timeout", "timeout_sync", "claimed"} {
			delete(st.Mon, k)
		}
		for _, k := range []string{"rsp", "dec", "claim_session", "session"} {
			delete(st.MonV, k)
		}
	}
	begin := func(e *flow.Engine, st *flow.State, tx int) {
		st.Set("tx", tx)
		st.Set("at", st.Mon["now"])
		st.MonV["session"] = e.LoadField(st, recv, a.fSession)
	}
	h := &flow.Hooks{}
	h.Select = func(e *flow.Engine, st *flow.State, in *ssa.Select, chans []*flow.Val) {
		if !main(chans) {
			return
		}
		pos := c.P.Pos(in.Pos())
		end(e, st, pos, false)
		reset(st)
		has := map[*types.Var]bool{}
		ctx, tick := false, false
		for i, ch := range chans {
			ctx = ctx || isCtxDone(ch)
			tick = tick || isTimerChan(ch)
			if f := flow.FieldOf(ch); f != nil {
				has[f] = true
				_ = i
			}
		}
		now := st.Mon["now"]
		need := func(about string, f bool, what string) {
			r.seen["waits "+lkNames[now]] = true
			if !f {
				fault(e, st, pos, about, "a "+lkNames[now]+" lock", what)
			}
		}
		if !in.Blocking {
			fault(e, st, pos, "L05", "a "+lkNames[now]+" lock", "the lock's process does not wait for requests")
		}
		need("L02 L05", has[a.fHb], "heartbeats are not received, so one that arrives blocks while it holds on to the lock's entry")
		need("L02 L05", has[a.fRel], "releases are not received, so one that arrives blocks while it holds on to the lock's entry")
		need("L04 L05", has[a.fLost], "clients that stop waiting are not received")
		switch now {
		case lkFree:
			need("L01", has[a.fClaim], "a free lock is not offered to waiting clients")
		case lkHeld:
			need("L03", tick, "the holder's timeout is not watched")
			need("L05", ctx, "a shutdown is not noticed while the lock is held")
		case lkExpired:
			need("L03 L05", has[a.fTimedOut], "the clean-up of an expired lock is not received")
		}
	}
	h.Recv = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) (*flow.Val, bool) {
		f := flow.FieldOf(ch)
		_, inSelect := in.(*ssa.Select)
		fresh := func(t types.Type) *flow.Val { return e.Fresh(st, in, "m", t) }
		switch {
		case isCtxDone(ch):
			if st.Mon["tx"] == 0 {
				begin(e, st, txCtx)
			}
			st.Set("ctx", 1)
			st.Note(in.Pos(), "shutdown")
			return nil, true
		case isTimerChan(ch):
			if st.Mon["now"] != lkHeld {
				return nil, false // a stopped timer does not fire
			}
			begin(e, st, txTick)
			st.Set("now", lkExpired)
			st.Note(in.Pos(), "the lock expires")
			return nil, true
		case f == nil:
			return nil, true
		case f == a.fClaimRsp:
			v := fresh(a.fLockTimeout.Type())
			st.Store(flow.FieldAddr(recv, a.fLockTimeout), v)
			st.MonV["timeout"] = v
			st.Store(flow.FieldAddr(recv, a.fSession), e.Fresh(st, in, "sess", a.fSession.Type()))
			st.Inc("claimed", 1)
			st.Set("now", lkHeld)
			return v, true
		case f == a.fHb || f == a.fRel:
			if !inSelect {
				fault(e, st, c.P.Pos(in.Pos()), "L05", "process", "the lock's process waits for one kind of request only")
			}
			begin(e, st, map[bool]int{true: txHb, false: txRel}[f == a.fHb])
			v := fresh(f.Type().Underlying().(*types.Chan).Elem())
			st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
			cs := e.LoadField(st, v, a.fClaimSession)
			st.Restrict(cs, flow.Str(""), flow.LT|flow.GT) // requests are validated: the session is never empty
			st.MonV["claim_session"] = cs
			st.Note(in.Pos(), "%s received", txName[st.Mon["tx"]])
			return v, true
		case f == a.fTimedOut:
			if st.Mon["now"] != lkExpired {
				return nil, false // only an expiry's clean-up sends here
			}
			begin(e, st, txTimedOut)
			st.Set("now", lkFree)
			st.Note(in.Pos(), "expired holder removed")
		}
		// a buffered channel the process uses for itself
		if _, ok := f.Type().Underlying().(*types.Chan); ok && f != a.fDone {
			if k := "buf " + f.Name(); st.Mon[k] > 0 {
				st.Inc(k, -1)
			} else if f != a.fTimedOut {
				return nil, false
			}
		}
		return nil, true
	}
	h.Default = func(e *flow.Engine, st *flow.State, in *ssa.Select, chans []*flow.Val) bool {
		for _, ch := range chans {
			if f := flow.FieldOf(ch); f != nil && st.Mon["buf "+f.Name()] > 0 {
				return false
			}
		}
		return true
	}
	h.Send = func(e *flow.Engine, st *flow.State, ch, val *flow.Val, in ssa.Instruction) bool {
		f := flow.FieldOf(ch)
		rspOf := map[*types.Var]int{a.fHbRsp: txHb, a.fRelRsp: txRel, a.fLostRsp: txLost, a.fTimedOutRsp: txTimedOut}
		switch {
		case f == nil:
		case f == a.fClaim:
			if st.Mon["now"] != lkFree {
				fault(e, st, c.P.Pos(in.Pos()), "L01 L03", "claim", "the lock is offered to another client while it is "+lkNames[st.Mon["now"]])
			}
			begin(e, st, txClaim)
			known := false
			for _, v := range r.claims {
				known = known || v.Key() == val.Key()
			}
			if !known {
				r.claims = append(r.claims, val)
			}
			st.Note(in.Pos(), "claim taken")
		case f == a.fLost:
			begin(e, st, txLost)
			st.Note(in.Pos(), "a waiting client is lost")
		case rspOf[f] != 0:
			if rspOf[f] == st.Mon["tx"] {
				st.Inc("rsp", 1)
				st.MonV["rsp"] = val
				st.Note(in.Pos(), "answered %s", val)
			} else {
				st.Set("wrong", 1)
			}
		case f == a.fClaimRsp:
		default:
			st.Inc("buf "+f.Name(), 1)
		}
		return true
	}
	h.Close = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) {
		if f := flow.FieldOf(ch); f != nil {
			st.Inc("closed "+f.Name(), 1)
		}
	}
	h.Store = func(e *flow.Engine, st *flow.State, addr, val *flow.Val, in ssa.Instruction) {
		if addr.K == flow.KAddr && addr.Field == a.fSession {
			if s, ok := flow.StrVal(val); ok && s == "" {
				st.Set("sess", 1)
				if st.Mon["tx"] == txRel && st.Mon["now"] == lkHeld {
					st.Set("now", lkFree)
				}
			} else {
				st.Set("sess", 2)
			}
		}
	}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if ex, ok := ctxDoneCall(e, st, ci); ok {
			return ex, true
		}
		done := func() ([]flow.Exit, bool) { return e.Unknown(st, ci), true }
		if ci.FnVal != nil && flow.FieldOf(ci.FnVal) == a.fTimeoutFn {
			st.Inc("timeout", 1)
			if !ci.Go && st.Mon["async"] == 0 {
				st.Set("timeout_sync", 1)
			}
			st.Note(ci.Pos, "clean-up started")
			return done()
		}
		if ci.Go && ci.Fn != nil && len(ci.Fn.Blocks) > 0 {
			st.Set("async", 1)
			d := *ci
			d.Go = false
			ex := e.Call(st, &d)
			for _, x := range ex {
				delete(x.St.Mon, "async")
			}
			return ex, true
		}
		switch ci.Name() {
		case "(*sync/atomic.Uint64).Add", "(*sync/atomic.Int64).Add", "(*sync/atomic.Int32).Add", "(*sync/atomic.Uint32).Add":
			if flow.FieldOf(ci.Args[0]) == a.fWaiting || ci.Args[0].K == flow.KAddr && ci.Args[0].Field == a.fWaiting {
				d, ok := atomicDelta(ci.Args[1])
				ex := e.Unknown(st, ci)
				s := ex[0].St
				switch {
				case ok && d < 0:
					s.Inc("dec", 1)
					s.MonV["dec"] = ex[0].Res[0]
				default:
					s.Inc("inc", 1)
				}
				return ex, true
			}
		case "time.NewTicker", "time.NewTimer":
			st.Inc("ticker", 1)
			if t := st.MonV["timeout"]; t == nil || ci.Args[0].Key() != t.Key() {
				st.Set("ticker_wrong", 1)
			}
			return newTimer(e, st, ci)
		case "(*time.Ticker).Reset", "(*time.Timer).Reset":
			st.Inc("reset", 1)
			if t := st.MonV["timeout"]; t == nil || ci.Args[1].Key() != t.Key() {
				st.Set("ticker_wrong", 1)
			}
			return done()
		case "(*time.Ticker).Stop", "(*time.Timer).Stop":
			st.Inc("stop", 1)
			return done()
		}
		return nil, false
	}
	e := c.Engine(h)
	r.e = e
	st := flow.NewState()
	st.Restrict(recv, flow.NilOf(recv.T), flow.LT|flow.GT)
	args := []*flow.Val{recv}
	for _, p := range a.exec.Params[1:] {
		args = append(args, flow.Root(p.Name(), p.Type()))
	}
	n := 0
	for _, x := range e.Analyze(a.exec, args, nil, st) {
		if x.Panic {
			continue
		}
		n++
		pos := c.P.Pos(x.Pos)
		end(e, x.St, pos, true)
		m := x.St.Mon
		if m["now"] == lkExpired {
			fault(e, x.St, pos, "L03 L05", "process", "the lock's process ends while an expired lock's clean-up waits for it")
		}
		for _, f := range []*types.Var{a.fLost, a.fClaim, a.fDone} {
			if m["closed "+f.Name()] != 1 {
				fault(e, x.St, pos, "L05", "process", fmt.Sprintf("the lock's process ends without telling those who wait for it (%s closed %d times)", f.Name(), m["closed "+f.Name()]))
			}
		}
		if m["tx"] == txClaim {
			fault(e, x.St, pos, "L05", "process", "the lock's process ends while it is being claimed")
		}
	}
	if n == 0 {
		fault(e, st, c.P.Pos(a.exec.Pos()), "L05", "process", "the lock's process never ends")
	}
	for _, want := range []string{"claim", "heartbeat", "release", "lost client", "expiry", "timed out"} {
		if !r.seen[want] {
			for _, about := range []string{"L01", "L02", "L03", "L04", "L05"} {
				fault(e, st, c.P.Pos(a.exec.Pos()), about, want, "the lock's process never handles this request")
			}
		}
	}
	return r
}

// report hands the faults about a property to its check.
func (r *lockRun) report(c *Ctx, rule, about string) {
	for _, s := range sortedKeys(r.seen) {
		c.Ob(rule, s)
	}
	for _, f := range r.faults {
		if strings.Contains(f.about, about) {
			c.Fail(rule, f.construct+": "+f.what, f.pos, f.what, f.e.Witness(f.st.Tr, 40)...)
		}
	}
	c.Done(rule, r.e)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
