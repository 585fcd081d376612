package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

func init() {
	register("W06", "the process that keeps a message in processing", func(c *Ctx) error {
		if err := heartbeatProcess(c); err != nil {
			return err
		}
		return heartbeatItem(c)
	})
}

// hbeat is what is known about the type of a heartbeat process.
type hbeat struct {
	typ                                    types.Type
	name                                   string
	fStop, fStart, fBeat, fDone            *types.Var
	fTimeout, fLast, fOnTimeout, fShutdown *types.Var
	fStarted                               *types.Var
	ctor                                   *ssa.Function
}

// selectsOf are the channel operations of a select, by the struct field that has the channel.
func sentFields(fn *ssa.Function) (send, recv map[*types.Var]bool) {
	send, recv = map[*types.Var]bool{}, map[*types.Var]bool{}
	seen := map[*ssa.Function]bool{}
	field := func(v ssa.Value) *types.Var {
		if u, ok := v.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return structOf(fa.X.Type()).Field(fa.Field)
			}
		}
		return nil
	}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Select:
					for _, s := range x.States {
						if fd := field(s.Chan); fd != nil {
							if s.Dir == types.SendOnly {
								send[fd] = true
							} else {
								recv[fd] = true
							}
						}
					}
				case *ssa.Send:
					if fd := field(x.Chan); fd != nil {
						send[fd] = true
					}
				case *ssa.UnOp:
					if fd := field(x.X); fd != nil && x.CommaOk == false {
						if _, ok := x.X.Type().Underlying().(*types.Chan); ok {
							recv[fd] = true
						}
					}
				case ssa.CallInstruction:
					if cal := x.Common().StaticCallee(); cal != nil && cal.Pkg == f.Pkg {
						scan(cal)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	scan(fn)
	return
}

func onlyField(m map[*types.Var]bool) *types.Var {
	if len(m) != 1 {
		return nil
	}
	for f := range m {
		return f
	}
	return nil
}

func heartbeatAnchors(c *Ctx) (*hbeat, map[string]*ssa.Function, error) {
	iface, err := c.P.Named("internal/heartbeater", "Heartbeater")
	if err != nil {
		return nil, nil, err
	}
	impls := c.P.Implementers(iface.Underlying().(*types.Interface))
	var t types.Type
	for _, i := range impls {
		if n := namedOf(i); n != nil && n.Obj().Pkg() == namedOf(iface).Obj().Pkg() {
			t = i
		}
	}
	if t == nil {
		return nil, nil, fmt.Errorf("nothing implements the heartbeat process")
	}
	hb := &hbeat{typ: t, name: namedOf(t).Obj().Name()}
	ms := map[string]*ssa.Function{}
	for _, n := range []string{"Execute", "Stop", "Start", "Heartbeat", "GetLastHeartbeat"} {
		f, err := c.P.Method("internal/heartbeater", hb.name, n)
		if err != nil {
			return nil, nil, err
		}
		ms[n] = f
	}
	send := map[string]*types.Var{}
	var done map[*types.Var]bool
	for _, n := range []string{"Stop", "Start", "Heartbeat"} {
		s, r := sentFields(ms[n])
		if send[n] = onlyField(s); send[n] == nil {
			return nil, nil, fmt.Errorf("%s does not signal the process on one channel", n)
		}
		if done == nil {
			done = r
		} else {
			both := map[*types.Var]bool{}
			for f := range r {
				if done[f] {
					both[f] = true
				}
			}
			done = both
		}
	}
	hb.fStop, hb.fStart, hb.fBeat, hb.fDone = send["Stop"], send["Start"], send["Heartbeat"], onlyField(done)
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case typeIs(f.Type(), "time", "Duration"):
			hb.fTimeout = f
		case typeIs(f.Type(), "time", "Time"):
			hb.fLast = f
		}
	}
	// the constructor says which callback is which
	for _, fn := range c.P.AllFuncs {
		if fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Object() != nil && fn.Object().Exported() && fn.Pkg != nil && fn.Pkg.Pkg == namedOf(t).Obj().Pkg() && fn.Signature.Results().Len() > 0 &&
			types.Identical(deref(fn.Signature.Results().At(0).Type()), deref(t)) {
			hb.ctor = fn
		}
	}
	if hb.ctor == nil || hb.fTimeout == nil {
		return nil, nil, fmt.Errorf("the heartbeat process has no constructor or no timeout")
	}
	return hb, ms, nil
}

// heartbeatProcess follows the process from its creation to each of its ends, and the requests made to it.
func heartbeatProcess(c *Ctx) error {
	const r1, r2, r3 = "process", "requests", "made"
	c.Rule(r1, "wherever the process waits it takes a stop and a heartbeat, before it is started also the start and afterwards also the server's stop and the timeout; the timeout runs from the start and from each heartbeat anew; at its end those that wait for it are released, and then the timeout's callback runs once if it ran out, and otherwise not at all", 5)
	c.Rule(r2, "a stop, start or heartbeat answers true exactly when the process took it, and gives up when the process has ended; a process is started once", 3)
	c.Rule(r3, "a process is made with the timeout and callbacks it is given and channels of its own, and is refused without a callback for the timeout", 2)
	hb, ms, err := heartbeatAnchors(c)
	if err != nil {
		return err
	}
	if hb.fDone == nil {
		c.Fail(r2, "ended", c.P.Pos(ms["Stop"].Pos()), "a stop, start or heartbeat does not give up when the process has ended")
		return nil
	}
	heartbeatCtor(c, r3, hb)

	// the process
	fn := ms["Execute"]
	h := &flow.Hooks{}
	e := c.Engine(h)
	st := flow.NewState()
	args := rootArgs(fn, st)
	recv, ctx := args[0], args[1]
	fail := func(s *flow.State, in ssa.Instruction, construct, what string) {
		pos := c.P.Pos(fn.Pos())
		if in != nil {
			pos = c.P.Pos(in.Pos())
		}
		c.Fail(r1, construct, pos, "Execute: "+what, e.Witness(s.Tr, 30)...)
	}
	is := func(ch *flow.Val, f *types.Var) bool { return f != nil && flow.FieldOf(ch) == f }
	isTimeout := func(s *flow.State, v *flow.Val) bool {
		return v != nil && sameVal(v, e.LoadField(s, recv, hb.fTimeout))
	}
	waits := 0
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if ex, ok := ctxDoneCall(e, st, ci); ok {
			return ex, true
		}
		if ci.Go {
			fail(st, ci.Instr, "alone", "it starts a goroutine, what that does is not followed")
		}
		if ci.Fn != nil && ci.Fn.Pkg != nil && ci.Fn.Pkg.Pkg.Path() == "time" {
			switch ci.Fn.Name() {
			case "NewTimer", "NewTicker", "After", "Tick":
				if !isTimeout(st, ci.Args[0]) {
					fail(st, ci.Instr, "timeout", "a timer of another length than the timeout is used")
				}
				st.Set("armed", 1)
				if ci.Fn.Name() == "After" || ci.Fn.Name() == "Tick" {
					return []flow.Exit{{St: st, Res: []*flow.Val{flow.Root("timerchan", ci.Res.At(0).Type())}, Pos: ci.Pos}}, true
				}
				return newTimer(e, st, ci)
			case "Reset":
				if !isTimeout(st, ci.Args[len(ci.Args)-1]) {
					fail(st, ci.Instr, "timeout", "the timer is set to another length than the timeout")
				}
				st.Set("armed", 1)
				return e.Unknown(st, ci), true
			case "Stop":
				st.Set("armed", 0)
				return e.Unknown(st, ci), true
			case "Now":
				v := flow.Root("now", ci.Res.At(0).Type())
				return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
			}
		}
		if ci.FnVal != nil && ci.Fn == nil {
			f := flow.FieldOf(ci.FnVal)
			switch {
			case f != nil && f == hb.fOnTimeout:
				st.Inc("ontimeout", 1)
				if st.Mon["closed"] == 0 {
					fail(st, ci.Instr, "order", "the timeout's callback runs before those that wait for the process are released")
				}
				return []flow.Exit{{St: st, Pos: ci.Pos}}, true
			case f != nil && f == hb.fShutdown:
				if st.IsNil(ci.FnVal) != 0 {
					fail(st, ci.Instr, "optional", "the callback for the server's stop is called although it need not be given")
				}
				st.Inc("onshutdown", 1)
				return []flow.Exit{{St: st, Pos: ci.Pos}}, true
			}
		}
		if opaqueAmbient(ci) {
			return e.Unknown(st, ci), true
		}
		return nil, false
	}
	h.Store = func(e *flow.Engine, st *flow.State, addr, val *flow.Val, in ssa.Instruction) {
		if addr.K == flow.KAddr && addr.Field != nil && addr.Field == hb.fLast {
			if v := flow.Strip(val); v.K == flow.KSym && strings.HasPrefix(v.S, "$now") {
				st.Set("recorded", 1)
			}
		}
	}
	h.Select = func(e *flow.Engine, st *flow.State, in *ssa.Select, chans []*flow.Val) {
		waits++
		got := map[string]bool{}
		for i, ch := range chans {
			if in.States[i].Dir == types.SendOnly {
				continue
			}
			switch {
			case is(ch, hb.fStop):
				got["stop"] = true
			case is(ch, hb.fBeat):
				got["heartbeat"] = true
			case is(ch, hb.fStart):
				got["start"] = true
			case isTimerChan(ch):
				got["timeout"] = true
			case isCtxDone(ch) && strings.Contains(flow.Strip(ch).S, ctx.Key()):
				got["shutdown"] = true
			}
		}
		phase, need := "not started", []string{"stop", "heartbeat", "start"}
		if st.Mon["started"] != 0 {
			phase, need = "running", []string{"stop", "heartbeat", "timeout", "shutdown"}
			if st.Mon["armed"] == 0 {
				fail(st, in, "armed", "it waits while the timeout is not running anew")
			}
			if hb.fLast != nil && st.Mon["recorded"] == 0 {
				fail(st, in, "recorded", "the time of the last heartbeat is not recorded")
			}
		}
		for _, n := range need {
			c.Check(got[n], r1, phase+": "+n, c.P.Pos(in.Pos()), fmt.Sprintf("Execute: while %s it waits without taking a %s", phase, n), e.Witness(st.Tr, 20)...)
		}
	}
	h.Recv = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) (*flow.Val, bool) {
		if _, ok := in.(*ssa.Select); !ok {
			fail(st, in, "single wait", "it waits for one thing only")
		}
		ended := st.Mon["stop"]+st.Mon["timeout"]+st.Mon["shutdown"] > 0
		if ended {
			fail(st, in, "ended", "it goes on after it was stopped or timed out")
		}
		switch {
		case is(ch, hb.fStop):
			st.Set("stop", 1)
		case is(ch, hb.fBeat):
			st.Set("armed", 0)
			st.Set("recorded", 0)
			st.Note(in.Pos(), "heartbeat")
		case is(ch, hb.fStart):
			if st.Mon["started"] != 0 {
				fail(st, in, "started twice", "it can be started again")
			}
			st.Set("started", 1)
			st.Set("recorded", 0)
		case isTimerChan(ch):
			if st.Mon["started"] == 0 {
				fail(st, in, "early timeout", "it times out before it is started")
			}
			st.Set("timeout", 1)
		case isCtxDone(ch):
			st.Set("shutdown", 1)
		default:
			fail(st, in, "other", "it waits for something else than its requests, the timeout and the server's stop")
		}
		return nil, true
	}
	h.Send = func(e *flow.Engine, st *flow.State, ch, val *flow.Val, in ssa.Instruction) bool {
		fail(st, in, "send", "it waits for somebody to take something from it")
		return true
	}
	h.Close = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) {
		if is(ch, hb.fDone) {
			st.Inc("closed", 1)
		} else {
			fail(st, in, "close", "it closes a channel that requests are sent on")
		}
	}
	ends := map[string]bool{}
	for _, x := range e.Analyze(fn, args, nil, st) {
		n := x.St.Mon
		bad := func(construct, what string) {
			c.Fail(r1, construct, c.P.Pos(x.Pos), "Execute: "+what, e.Witness(x.St.Tr, 30)...)
		}
		if x.Panic {
			bad("crash", "it stops the server")
			continue
		}
		how := ""
		switch {
		case n["timeout"] != 0:
			how = "timeout"
		case n["stop"] != 0:
			how = "stop"
		case n["shutdown"] != 0:
			how = "shutdown"
		default:
			bad("end", "it ends although it was not stopped, did not time out and the server does not stop")
			continue
		}
		ends[how] = true
		if n["closed"] != 1 {
			bad("released", "it ends ("+how+") without releasing those that wait for it, once")
		}
		want := 0
		if how == "timeout" {
			want = 1
		}
		if n["ontimeout"] != want {
			bad("callback", fmt.Sprintf("its timeout's callback runs %d times at its end by %s", n["ontimeout"], how))
		}
		if how != "shutdown" && n["onshutdown"] != 0 || n["onshutdown"] > 1 {
			bad("callback", "the callback for the server's stop runs at its end by "+how)
		}
		if how == "shutdown" && n["onshutdown"] == 0 && hb.fShutdown != nil && x.St.IsNil(e.LoadField(x.St, recv, hb.fShutdown)) != 1 {
			bad("callback", "the callback for the server's stop does not run when the server stops")
		}
	}
	c.Done(r1, e)
	for _, k := range []string{"timeout", "stop", "shutdown"} {
		c.Check(ends[k], r1, "end by "+k, c.P.Pos(fn.Pos()), "Execute: it does not end by "+k)
	}

	// the requests
	for _, n := range []string{"Stop", "Start", "Heartbeat"} {
		fn := ms[n]
		want := map[string]*types.Var{"Stop": hb.fStop, "Start": hb.fStart, "Heartbeat": hb.fBeat}[n]
		st := flow.NewState()
		args := rootArgs(fn, st)
		h := &flow.Hooks{}
		e := c.Engine(h)
		bad := func(s *flow.State, pos, construct, what string) {
			c.Fail(r2, n+": "+construct, pos, n+": "+what, e.Witness(s.Tr, 20)...)
		}
		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			if m := callee(ci); m != nil && m.Pkg() != nil && m.Pkg().Path() == "sync/atomic" && ci.Res.Len() == 1 {
				switch m.Name() {
				case "Swap", "CompareAndSwap":
					first, again := st.Clone(), st
					first.Set("first", 1)
					won := m.Name() == "CompareAndSwap"
					return []flow.Exit{{St: first, Res: []*flow.Val{flow.Bool(won)}, Pos: ci.Pos}, {St: again, Res: []*flow.Val{flow.Bool(!won)}, Pos: ci.Pos}}, true
				}
			}
			if opaqueAmbient(ci) {
				return e.Unknown(st, ci), true
			}
			return nil, false
		}
		h.Select = func(e *flow.Engine, st *flow.State, in *ssa.Select, chans []*flow.Val) {
			st.Set("insel", 1)
			if !in.Blocking {
				bad(st, c.P.Pos(in.Pos()), "gives up", "it gives up although the process may take it")
			}
			ok := false
			for i, ch := range chans {
				ok = ok || in.States[i].Dir == types.RecvOnly && flow.FieldOf(ch) == hb.fDone
			}
			if !ok {
				bad(st, c.P.Pos(in.Pos()), "ended", "it does not give up when the process has ended")
			}
		}
		h.Send = func(e *flow.Engine, st *flow.State, ch, val *flow.Val, in ssa.Instruction) bool {
			if _, ok := in.(*ssa.Select); !ok {
				bad(st, c.P.Pos(in.Pos()), "ended", "it does not give up when the process has ended")
			}
			if flow.FieldOf(ch) != want {
				bad(st, c.P.Pos(in.Pos()), "other", "it signals something else")
			}
			st.Inc("sent", 1)
			return true
		}
		h.Recv = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) (*flow.Val, bool) {
			if flow.FieldOf(ch) != hb.fDone {
				bad(st, c.P.Pos(in.Pos()), "waits", "it waits for something else than the process's end")
			}
			st.Set("ended", 1)
			return nil, true
		}
		for _, x := range e.Analyze(fn, args, nil, st) {
			if x.Panic {
				bad(x.St, c.P.Pos(x.Pos), "crash", "it stops the server")
				continue
			}
			t := x.St.Truth(x.Res[0])
			if x.St.Mon["sent"] > 1 || x.St.Mon["sent"] == 1 && t != 1 || x.St.Mon["sent"] == 0 && t != 0 {
				bad(x.St, c.P.Pos(x.Pos), "answer", fmt.Sprintf("it answers %v although it was taken by the process %d times", t == 1, x.St.Mon["sent"]))
			}
			if x.St.Mon["sent"] == 0 && x.St.Mon["ended"] == 0 && (n != "Start" || x.St.Mon["first"] != 0) {
				bad(x.St, c.P.Pos(x.Pos), "gives up", "it gives up although the process has not ended")
			}
			if n == "Start" && x.St.Mon["sent"] != 0 && x.St.Mon["first"] == 0 {
				bad(x.St, c.P.Pos(x.Pos), "once", "the process can be started more than once")
			}
		}
		c.Done(r2, e)
		c.Ob(r2, n)
	}
	return nil
}

// heartbeatCtor: which field has which callback, and that each process has its own channels.
func heartbeatCtor(c *Ctx, r string, hb *hbeat) {
	fn := hb.ctor
	st := flow.NewState()
	args := rootArgs(fn, st)
	h := &flow.Hooks{}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if opaqueAmbient(ci) {
			return e.Unknown(st, ci), true
		}
		return nil, false
	}
	e := c.Engine(h)
	var fns []*flow.Val
	var dur *flow.Val
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			fns = append(fns, args[i])
		}
		if typeIs(p.Type(), "time", "Duration") {
			dur = args[i]
		}
	}
	if len(fns) != 2 || dur == nil {
		c.Fail(r, "parameters", c.P.Pos(fn.Pos()), "a heartbeat process is not made from a timeout and two callbacks")
		return
	}
	shut, timeout := fns[0], fns[1]
	made := false
	for _, x := range e.Analyze(fn, args, nil, st) {
		if x.Panic {
			c.Fail(r, "crash", c.P.Pos(x.Pos), "making a heartbeat process stops the server")
			continue
		}
		o := x.Res[0]
		if x.St.IsNil(o) == 1 {
			if x.St.IsNil(timeout) != 1 {
				c.Fail(r, "refused", c.P.Pos(x.Pos), "a heartbeat process is refused although it has a callback for the timeout", e.Witness(x.St.Tr, 20)...)
			}
			continue
		}
		made = true
		if x.St.IsNil(timeout) != 0 {
			c.Fail(r, "unrefused", c.P.Pos(x.Pos), "a heartbeat process is made without a callback for the timeout", e.Witness(x.St.Tr, 20)...)
		}
		s := structOf(hb.typ)
		seen := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			v := e.LoadField(x.St, o, f)
			switch f.Type().Underlying().(type) {
			case *types.Signature:
				if sameVal(v, timeout) {
					hb.fOnTimeout = f
				} else if sameVal(v, shut) {
					hb.fShutdown = f
				}
			case *types.Chan:
				if v.K == flow.KNil || v.K == flow.KZero || seen[v.Key()] {
					c.Fail(r, "channels", c.P.Pos(x.Pos), "a heartbeat process is made without channels of its own")
				}
				seen[v.Key()] = true
			}
		}
		c.Check(sameVal(e.LoadField(x.St, o, hb.fTimeout), dur), r, "timeout", c.P.Pos(x.Pos), "a heartbeat process is made with another timeout than the one given")
		c.Check(hb.fOnTimeout != nil, r, "callback", c.P.Pos(x.Pos), "a heartbeat process does not keep its callback for the timeout")
		c.Check(hb.fShutdown != nil, r, "shutdown callback", c.P.Pos(x.Pos), "a heartbeat process does not keep its callback for the server's stop")
	}
	c.Check(made, r, "made", c.P.Pos(fn.Pos()), "no heartbeat process is ever made")
	c.Done(r, e)
}

// heartbeatItem: a message has at most one process, made with its own timeout, and requests reach that one.
func heartbeatItem(c *Ctx) error {
	const r = "message"
	c.Rule(r, "a message being handed out gets one process, with its own timeout and the callbacks given; starting, stopping and heartbeating the message is done, under the message's lock, once to that process and answers what it answered, or false when there is none; stopping takes the process away", 5)
	w, err := willowAnchors(c)
	if err != nil {
		return err
	}
	it := w.item
	var fProc *types.Var
	s := structOf(it)
	for i := 0; i < s.NumFields(); i++ {
		if typeIs(s.Field(i).Type(), "internal/heartbeater", "Heartbeater") {
			fProc = s.Field(i)
		}
	}
	var methods []*ssa.Function
	for _, fn := range c.P.AllFuncs {
		if fn.Parent() == nil && fn.Signature.Recv() != nil && types.Identical(deref(fn.Signature.Recv().Type()), deref(it)) {
			methods = append(methods, fn)
		}
	}
	for _, fn := range methods {
		st := flow.NewState()
		args := rootArgs(fn, st)
		recv := args[0]
		h := &flow.Hooks{}
		e := c.Engine(h)
		name := fn.Name()
		before := e.LoadField(st, recv, fProc)
		touched := false
		bad := func(s *flow.State, pos, construct, what string) {
			c.Fail(r, name+": "+construct, pos, name+": "+what, e.Witness(s.Tr, 20)...)
		}
		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			m := callee(ci)
			if m != nil && strings.HasPrefix(m.FullName(), "(*sync.") {
				d := map[string]int{"Lock": 1, "RLock": 1, "Unlock": -1, "RUnlock": -1}[m.Name()]
				if d != 0 && len(ci.Args) > 0 && flow.BaseOf(ci.Args[0]) != nil {
					st.Inc("lock "+ci.Args[0].Key(), d)
					st.Inc("locks", d)
				}
				return e.Unknown(st, ci), true
			}
			if m != nil && methodIs(ci.Method, "internal/heartbeater") {
				touched = true
				st.Inc("did "+m.Name(), 1)
				if st.Mon["locks"] <= 0 {
					bad(st, c.P.Pos(ci.Pos), "unlocked", "the message's process is used while the message is not locked")
				}
				if !sameVal(ci.Recv, before) {
					bad(st, c.P.Pos(ci.Pos), "other process", "another process than the message's own is used")
				}
				if st.IsNil(ci.Recv) != 0 {
					bad(st, c.P.Pos(ci.Pos), "no process", "a process is used that need not exist")
				}
				v := flow.Root("answer "+m.Name(), ci.Res.At(0).Type())
				return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
			}
			if ci.Fn != nil && ci.Fn.Pkg != nil && strings.HasSuffix(ci.Fn.Pkg.Pkg.Path(), "internal/heartbeater") && ci.Fn.Signature.Recv() == nil {
				touched = true
				if st.IsNil(before) != 1 {
					bad(st, c.P.Pos(ci.Pos), "second process", "a second process is made while there is one")
				}
				if d := e.LoadField(st, recv, w.iTimeout); d == nil || !sameVal(ci.Args[0], d) {
					bad(st, c.P.Pos(ci.Pos), "timeout", "the process is not made with the message's own timeout")
				}
				for i := 1; i < 3 && i < len(ci.Args) && i < len(args); i++ {
					if !sameVal(ci.Args[i], args[i]) {
						bad(st, c.P.Pos(ci.Pos), "callbacks", "the process is not made with the callbacks that were given")
					}
				}
				st.Inc("did New", 1)
				v := flow.Root("process", ci.Res.At(0).Type())
				st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
				return []flow.Exit{{St: st, Res: []*flow.Val{v, flow.NilOf(ci.Res.At(1).Type())}, Pos: ci.Pos}}, true
			}
			if opaqueAmbient(ci) {
				return e.Unknown(st, ci), true
			}
			return nil, false
		}
		h.Store = func(e *flow.Engine, st *flow.State, addr, val *flow.Val, in ssa.Instruction) {
			if addr.K == flow.KAddr && addr.Field == fProc {
				touched = true
				if st.Mon["locks"] <= 0 {
					bad(st, c.P.Pos(in.Pos()), "unlocked", "the message's process is changed while the message is not locked")
				}
			}
		}
		exits := e.Analyze(fn, args, nil, st)
		if !touched {
			continue
		}
		c.Ob(r, name)
		for _, x := range exits {
			pos := c.P.Pos(x.Pos)
			if x.Panic {
				if x.St.Mon["did New"] == 0 && x.St.IsNil(before) != 1 {
					continue // asked for a second process
				}
				bad(x.St, pos, "crash", "it stops the server")
				continue
			}
			for k, v := range x.St.Mon {
				if strings.HasPrefix(k, "lock ") && v != 0 {
					bad(x.St, pos, "released", "the message's lock is not released")
				}
			}
			n := x.St.Mon
			after := e.LoadField(x.St, recv, fProc)
			did := 0
			for _, k := range []string{"Start", "Stop", "Heartbeat"} {
				did += n["did "+k]
				if n["did "+k] > 0 && len(x.Res) == 1 && !strings.Contains(x.Res[0].Key(), "answer "+k) {
					bad(x.St, pos, "answer", "what the process answered is not what is answered")
				}
			}
			if did > 1 {
				bad(x.St, pos, "once", "the process is asked more than once")
			}
			if did == 0 && n["did New"] == 0 && len(x.Res) == 1 && types.Identical(x.Res[0].T.Underlying(), types.Typ[types.Bool]) {
				if x.St.Truth(x.Res[0]) != 0 {
					bad(x.St, pos, "nothing done", "it answers true although no process took it")
				}
				if x.St.IsNil(before) != 1 {
					bad(x.St, pos, "ignored", "the message's process is not asked")
				}
			}
			switch {
			case n["did Stop"] > 0:
				if x.St.IsNil(after) != 1 {
					bad(x.St, pos, "left", "a stopped process stays with the message")
				}
			case n["did New"] > 0:
				if !strings.Contains(after.Key(), "$process") || len(x.Res) > 0 && !sameVal(x.Res[0], after) {
					bad(x.St, pos, "kept", "the process that is made is not kept with the message, or not the one handed out")
				}
			case did > 0:
				if !sameVal(after, before) {
					bad(x.St, pos, "taken away", "the message loses its process")
				}
			}
		}
		c.Done(r, e)
	}
	return nil
}
