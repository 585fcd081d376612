package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

func init() {
	register("L06", "clients keep what they hold alive", func(c *Ctx) error {
		ks, err := keptTypes(c)
		if err != nil {
			return err
		}
		c.Rule("alive", "a lock or item that a client holds is heartbeated at least three times per timeout; each heartbeat that was taken, and nothing else, renews it; the holder is told about those that were not", 2)
		c.Rule("lost", "without a heartbeat that was taken for its timeout, it is lost: no heartbeat is waited for beyond that, and nothing but that, a refusal by the service, or giving it up ends the heartbeats", 2)
		c.Rule("told", "whenever the heartbeats end, everyone that watches it is told, once, and those that wait for the heartbeats are released", 2)
		c.Rule("given up", "giving it up stops the heartbeats and tells the watchers before the service is asked, names what is held, and is done once for a lock", 2)
		c.Rule("obtained", "obtaining a lock answers with the lock that the service granted and that is remembered under the request's key values until it is lost or released, or with the one remembered; it answers nothing without an error only if the caller gave up", 1)
		for _, k := range ks {
			k.check(c)
		}
		return obtainCheck(c, ks)
	})
}

// kept is a type of thing a client holds as long as its heartbeats are taken.
type kept struct {
	typ   types.Type
	name  string
	pkg   string
	fDone *types.Var
	ctor  *ssa.Function
	done  *ssa.Function
	// the methods that give it up: they send a request
	ends []*ssa.Function

	waited map[*types.Var]bool // what giving it up waits for
	closed map[*types.Var]bool // what the heartbeats' end closes
}

func keptTypes(c *Ctx) ([]*kept, error) {
	var out []*kept
	seen := map[string]bool{}
	for _, fn := range c.P.AllFuncs {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Signature.Recv() == nil || fn.Pkg == nil || !strings.Contains(fn.Pkg.Pkg.Path(), "/pkg/clients/") || strings.Contains(fn.Pkg.Pkg.Path(), "fakes") {
			continue
		}
		if fn.Name() != "Done" || fn.Signature.Results().Len() != 1 {
			continue
		}
		n := namedOf(deref(fn.Signature.Recv().Type()))
		if n == nil || seen[n.String()] {
			continue
		}
		seen[n.String()] = true
		k := &kept{typ: n, name: n.Obj().Name(), pkg: fn.Pkg.Pkg.Path(), done: fn, waited: map[*types.Var]bool{}, closed: map[*types.Var]bool{}}
		e := c.Engine(&flow.Hooks{})
		st := flow.NewState()
		for _, x := range e.Analyze(fn, rootArgs(fn, st), nil, st) {
			if !x.Panic && len(x.Res) == 1 {
				if f := flow.FieldOf(flow.Strip(x.Res[0])); f != nil {
					k.fDone = f
				}
			}
		}
		for _, g := range c.P.AllFuncs {
			if g.Pkg != fn.Pkg || g.Parent() != nil || len(g.Blocks) == 0 {
				continue
			}
			sig := g.Signature
			if sig.Recv() == nil && sig.Results().Len() == 1 && types.Identical(deref(sig.Results().At(0).Type()), n) {
				k.ctor = g
			}
			if sig.Recv() != nil && types.Identical(deref(sig.Recv().Type()), n) && g.Object() != nil && g.Object().Exported() && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), errType()) {
				k.ends = append(k.ends, g)
			}
		}
		if k.fDone == nil || k.ctor == nil || len(k.ends) == 0 {
			return nil, fmt.Errorf("%s: its end, constructor or the call that gives it up was not found", k.name)
		}
		out = append(out, k)
	}
	if len(out) < 2 {
		return nil, fmt.Errorf("expected the clients' lock and item, found %d such types", len(out))
	}
	return out, nil
}

// fraction: v as f * timeout, where timeout is a value the caller recognises.
func fraction(v *flow.Val, unit func(*flow.Val) bool) (*big.Rat, bool) {
	v = flow.Strip(v)
	if unit(v) {
		return big.NewRat(1, 1), true
	}
	num := func(x *flow.Val) (*big.Rat, bool) {
		x = flow.Strip(x)
		if x.K == flow.KConst && (x.C.Kind() == constant.Int || x.C.Kind() == constant.Float) {
			return new(big.Rat).SetString(x.C.ExactString())
		}
		return nil, false
	}
	if v.K != flow.KTerm || len(v.Args) != 2 {
		return nil, false
	}
	a, ok1 := fraction(v.Args[0], unit)
	b, ok2 := fraction(v.Args[1], unit)
	ca, ok3 := num(v.Args[0])
	cb, ok4 := num(v.Args[1])
	switch {
	case v.S == "op+" && ok1 && ok2:
		return new(big.Rat).Add(a, b), true
	case v.S == "op-" && ok1 && ok2:
		return new(big.Rat).Sub(a, b), true
	case v.S == "op*" && ok1 && ok4:
		return new(big.Rat).Mul(a, cb), true
	case v.S == "op*" && ok3 && ok2:
		return new(big.Rat).Mul(ca, b), true
	case v.S == "op/" && ok1 && ok4 && cb.Sign() != 0:
		return new(big.Rat).Quo(a, cb), true
	}
	return nil, false
}

var (
	ratOne   = big.NewRat(1, 1)
	ratThird = big.NewRat(1, 3)
)

// goCapture is a goroutine that was started.
type goCapture struct {
	fn   *flow.Val
	args []*flow.Val
	call *flow.CallInfo
	st   *flow.State
}

// hooks common to the constructor, the heartbeats and the methods
func (k *kept) hooks(c *Ctx, sink func(e *flow.Engine, st *flow.State, ci *flow.CallInfo)) *flow.Hooks {
	h := &flow.Hooks{}
	model := httpModel(c, sink)
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if ex, ok := ctxDoneCall(e, st, ci); ok {
			return ex, true
		}
		if m := callee(ci); m != nil {
			if m.Pkg() != nil && m.Pkg().Path() == "sync/atomic" && ci.Res.Len() == 1 {
				switch m.Name() {
				case "Swap", "CompareAndSwap":
					won := m.Name() == "CompareAndSwap"
					first, again := st.Clone(), st
					first.Inc("claimed", 1)
					first.Note(ci.Pos, "first to claim it")
					again.Set("late", 1)
					return []flow.Exit{{St: first, Res: []*flow.Val{flow.Bool(won)}, Pos: ci.Pos}, {St: again, Res: []*flow.Val{flow.Bool(!won)}, Pos: ci.Pos}}, true
				}
			}
			if m.FullName() == "(*sync.Once).Do" {
				st.Set("stopped", 1)
				again := st.Clone()
				again.Note(ci.Pos, "was done before")
				st.Inc("once", 1)
				ex := e.CallValue(st, ci.Args[1], nil, ci.Instr)
				for i := range ex {
					ex[i].St.Inc("once", -1)
					ex[i].Res = nil
				}
				return append(ex, flow.Exit{St: again, Pos: ci.Pos}), true
			}
		}
		if ex, ok := model(e, st, ci); ok {
			return ex, true
		}
		if opaqueAmbient(ci) {
			return e.Unknown(st, ci), true
		}
		return nil, false
	}
	return h
}

// made runs the constructor and returns the goroutine it starts and what the object looks like.
func (k *kept) made(c *Ctx) (caps []goCapture, exits []flow.Exit, args []*flow.Val, e *flow.Engine) {
	st := flow.NewState()
	args = rootArgs(k.ctor, st)
	h := k.hooks(c, func(*flow.Engine, *flow.State, *flow.CallInfo) {})
	inner := h.Call
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if ci.Go {
			caps = append(caps, goCapture{fn: ci.FnVal, args: ci.Args, call: ci, st: st.Clone()})
			st.Inc("started", 1)
			return []flow.Exit{{St: st, Pos: ci.Pos}}, true
		}
		return inner(e, st, ci)
	}
	e = c.Engine(h)
	exits = e.Analyze(k.ctor, args, nil, st)
	return
}

func (k *kept) check(c *Ctx) {
	caps, exits, args, e0 := k.made(c)
	for _, x := range exits {
		if !x.Panic && x.St.Mon["started"] != 1 {
			c.Fail("alive", k.name+": started", c.P.Pos(x.Pos), fmt.Sprintf("a new %s starts %d heartbeat processes", k.name, x.St.Mon["started"]), e0.Witness(x.St.Tr, 20)...)
		}
	}
	c.Done("alive", e0)
	if len(caps) == 0 || len(exits) == 0 {
		c.Fail("alive", k.name+": started", c.P.Pos(k.ctor.Pos()), "a new "+k.name+" does not start its heartbeats")
		return
	}
	obj := exits[0].Res[0]
	for _, m := range k.ends {
		k.giveUp(c, m, exits[0].St, obj, args)
	}
	k.heartbeats(c, caps[0], obj, args)
}

// timeout of the held thing: the only duration reachable from what the service answered
func (k *kept) unit(st *flow.State, e *flow.Engine, obj *flow.Val) func(*flow.Val) bool {
	s := structOf(k.typ)
	var keys []string
	for i := 0; i < s.NumFields(); i++ {
		if typeIs(s.Field(i).Type(), "time", "Duration") {
			if v := e.LoadField(st, obj, s.Field(i)); v != nil {
				keys = append(keys, flow.Strip(v).Key())
			}
		}
	}
	return func(v *flow.Val) bool {
		for _, q := range keys {
			if v.Key() == q {
				return true
			}
		}
		return false
	}
}

func (k *kept) heartbeats(c *Ctx, g goCapture, obj *flow.Val, args []*flow.Val) {
	var e *flow.Engine
	fail := func(st *flow.State, in ssa.Instruction, rule, construct, what string) {
		pos := c.P.Pos(k.ctor.Pos())
		if in != nil {
			pos = c.P.Pos(in.Pos())
		}
		c.Fail(rule, k.name+": "+construct, pos, k.name+": "+what, e.Witness(st.Tr, 40)...)
	}
	var unit func(*flow.Val) bool
	sigErr := func(t types.Type) bool {
		sg, ok := t.Underlying().(*types.Signature)
		return ok && sg.Params().Len() == 1 && types.Identical(sg.Params().At(0).Type(), errType()) && sg.Results().Len() == 0
	}
	var callbacks []*flow.Val
	clientType := func(v *flow.Val) *types.Var {
		if v == nil || v.T == nil || structOf(deref(v.T)) == nil {
			return nil
		}
		return fieldNamed(deref(v.T), "Timeout")
	}
	fracs := map[string]*big.Rat{}
	asked := false   // a heartbeat is sent
	lossEnd := false // some path ends because the timeout ran out
	is200 := func(st *flow.State) (can, must bool) {
		resp := st.MonV["resp"]
		if resp == nil {
			return false, false
		}
		sc := e.LoadPath(st, resp, "StatusCode")
		if sc == nil {
			return false, false
		}
		can = st.Clone().Restrict(sc, flow.Int(200), flow.EQ)
		must = can && !st.Clone().Restrict(sc, flow.Int(200), flow.LT|flow.GT)
		return
	}
	refused := func(st *flow.State) bool {
		resp := st.MonV["resp"]
		if resp == nil {
			return false
		}
		sc := e.LoadPath(st, resp, "StatusCode")
		if sc == nil {
			return false
		}
		return !st.Clone().Restrict(sc, flow.Int(400), flow.LT) && !st.Clone().Restrict(sc, flow.Int(499), flow.GT)
	}
	renewed := map[string]bool{}
	// endIteration checks what one turn of the heartbeats did
	endIteration := func(st *flow.State, in ssa.Instruction) {
		can, must := is200(st)
		if st.Mon["reset"] > 0 {
			renewed["timer"] = true
			if !must {
				fail(st, in, "alive", "renewed", "its timeout starts anew although no heartbeat was taken")
			}
		}
		if can && st.Mon["reset"] == 0 && st.Mon["losstimer"] > 0 {
			fail(st, in, "alive", "not renewed", "its timeout does not start anew although a heartbeat was taken")
		}
		bad := st.Mon["failed"] > 0 || st.Mon["unsent"] > 0 || st.MonV["resp"] != nil && !can
		if bad && st.Mon["reported"] == 0 && st.Mon["ended"] == 0 && st.Mon["sawend"] == 0 {
			for _, cb := range callbacks {
				if st.IsNil(cb) != 1 {
					fail(st, in, "alive", "not told", "a heartbeat failed and the holder's callback is not told")
				}
			}
		}
		if st.Mon["reported"] > 0 && must && st.Mon["unread"] == 0 {
			fail(st, in, "alive", "told wrongly", "a heartbeat that was taken is reported as failed")
		}
		if st.Mon["reported"] > 1 {
			fail(st, in, "alive", "told twice", "a failed heartbeat is reported more than once")
		}
		if can {
			st.Set("everok", 1)
			delete(st.Mon, "noks")
		}
		// what was read from the clock in this turn
		cur := flow.Root("now:cur", timeType(c))
		to := "now:old"
		if must {
			to = "now:ok"
		}
		if cur.T != nil {
			st.Replace(cur, flow.Root(to, cur.T))
		}
		for _, n := range []string{"failed", "unsent", "reported", "reset", "tick", "sent", "unread", "sawend"} {
			delete(st.Mon, n)
		}
		for _, n := range []string{"resp", "req", "reqctx", "into", "method", "url", "reqbody", "since"} {
			delete(st.MonV, n)
		}
	}
	// within: is the time since the last heartbeat known to be under (or over) a part of the timeout?
	since := func(st *flow.State, over bool) (bool, *flow.Val) {
		found := false
		var last *flow.Val
		st.Facts(func(x, y *flow.Val, bits int) {
			for i := 0; i < 2; i++ {
				if x.K == flow.KTerm && x.S == "since" && !strings.Contains(x.Key(), "~") {
					if f, ok := fraction(y, unit); ok && f.Sign() > 0 && f.Cmp(ratOne) <= 0 {
						want := bits&flow.GT == 0 && bits&flow.LT != 0
						if over {
							want = bits&flow.LT == 0 && bits != 0
						}
						if want {
							found = true
							last = x.Args[0]
						}
					}
				}
				x, y = y, x
				bits = flipBits(bits)
			}
		})
		return found, last
	}
	h := k.hooks(c, func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) {
		asked = true
		st.Set("sent", 1)
		if st.Mon["ended"] > 0 {
			fail(st, ci.Instr, "told", "after the end", "a heartbeat is sent after it was given up")
		}
		if st.Mon["tick"] == 0 {
			fail(st, ci.Instr, "alive", "pace", "a heartbeat is sent without waiting for its turn")
		}
		// bounded
		bounded := false
		if ctx := st.MonV["reqctx"]; ctx != nil && strings.Contains(ctx.Key(), "bounded context") {
			bounded = true
		}
		if f := clientType(ci.Args[0]); f != nil {
			if fr, ok := fraction(e.LoadField(st, ci.Args[0], f), unit); ok && fr.Sign() > 0 && fr.Cmp(ratOne) <= 0 {
				bounded = true
			}
		}
		if !bounded {
			fail(st, ci.Instr, "lost", "unbounded", "a heartbeat that is never answered is waited for beyond the timeout")
		}
		// a loss is noticed: by a timer that is waited for, or by the clock before each heartbeat
		if st.Mon["losstimer"] == 0 {
			ok, last := since(st, false)
			if !ok {
				fail(st, ci.Instr, "lost", "unnoticed", "heartbeats go on however long none was taken")
			} else if last != nil && (strings.Contains(last.Key(), "now:old") || strings.Contains(last.Key(), "now:start") && st.Mon["everok"] > 0) {
				fail(st, ci.Instr, "lost", "measured", "the timeout is not measured from the last heartbeat that was taken")
			}
		}
		k.names(c, e, st, ci, args, "heartbeat")
	})
	inner := h.Call
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if ci.Go {
			fail(st, ci.Instr, "alive", "alone", "the heartbeats start a goroutine, what that does is not followed")
			return []flow.Exit{{St: st, Pos: ci.Pos}}, true
		}
		if m := callee(ci); m != nil {
			switch m.FullName() {
			case "time.NewTicker", "time.NewTimer", "time.Tick", "time.After":
				f, ok := fraction(ci.Args[0], unit)
				if !ok || f.Sign() <= 0 {
					fail(st, ci.Instr, "alive", "pace", "it waits for a time that is not a part of its timeout")
					f = ratOne
				}
				ch := flow.Root("timerchan "+f.RatString()+" "+m.Name()+c.P.Pos(ci.Pos), nil)
				fracs[ch.Key()] = f
				if m.Name() == "Tick" || m.Name() == "After" {
					v := flow.Root(ch.S[1:], ci.Res.At(0).Type())
					fracs[v.Key()] = f
					return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
				}
				v := e.FreshAlloc(st, ci.Instr, ci.Res.At(0).Type())
				if fc := fieldNamed(v.T, "C"); fc != nil {
					cv := flow.Root(strings.TrimPrefix(ch.S, "$"), fc.Type())
					fracs[cv.Key()] = f
					st.Store(flow.FieldAddr(v, fc), cv)
				}
				return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
			case "(*time.Ticker).Reset", "(*time.Timer).Reset":
				f, ok := fraction(ci.Args[1], unit)
				if !ok || f.Sign() <= 0 || f.Cmp(ratOne) > 0 {
					fail(st, ci.Instr, "lost", "renewed", "its timeout starts anew with another length")
				}
				if fc := fieldNamed(ci.Args[0].T, "C"); fc != nil {
					if cv := e.LoadField(st, ci.Args[0], fc); cv != nil && fracs[cv.Key()] != nil && fracs[cv.Key()].Cmp(ratThird) <= 0 {
						return e.Unknown(st, ci), true // the pace of the heartbeats
					}
				}
				st.Set("reset", 1)
				return e.Unknown(st, ci), true
			case "time.Now":
				nm := "now:start"
				if st.Mon["turns"] > 0 {
					nm = "now:cur"
				}
				return []flow.Exit{{St: st, Res: []*flow.Val{flow.Root(nm, ci.Res.At(0).Type())}, Pos: ci.Pos}}, true
			case "time.Since":
				v := flow.Term("since", ci.Res.At(0).Type(), ci.Args[0], e.Fresh(st, ci.Instr, "at", ci.Res.At(0).Type()))
				st.MonV["since"] = v
				return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
			case "(time.Time).Sub":
				v := flow.Term("since", ci.Res.At(0).Type(), ci.Args[1], e.Fresh(st, ci.Instr, "at", ci.Res.At(0).Type()))
				st.MonV["since"] = v
				return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
			case "(time.Time).Add":
				return []flow.Exit{{St: st, Res: []*flow.Val{flow.Term("later", ci.Res.At(0).Type(), ci.Args[0], ci.Args[1])}, Pos: ci.Pos}}, true
			case "(time.Time).Before", "(time.Time).After":
				now, at := flow.Strip(ci.Args[0]), flow.Strip(ci.Args[1])
				under, over := flow.LT, flow.GT|flow.EQ // what "now before at" means for the time since, when true and when false
				if m.Name() == "After" {
					under, over = flow.GT, flow.LT|flow.EQ
				}
				if now.K == flow.KTerm && now.S == "later" {
					now, at = at, now
					under, over = flipBits(under), flipBits(over)
				}
				if at.K != flow.KTerm || at.S != "later" || !strings.Contains(now.Key(), "now:") {
					break
				}
				v := flow.Term("since", at.Args[1].T, at.Args[0], e.Fresh(st, ci.Instr, "at", at.Args[1].T))
				st.MonV["since"] = v
				y, n := st.Clone(), st
				y.Restrict(v, at.Args[1], under)
				n.Restrict(v, at.Args[1], over)
				return []flow.Exit{{St: y, Res: []*flow.Val{flow.Bool(true)}, Pos: ci.Pos}, {St: n, Res: []*flow.Val{flow.Bool(false)}, Pos: ci.Pos}}, true
			case "time.Until":
				if at := flow.Strip(ci.Args[0]); at.K == flow.KTerm && at.S == "later" {
					v := flow.Term("since", ci.Res.At(0).Type(), at.Args[0], e.Fresh(st, ci.Instr, "at", ci.Res.At(0).Type()))
					st.MonV["since"] = v
					return []flow.Exit{{St: st, Res: []*flow.Val{flow.Term("op-", ci.Res.At(0).Type(), at.Args[1], v)}, Pos: ci.Pos}}, true
				}
			case "context.WithTimeout":
				f, ok := fraction(ci.Args[1], unit)
				nm := "context"
				if ok && f.Sign() > 0 && f.Cmp(ratOne) <= 0 {
					nm = "bounded context"
				}
				return []flow.Exit{{St: st, Res: []*flow.Val{flow.Root(nm, ci.Res.At(0).Type()), e.Fresh(st, ci.Instr, "cancel", ci.Res.At(1).Type())}, Pos: ci.Pos}}, true
			}
			if m.FullName() == "encoding/json.Marshal" || strings.HasPrefix(m.FullName(), "net/http.NewRequest") {
				ex, ok := inner(e, st, ci)
				for i := range ex {
					if n := len(ex[i].Res); n > 0 && ex[i].St.IsNil(ex[i].Res[n-1]) != 1 {
						ex[i].St.Set("unsent", 1)
					}
				}
				return ex, ok
			}
		}
		if ci.Fn == nil && ci.Method == nil && ci.FnVal != nil && sigErr(ci.FnVal.T) {
			st.Inc("reported", 1)
			return []flow.Exit{{St: st, Pos: ci.Pos}}, true
		}
		if ci.Fn == nil && ci.Method == nil && ci.FnVal != nil && ci.FnVal.K != flow.KFn && len(ci.Args) == 0 {
			// the clean-up that was given
			if st.Mon["closed done"] > 0 {
				fail(st, ci.Instr, "told", "order", "the watchers are told before it is cleaned up")
			}
			st.Inc("cleaned", 1)
			return e.Unknown(st, ci), true
		}
		ex, ok := inner(e, st, ci)
		if !ok && ci.Fn != nil && strings.Contains(ci.Fn.Name(), "Encode") {
			return nil, false
		}
		return ex, ok
	}
	h.After = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo, x *flow.Exit) {
		// a request that does not pass its own check is not sent either
		if ci.Fn != nil && strings.HasPrefix(ci.Fn.Name(), "ModelEncode") && len(x.Res) == 2 && x.St.IsNil(x.Res[1]) != 1 {
			x.St.Set("unsent", 1)
		}
	}
	h.Close = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) { k.closeEvent(c, e, st, ch, in) }
	isDone := func(ch *flow.Val) bool {
		return sameVal(ch, e.LoadField(g.st, obj, k.fDone))
	}
	h.Select = func(e *flow.Engine, st *flow.State, in *ssa.Select, chans []*flow.Val) {
		if !in.Blocking {
			return
		}
		endIteration(st, in)
		st.Set("turns", 1)
		gotDone, pace := false, false
		st.Set("losstimer", 0)
		for i, ch := range chans {
			if in.States[i].Dir == types.SendOnly {
				continue
			}
			if isDone(ch) {
				gotDone = true
			}
			if f := fracs[flow.Strip(ch).Key()]; f != nil {
				if f.Cmp(ratThird) <= 0 {
					pace = true
				} else if f.Cmp(ratOne) <= 0 {
					st.Set("losstimer", 1)
				}
			}
		}
		c.Check(gotDone, "lost", k.name+": given up", c.P.Pos(in.Pos()), k.name+": the heartbeats go on after it was given up")
		c.Check(pace, "alive", k.name+": pace", c.P.Pos(in.Pos()), k.name+": it is not heartbeated three times per timeout")
	}
	h.Recv = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) (*flow.Val, bool) {
		if st.Mon["ended"] > 0 {
			if sel, ok := in.(*ssa.Select); ok && sel.Blocking {
				fail(st, in, "told", "goes on", "the heartbeats go on after it was given up or lost")
			}
		}
		switch {
		case isDone(ch):
			if sel, ok := in.(*ssa.Select); ok && !sel.Blocking {
				st.Set("sawend", 1)
			} else {
				st.Set("ended", 1)
			}
			st.Note(in.Pos(), "given up")
		case fracs[flow.Strip(ch).Key()] != nil:
			if fracs[flow.Strip(ch).Key()].Cmp(ratThird) <= 0 {
				st.Set("tick", 1)
				st.Note(in.Pos(), "a heartbeat is due")
			} else {
				st.Set("ranout", 1)
				st.Note(in.Pos(), "the timeout ran out")
			}
		default:
			fail(st, in, "lost", "waits", "it waits for something else than its turn, its timeout and being given up")
		}
		return nil, true
	}
	e = c.Engine(h)
	st := g.st.Clone()
	st.MonV["obj"] = obj
	unit = k.unit(st, e, obj)
	// what may be changed later on
	s := structOf(k.typ)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if sigErr(f.Type()) {
			v := flow.Root("callback", f.Type())
			st.Store(flow.FieldAddr(obj, f), v)
			callbacks = append(callbacks, v)
		}
	}
	for _, a := range args {
		if a.T != nil && sigErr(a.T) {
			callbacks = append(callbacks, a)
		}
	}
	for _, x := range e.Call(st, &flow.CallInfo{Instr: g.call.Instr, Pos: g.call.Pos, Fn: g.call.Fn, FnVal: g.fn, Args: g.args, Res: g.call.Res, Caller: g.call.Caller}) {
		bad := func(rule, construct, what string) {
			c.Fail(rule, k.name+": "+construct, c.P.Pos(x.Pos), k.name+": "+what, e.Witness(x.St.Tr, 40)...)
		}
		if x.Panic {
			bad("told", "crash", "the heartbeats end in a crash")
			continue
		}
		n := x.St.Mon
		over, last := since(x.St, true)
		how := ""
		switch {
		case n["ended"] > 0 || n["sawend"] > 0:
			how = "given up"
		case n["ranout"] > 0:
			how = "lost"
			lossEnd = true
		case over && n["sent"] == 0:
			how = "lost"
			lossEnd = true
			if last != nil && (strings.Contains(last.Key(), "now:old") || strings.Contains(last.Key(), "now:start") && n["everok"] > 0) {
				bad("lost", "measured", "the timeout is not measured from the last heartbeat that was taken")
			}
		case refused(x.St):
			how = "refused"
		case n["unsent"] > 0 && n["sent"] == 0:
			how = "unsendable"
		default:
			bad("lost", "early", "the heartbeats end although it was not given up, not refused and its timeout did not run out")
		}
		c.Ob("lost", k.name+": end: "+how)
		if how == "refused" || how == "unsendable" {
			y := x.St.Clone()
			endIteration(y, nil)
		}
		if n["stopped"] == 0 {
			bad("told", "not told", "the heartbeats end ("+how+") and those that watch it are not told")
		}
		for f := range k.waited {
			if n["closed "+f.Name()] != 1 {
				bad("told", "released", "the heartbeats end ("+how+") without releasing, once, those that wait for it")
			}
		}
		c.Ob("told", k.name+": end: "+how)
	}
	c.Check(asked, "alive", k.name+": sent", c.P.Pos(k.ctor.Pos()), k.name+": no heartbeat is ever sent")
	c.Check(lossEnd, "lost", k.name+": noticed", c.P.Pos(k.ctor.Pos()), k.name+": it is never lost, however long no heartbeat was taken")
	c.Done("alive", e)
}

func timeType(c *Ctx) types.Type {
	for _, fn := range c.P.AllFuncs {
		if fn.Pkg == nil {
			continue
		}
		for _, imp := range fn.Pkg.Pkg.Imports() {
			if imp.Path() == "time" {
				return imp.Scope().Lookup("Time").Type()
			}
		}
	}
	return nil
}

func flipBits(b int) int {
	r := b & flow.EQ
	if b&flow.LT != 0 {
		r |= flow.GT
	}
	if b&flow.GT != 0 {
		r |= flow.LT
	}
	return r
}

// closeEvent: what is watched is closed only where that can happen once.
func (k *kept) closeEvent(c *Ctx, e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) {
	s := structOf(k.typ)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		for _, o := range []*flow.Val{st.MonV["obj"]} {
			if o == nil || !sameVal(ch, e.LoadField(st, o, f)) {
				continue
			}
			st.Inc("closed "+f.Name(), 1)
			if f == k.fDone {
				st.Set("closed done", 1)
				if st.Mon["once"] == 0 {
					c.Fail("told", k.name+": closed once", c.P.Pos(in.Pos()), k.name+": what the watchers wait for is closed where that can happen twice", e.Witness(st.Tr, 20)...)
				}
			}
			return
		}
	}
	c.Fail("told", k.name+": other", c.P.Pos(in.Pos()), k.name+": a channel is closed that is none of its own", e.Witness(st.Tr, 20)...)
}

// names: the request says what is held, as the service named it.
func (k *kept) names(c *Ctx, e *flow.Engine, st *flow.State, ci *flow.CallInfo, args []*flow.Val, what string) {
	var answer *flow.Val
	for _, a := range args {
		if a.T != nil && structOf(deref(a.T)) != nil && fieldNamed(deref(a.T), "State") != nil {
			answer = a
		}
	}
	body := st.MonV["reqbody"]
	if answer == nil || body == nil {
		c.Fail("given up", k.name+": "+what+" names", c.P.Pos(ci.Pos), k.name+": the "+what+" does not say what is held", e.Witness(st.Tr, 20)...)
		return
	}
	var obj *flow.Val
	flow.Contains(body, func(x *flow.Val) bool {
		if x.K == flow.KTerm && x.S == "json" {
			obj = x.Args[0]
		}
		return false
	})
	source := map[string][]string{
		"SessionID": {"State", "SessionID"}, "LockID": {"State", "LockID"}, "ItemID": {"State", "ID"},
		"KeyValues": {"Spec", "DBDefinition", "KeyValues"},
	}
	found := 0
	if obj != nil && structOf(deref(obj.T)) != nil {
		s := structOf(deref(obj.T))
		for i := 0; i < s.NumFields(); i++ {
			p := source[s.Field(i).Name()]
			if p == nil {
				continue
			}
			found++
			got, want := e.LoadPath(st, obj, s.Field(i).Name()), e.LoadPath(st, answer, p...)
			if got == nil || want == nil || !sameVal(got, want) {
				c.Fail("given up", k.name+": "+what+" names", c.P.Pos(ci.Pos), fmt.Sprintf("%s: the %s's %s is not the one the service answered with", k.name, what, s.Field(i).Name()), e.Witness(st.Tr, 20)...)
			}
		}
	}
	if found == 0 {
		c.Fail("given up", k.name+": "+what+" names", c.P.Pos(ci.Pos), k.name+": the "+what+" does not say what is held", e.Witness(st.Tr, 20)...)
	}
	// what the path names
	_, holes := pathPattern(urlParts(e, st, st.MonV["url"]))
	for _, hv := range holes {
		ok := false
		for _, p := range [][]string{{"State", "LockID"}} {
			if w := e.LoadPath(st, answer, p...); w != nil && sameVal(hv, w) {
				ok = true
			}
		}
		for i, a := range args {
			if i > 0 && a.T != nil && types.Identical(a.T.Underlying(), types.Typ[types.String]) && sameVal(hv, a) && !sameVal(hv, args[0]) {
				ok = true
			}
		}
		if !ok {
			c.Fail("given up", k.name+": "+what+" names", c.P.Pos(ci.Pos), k.name+": the "+what+"'s path does not name what is held", e.Witness(st.Tr, 20)...)
		}
	}
	c.Ob("given up", k.name+": "+what+" names")
}

func (k *kept) giveUp(c *Ctx, fn *ssa.Function, made *flow.State, obj *flow.Val, args []*flow.Val) {
	var e *flow.Engine
	fail := func(st *flow.State, in ssa.Instruction, construct, what string) {
		pos := c.P.Pos(fn.Pos())
		if in != nil {
			pos = c.P.Pos(in.Pos())
		}
		c.Fail("given up", k.name+": "+fn.Name()+": "+construct, pos, fn.Name()+": "+what, e.Witness(st.Tr, 30)...)
	}
	passed := -1
	var margs []*flow.Val
	_, recvFields := sentFields(fn)
	s := structOf(k.typ)
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); recvFields[f] && f != k.fDone {
			k.waited[f] = true
		}
	}
	h := k.hooks(c, func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) {
		st.Inc("asked", 1)
		if st.Mon["asked"] > 1 {
			fail(st, ci.Instr, "once", "the service is asked more than once")
		}
		if st.Mon["stopped"] == 0 {
			fail(st, ci.Instr, "order", "the service is asked while the heartbeats still run")
		}
		for f := range k.waited {
			if st.Mon["waited "+f.Name()] == 0 {
				fail(st, ci.Instr, "order", "the service is asked while a heartbeat may still be on its way")
			}
		}
		if st.Mon["claimed"] > 0 && len(k.waited) == 0 {
			fail(st, ci.Instr, "order", "the service is asked while a heartbeat may still be on its way")
		}
		if len(k.waited) > 0 && st.Mon["claimed"] != 1 {
			fail(st, ci.Instr, "once", "the service may be asked once more")
		}
		k.names(c, e, st, ci, args, "request that gives it up")
		if passed >= 0 {
			if b := st.MonV["reqbody"]; b != nil {
				var o *flow.Val
				flow.Contains(b, func(x *flow.Val) bool {
					if x.K == flow.KTerm && x.S == "json" {
						o = x.Args[0]
					}
					return false
				})
				if o == nil || e.LoadPath(st, o, "Passed") == nil || !sameVal(e.LoadPath(st, o, "Passed"), margs[passed]) {
					fail(st, ci.Instr, "outcome", "the outcome sent is not the one given")
				}
			}
		}
	})
	inner := h.Call
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if ci.Go {
			fail(st, ci.Instr, "alone", "it starts a goroutine, what that does is not followed")
			return []flow.Exit{{St: st, Pos: ci.Pos}}, true
		}
		if ci.Fn == nil && ci.Method == nil && ci.FnVal != nil && ci.FnVal.K != flow.KFn && len(ci.Args) == 0 {
			if st.Mon["closed done"] > 0 {
				c.Fail("told", k.name+": order", c.P.Pos(ci.Pos), k.name+": the watchers are told before it is cleaned up", e.Witness(st.Tr, 20)...)
			}
			st.Inc("cleaned", 1)
			return e.Unknown(st, ci), true
		}
		return inner(e, st, ci)
	}
	h.Close = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) { k.closeEvent(c, e, st, ch, in) }
	h.Recv = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) (*flow.Val, bool) {
		known := false
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if sameVal(ch, e.LoadField(st, obj, f)) {
				st.Set("waited "+f.Name(), 1)
				known = true
				if f != k.fDone && st.Mon["stopped"] == 0 {
					fail(st, in, "waits", "it waits for the heartbeats to end before they are stopped")
				}
			}
		}
		if !known {
			fail(st, in, "waits", "it waits for something that is not its own")
		}
		return nil, true
	}
	e = c.Engine(h)
	st := made.Clone()
	st.Mon = map[string]int{}
	margs = []*flow.Val{obj}
	for i, p := range fn.Params {
		if i == 0 {
			continue
		}
		margs = append(margs, flow.Root(fmt.Sprintf("%s%d", p.Name(), i), p.Type()))
		if types.Identical(p.Type().Underlying(), types.Typ[types.Bool]) {
			passed = i
		}
	}
	st.MonV["obj"] = obj
	asked := false
	for _, x := range e.Analyze(fn, margs, nil, st) {
		if x.Panic {
			fail(x.St, nil, "crash", "it ends in a crash")
			continue
		}
		n := x.St.Mon
		if n["asked"] > 0 {
			asked = true
		}
		if n["late"] == 0 && n["stopped"] == 0 {
			fail(x.St, nil, "stopped", "it ends without stopping the heartbeats")
		}
		if n["late"] > 0 && n["claimed"] == 0 {
			if n["asked"] > 0 || x.St.IsNil(x.Res[0]) != 0 {
				fail(x.St, nil, "once", "done a second time it does not report an error, or asks the service again")
			}
		}
		if n["late"] == 0 && n["asked"] == 0 && x.St.IsNil(x.Res[0]) != 0 {
			fail(x.St, nil, "asked", "it reports no error although the service was not asked")
		}
		// the clean-up and the telling happen together
		if n["cleaned"] > 1 {
			fail(x.St, nil, "cleaned", "it is cleaned up more than once")
		}
		if n["closed done"] > 0 && n["cleaned"] == 0 && k.cleans(args) {
			fail(x.St, nil, "cleaned", "the watchers are told and it is not cleaned up")
		}
	}
	c.Check(asked, "given up", k.name+": "+fn.Name(), c.P.Pos(fn.Pos()), fn.Name()+": the service is never asked")
	c.Done("given up", e)
}

// cleans: is a new one given something to clean up with?
func (k *kept) cleans(args []*flow.Val) bool {
	for _, a := range args {
		if a.T == nil {
			continue
		}
		if sg, ok := a.T.Underlying().(*types.Signature); ok && sg.Params().Len() == 0 && sg.Results().Len() == 0 {
			return true
		}
	}
	return false
}

// obtainCheck: the locker client's tree of held locks.
func obtainCheck(c *Ctx, ks []*kept) error {
	const r = "obtained"
	var k *kept
	for _, x := range ks {
		if strings.HasSuffix(x.pkg, "/locker_client") {
			k = x
		}
	}
	if k == nil {
		return fmt.Errorf("the locker client's lock was not found")
	}
	fn, err := c.P.Method("pkg/clients/locker_client", "LockClient", "ObtainLock")
	if err != nil {
		return err
	}
	var e *flow.Engine
	fail := func(st *flow.State, pos, construct, what string) {
		c.Fail(r, construct, pos, "ObtainLock: "+what, e.Witness(st.Tr, 30)...)
	}
	st := flow.NewState()
	args := rootArgs(fn, st)
	req := args[2]
	h := k.hooks(c, func(*flow.Engine, *flow.State, *flow.CallInfo) {})
	inner := h.Call
	kvOf := func(st *flow.State, key *flow.Val) bool {
		want := e.LoadPath(st, req, "Spec", "DBDefinition", "KeyValues")
		return want != nil && flow.Contains(key, func(x *flow.Val) bool { return sameVal(x, want) })
	}
	tm := &TreeModel{}
	tm.OnCreate = func(e *flow.Engine, st *flow.State, tree, key, val *flow.Val, in ssa.Instruction) {
		st.MonV["kept"] = val
	}
	tm.OnRemove = func(e *flow.Engine, st *flow.State, tree, key, item *flow.Val, in ssa.Instruction) {
		st.Set("removed", 1)
	}
	tm.OnOp = func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
		if !kvOf(st, key) {
			fail(st, c.P.Pos(in.Pos()), "key", "the lock is remembered, looked up or forgotten under other key values than the request's")
		}
		st.Set(outcome, 1)
	}
	var cleanup []*flow.State
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if ci.Fn == k.ctor {
			v := flow.Root("newlock", ci.Res.At(0).Type())
			st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
			st.Inc("made", 1)
			for i, a := range ci.Args {
				if sg, ok := k.ctor.Params[i].Type().Underlying().(*types.Signature); ok && sg.Params().Len() == 0 {
					s := st.Clone()
					s.MonV["cleanup"] = a
					cleanup = append(cleanup, s)
				}
				if p := k.ctor.Params[i].Type(); structOf(deref(p)) != nil && fieldNamed(deref(p), "State") != nil {
					if into := st.MonV["into"]; into == nil || !sameVal(a, into) {
						fail(st, c.P.Pos(ci.Pos), "answer", "the lock is not made from what the service answered")
					}
				}
			}
			if can, sc := st.MonV["resp"], (*flow.Val)(nil); can != nil {
				sc = e.LoadPath(st, can, "StatusCode")
				if sc == nil || st.Clone().Restrict(sc, flow.Int(200), flow.LT|flow.GT) || st.Mon["unread"] > 0 {
					fail(st, c.P.Pos(ci.Pos), "granted", "a lock is made although the service did not grant one, or its answer could not be read")
				}
			}
			return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
		}
		if _, op, _, _ := treeKind(ci); op != "" {
			return tm.Call(e, st, ci)
		}
		if m := callee(ci); m != nil && m.FullName() == "time.Sleep" {
			return e.Unknown(st, ci), true
		}
		return inner(e, st, ci)
	}
	h.Recv = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) (*flow.Val, bool) {
		if isCtxDone(ch) {
			st.Set("ctxdone", 1)
		}
		return nil, true
	}
	e = c.Engine(h)
	kinds := map[string]bool{}
	for _, x := range e.Analyze(fn, args, nil, st) {
		pos := c.P.Pos(x.Pos)
		if x.Panic {
			fail(x.St, pos, "crash", "this path ends in a crash")
			continue
		}
		n := x.St.Mon
		lock, er := x.Res[0], x.Res[1]
		isLock := strings.Contains(flow.Strip(lock).Key(), "$newlock")
		switch {
		case n["made"] > 0:
			kinds["granted"] = true
			if !isLock || x.St.IsNil(er) != 1 {
				fail(x.St, pos, "answer", "the service granted a lock, which is not what is answered")
			}
			if kv := x.St.MonV["kept"]; kv == nil || !strings.Contains(flow.Strip(kv).Key(), "$newlock") {
				fail(x.St, pos, "kept", "a lock is granted and heartbeats run, but it is not remembered")
			}
		case n["found"] > 0:
			kinds["found"] = true
			if x.St.IsNil(er) != 1 || isLock || x.St.IsNil(lock) == 1 {
				fail(x.St, pos, "found", "the lock that is already held is not what is answered")
			}
		default:
			if x.St.MonV["kept"] != nil {
				fail(x.St, pos, "kept", "something is remembered although no lock was granted")
			}
			if x.St.IsNil(lock) != 1 {
				fail(x.St, pos, "nothing", "a lock is answered although none was granted or held")
			}
			if x.St.IsNil(er) != 0 && n["ctxdone"] == 0 {
				fail(x.St, pos, "nothing", "it answers neither a lock nor an error although the caller did not give up")
			}
			if n["ctxdone"] > 0 {
				kinds["given up"] = true
			}
		}
	}
	for _, w := range []string{"granted", "found", "given up"} {
		c.Check(kinds[w], r, w, c.P.Pos(fn.Pos()), "ObtainLock: it never answers a lock that is "+w)
	}
	if len(cleanup) == 0 {
		c.Fail(r, "forgotten", c.P.Pos(fn.Pos()), "ObtainLock: a lock is made that is never forgotten")
	}
	for _, s := range cleanup {
		cb := s.MonV["cleanup"]
		s.Mon = map[string]int{}
		if cb.K != flow.KFn {
			fail(s, c.P.Pos(fn.Pos()), "forgotten", "what a lock does at its end cannot be followed")
			continue
		}
		removed := false
		for _, x := range e.Call(s, &flow.CallInfo{Instr: nil, Pos: fn.Pos(), Fn: cb.Fn, FnVal: cb, Res: cb.Fn.Signature.Results(), Caller: fn}) {
			if x.Panic {
				continue
			}
			if x.St.Mon["removed"] > 0 {
				removed = true
			} else if x.St.Mon["absent"] == 0 && x.St.Mon["error"] == 0 {
				fail(x.St, c.P.Pos(x.Pos), "forgotten", "a lock that ended stays remembered")
			}
		}
		c.Check(removed, r, "forgotten", c.P.Pos(fn.Pos()), "ObtainLock: a lock that ended stays remembered")
	}
	c.Done(r, e)
	return nil
}
