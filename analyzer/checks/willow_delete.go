package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

const (
	relQC   = "internal/willow/brokers/queue_channels"
	pkgQC   = "/willow/brokers/queue_channels"
	pkgQCon = "/queue_channels/constructor"
)

// implOf finds the one production type that implements an interface of the module.
func implOf(c *Ctx, rel, iface string) (types.Type, error) {
	t, err := c.P.Named(rel, iface)
	if err != nil {
		return nil, err
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil, fmt.Errorf("%s.%s is no interface", rel, iface)
	}
	impls := c.P.Implementers(it)
	if len(impls) != 1 {
		return nil, fmt.Errorf("expected one implementation of %s.%s, found %d", rel, iface, len(impls))
	}
	return impls[0], nil
}

func methodOf(c *Ctx, t types.Type, name string) (*ssa.Function, error) {
	ms := c.P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			if f := c.P.SSA.MethodValue(ms.At(i)); f != nil {
				return f, nil
			}
		}
	}
	return nil, fmt.Errorf("%s has no method %s", t, name)
}

// lc is the analysis of the local client that keeps all channels.
type lc struct {
	c    *Ctx
	typ  types.Type
	rule string
	// deleting: what a concurrent deletion of the queue makes tree operations answer
	deleting bool
	// bodies of goroutines, and callbacks given to new channels, with the state they start in
	spawned []lcSpawn
	tm      *TreeModel
}

type lcSpawn struct {
	what string
	fn   *flow.Val
	st   *flow.State
	args []*flow.Val
}

// chanCall models the operations of one queue channel, and notes them.
func (l *lc) chanCall(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
	if ci.Method == nil || !methodIs(ci.Method, pkgQCon) {
		return nil, false
	}
	name := ci.Method.Name()
	recv := flow.Strip(ci.Recv)
	one := func(v ...*flow.Val) ([]flow.Exit, bool) {
		return []flow.Exit{{St: st, Res: v, Pos: ci.Pos}}, true
	}
	st.Inc("ch:"+name, 1)
	st.MonV["ch:"+name] = recv
	for i, a := range ci.Args {
		st.MonV[fmt.Sprintf("ch:%s:%d", name, i)] = a
	}
	st.Note(ci.Pos, "channel: %s", name)
	res := func(s *flow.State, i int) *flow.Val {
		v := e.Fresh(s, ci.Instr, name, ci.Res.At(i).Type())
		s.MonV[fmt.Sprintf("ch:%s:res%d", name, i)] = v
		return v
	}
	switch name {
	case "New":
		for _, a := range ci.Args {
			if _, ok := a.T.Underlying().(*types.Signature); ok || a.K == flow.KFn {
				l.spawned = append(l.spawned, lcSpawn{"the callback of a channel whose item timed out", a, st.Clone(), nil})
			}
		}
		v := res(st, 0)
		st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
		return one(v)
	case "Dequeue":
		return one(flow.Term("deqchan", ci.Res.At(0).Type(), recv))
	case "Delete":
		return one(res(st, 0))
	case "Enqueue", "ACK", "Heartbeat":
		n := ci.Res.Len()
		var out []flow.Exit
		for _, failed := range []bool{false, true} {
			s := st.Clone()
			var rs []*flow.Val
			for i := 0; i < n-1; i++ {
				rs = append(rs, res(s, i))
			}
			er := flow.NilOf(ci.Res.At(n - 1).Type())
			if failed {
				er = serverErr(e, s, ci, ci.Res.At(n-1).Type(), name+"err")
				s.Set("ch:"+name+":failed", 1)
			}
			s.MonV["ch:"+name+":err"] = er
			out = append(out, flow.Exit{St: s, Res: append(rs, er), Pos: ci.Pos})
		}
		return out, true
	}
	return e.Unknown(st, ci), true
}

func (l *lc) hooks() *flow.Hooks {
	h := &flow.Hooks{}
	if l.tm == nil {
		l.tm = &TreeModel{}
	}
	l.tm.Err = func(tree *flow.Val, op string) bool { return l.deleting }
	l.tm.Errs = func(e *flow.Engine, st *flow.State, tree *flow.Val, op string) []*flow.Val {
		return []*flow.Val{treeGlobal(l.c, e, st, "internal/datastructures/btree_one_to_many", "ErrorOneIDDestroying")}
	}
	prev := l.tm.OnOp
	l.tm.OnOp = func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
		if outcome == "error" {
			st.Set("deleted", 1)
		}
		if prev != nil {
			prev(e, st, op, outcome, tree, key, in)
		}
	}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if ci.Go {
			fv := ci.FnVal
			if fv == nil && ci.Fn != nil {
				fv = flow.Closure(ci.Fn, nil)
			}
			if fv != nil && (len(ci.Args) == 0 || fv.K == flow.KFn && len(fv.Fn.Blocks) > 0 && len(fv.Fn.Params) == len(ci.Args)) {
				l.spawned = append(l.spawned, lcSpawn{"the goroutine started by " + l.c.fn(ci.Caller), fv, st.Clone(), ci.Args})
			}
			st.Set("go", 1)
			return []flow.Exit{{St: st, Pos: ci.Pos}}, true
		}
		if ex, ok := l.chanCall(e, st, ci); ok {
			return ex, true
		}
		if ex, ok := itemCall(st, ci); ok {
			return ex, true
		}
		if as, ok := queryCtor(ci); ok {
			m := callee(ci)
			return []flow.Exit{{St: st, Res: []*flow.Val{flow.Term("query:"+m.Name(), ci.Res.At(0).Type(), as...)}, Pos: ci.Pos}}, true
		}
		if m := callee(ci); m != nil && strings.HasSuffix(pkgPathOf(m), "/query_associated_action") && ci.Res.Len() == 1 {
			recv, as := argsOf(ci)
			if recv != nil {
				as = append([]*flow.Val{recv}, as...)
			}
			return []flow.Exit{{St: st, Res: []*flow.Val{flow.Term("query."+m.Name(), ci.Res.At(0).Type(), as...)}, Pos: ci.Pos}}, true
		}
		if ex, ok := l.tm.Call(e, st, ci); ok {
			return ex, true
		}
		if opaqueAmbient(ci) {
			return e.Unknown(st, ci), true
		}
		if ci.Method != nil && ci.Method.Name() == "AddExecuteTask" {
			y := st.Clone()
			y.Inc("task", 1)
			y.MonV["task"] = ci.Args[len(ci.Args)-1]
			st.Inc("task_refused", 1)
			return []flow.Exit{{St: y, Res: []*flow.Val{nilErr()}, Pos: ci.Pos}, {St: st, Res: []*flow.Val{freshErr(e, st, ci.Instr, "terr")}, Pos: ci.Pos}}, true
		}
		return nil, false
	}
	return h
}

func init() {
	register("W07", "deleting queues and channels", func(c *Ctx) error {
		if err := deletedMeanwhile(c); err != nil {
			return err
		}
		if err := channelDelete(c); err != nil {
			return err
		}
		if err := removals(c); err != nil {
			return err
		}
		c.Rule("queue-delete", "a queue is deleted by destroying its channels first and then itself, while nobody else can use it; it stays if either failed, and both failures are reported", 1)
		return queueLife(c, "queue-delete", "DeleteQueue")
	})
}

// deletedMeanwhile: what runs in the background does not stop the server when the queue or channel is deleted under it.
func deletedMeanwhile(c *Ctx) error {
	const r = "deleted-meanwhile"
	c.Rule(r, "what runs without keeping the queue from being deleted (goroutines, timeout callbacks, hand-out callbacks) neither stops the process nor leaves the channel's executor unanswered when the queue or channel is being deleted", 6)
	typ, err := implOf(c, relQC, "QueueChannelsClient")
	if err != nil {
		return err
	}
	l := &lc{c: c, typ: typ, rule: r}
	for _, n := range []string{"EnqueueQueueItem", "DequeueQueueItem"} {
		fn, err := methodOf(c, typ, n)
		if err != nil {
			return err
		}
		st := flow.NewState()
		e := c.Engine(l.hooks())
		e.Analyze(fn, rootArgs(fn, st), nil, st)
		c.Done(r, e)
	}
	l.deleting = true
	spawned := l.spawned
	seen := map[string]bool{}
	for i, sp := range spawned {
		fv := flow.Strip(sp.fn)
		if fv.K != flow.KFn || seen[fv.Key()] && i > 64 {
			continue
		}
		e := c.Engine(l.hooks())
		hit := false
		for _, x := range e.Analyze(fv.Fn, sp.args, fv.Args, sp.st) {
			if x.Panic && x.St.Mon["deleted"] != 0 {
				c.Fail(r, sp.what, c.P.Pos(x.Pos), sp.what+" stops the process when the queue is being deleted", e.Witness(x.St.Tr, 30)...)
			}
			hit = hit || x.St.Mon["deleted"] != 0
		}
		c.Done(r, e)
		if hit && !seen[sp.what] {
			seen[sp.what] = true
			c.Ob(r, sp.what)
		}
	}
	for _, k := range []string{"goroutine", "callback"} {
		ok := false
		for s := range seen {
			ok = ok || strings.Contains(s, k)
		}
		c.Check(ok, r, "some "+k, "-", "no "+k+" that looks for channels in the background was found")
	}

	// the channel itself
	w, err := willowAnchors(c)
	if err != nil {
		return err
	}
	entries, err := mqcEntries(c, w)
	if err != nil {
		return err
	}
	w.deleting = true
	for _, en := range entries {
		switch en.name {
		case "dequeue", "success callback", "failure callback", "heartbeat timeout":
		default:
			continue
		}
		e := c.Engine(mqcHooks(c, w, en.name))
		hit := false
		bad := func(x flow.Exit, what string) {
			c.Fail(r, en.name+": "+what, c.P.Pos(x.Pos), fmt.Sprintf("%s: %s (on this path: %s)", en.name, what, monInts(x.St)), e.Witness(x.St.Tr, 40)...)
		}
		for _, x := range e.Analyze(en.fn, en.args, en.bind, en.st) {
			n := x.St.Mon
			if n["destroying"] == 0 && n["gone"] == 0 || n["limerr"] != 0 && x.Panic {
				continue
			}
			hit = true
			if x.Panic {
				bad(x, "stops the process when the channel is being deleted")
				continue
			}
			ans := n["rsp_true"] + n["rsp_false"]
			switch en.name {
			case "dequeue":
				if len(x.Res) != 3 {
					continue
				}
				a, s, f := resNil(x, 0), resNil(x, 1), resNil(x, 2)
				if !(a == 1 && s == 1 && f == 1) && !(n["gone"] == 0 && n["hbnew"] > 0) {
					bad(x, "hands out an item although the channel's items are gone")
				}
				if a == 1 {
					if n["limerr"] == 0 && n["run"] != 0 {
						bad(x, "nothing is handed out but it stays counted as running")
					}
					if ans != 1 {
						bad(x, "nothing is handed out and the executor waits for ever")
					}
				}
			case "success callback", "failure callback":
				if ans != 1 {
					bad(x, "the executor waits for ever")
				}
				if en.name == "failure callback" && n["run"] != -1 && n["limerr"] == 0 {
					bad(x, "an undelivered item stays counted as running")
				}
			case "heartbeat timeout":
				if n["items"] != 0 || n["ids"] != 0 || n["notif"] != 0 {
					bad(x, "an item of a deleted channel is put back")
				}
			}
		}
		c.Done(r, e)
		c.Check(hit, r, en.name, c.P.Pos(en.fn.Pos()), "no path through "+en.name+" notices that the channel is being deleted")
	}
	return nil
}

// channelDelete: the two ways to delete one channel.
func channelDelete(c *Ctx) error {
	const r = "channel-delete"
	c.Rule(r, "a channel that may only go when empty goes exactly when it holds no items; a channel that goes in any case takes its items, their heartbeats and both its counters with it; either way its executor is told, once", 2)
	w, err := willowAnchors(c)
	if err != nil {
		return err
	}
	stop := stopChan(w)
	if stop == nil {
		return fmt.Errorf("the in-memory queue channel has no channel that tells its executor to stop")
	}
	for _, name := range []string{"Delete", "ForceDelete"} {
		fn, err := c.mqcMethod(name)
		if err != nil {
			return err
		}
		h := mqcHooks(c, w, name)
		call := h.Call
		h.Close = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) {
			if flow.FieldOf(ch) == stop {
				st.Inc("closed", 1)
				st.Note(in.Pos(), "executor told to stop")
				if st.Mon["inonce"] == 0 {
					st.Set("unguarded", 1)
				}
			}
		}
		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			if ci.Fn != nil && ci.Fn.String() == "(*sync.Once).Do" {
				// either this is the first time, or it was done before
				a := st.Clone()
				a.Set("inonce", 1)
				var out []flow.Exit
				for _, x := range e.CallValue(a, ci.Args[1], nil, ci.Instr) {
					x.Res = nil
					x.St.Set("inonce", 0)
					out = append(out, x)
				}
				st.Set("done before", 1)
				return append(out, flow.Exit{St: st, Pos: ci.Pos}), true
			}
			if kind, op, tree, args := treeKind(ci); kind == "btree" && flow.FieldOf(tree) == w.fItems && op != "Empty" {
				if op == "DestroyAll" || op == "Destroy" || op == "Delete" {
					st.Inc("destroy", 1)
					cb := args[len(args)-1]
					var out []flow.Exit
					if cb.K == flow.KNil {
						st.Set("heartbeats kept", 1)
						return []flow.Exit{{St: st, Res: []*flow.Val{nilErr()}, Pos: ci.Pos}}, true
					}
					for _, x := range e.CallValue(st.Clone(), cb, []*flow.Val{e.Fresh(st, ci.Instr, "key", sigOf2(cb, 0)), e.Fresh(st, ci.Instr, "treeitem", sigOf2(cb, 1))}, ci.Instr) {
						if x.Panic {
							continue
						}
						if len(x.Res) != 1 || x.St.Truth(x.Res[0]) != 1 {
							x.St.Set("kept", 1)
						}
						if x.St.Mon["hbstop"] == 0 && x.St.Mon["hbnil"] == 0 {
							x.St.Set("heartbeats kept", 1)
						}
						out = append(out, flow.Exit{St: x.St, Res: []*flow.Val{nilErr()}, Pos: ci.Pos})
					}
					return out, true
				}
			}
			if ci.Method != nil && methodIs(ci.Method, "internal/heartbeater") && ci.Method.Name() == "Stop" {
				st.Set("hbstop", 1)
				return e.Unknown(st, ci), true
			}
			return call(e, st, ci)
		}
		h.HavocOnLock = false
		e := c.Engine(h)
		st := flow.NewState()
		sawYes := false
		for _, x := range e.Analyze(fn, rootArgs(fn, st), nil, st) {
			if x.Panic {
				continue // the counters could not be reset (see W10)
			}
			n := x.St.Mon
			bad := func(what string) {
				c.Fail(r, name+": "+what, c.P.Pos(x.Pos), fmt.Sprintf("%s: %s (on this path: %s)", name, what, monInts(x.St)), e.Witness(x.St.Tr, 30)...)
			}
			told := n["closed"] == 1 || n["done before"] != 0 && n["closed"] == 0
			if n["unguarded"] != 0 {
				bad("the executor can be told to stop twice, which stops the process")
			}
			if name == "Delete" {
				if len(x.Res) != 1 {
					continue
				}
				em := x.St.MonV["empty"]
				if em == nil {
					bad("whether there are items is not looked at")
					continue
				}
				for _, empty := range []bool{true, false} {
					for _, s := range x.St.Clone().Assume(em, empty) {
						switch s.Truth(x.Res[0]) {
						case 1:
							sawYes = true
							if !empty {
								bad("a channel that holds items is deleted")
							}
							if !told {
								bad("the executor of a deleted channel is not told to stop")
							}
						case 0:
							if empty {
								bad("an empty channel is kept")
							}
							if n["closed"] != 0 {
								bad("the executor of a channel that stays is told to stop")
							}
						default:
							bad("the answer does not follow from whether there are items")
						}
					}
				}
				continue
			}
			sawYes = true
			if !told {
				bad("the executor is not told to stop")
			}
			if n["limerr"] == 0 {
				if n["set_enqueued"] != 1 {
					bad("the enqueued counter is not reset")
				}
				if n["set_running"] != 1 {
					bad("the running counter is not reset")
				}
			}
			if n["destroy"] == 0 {
				bad("the items stay")
			}
			if n["kept"] != 0 {
				bad("an item is kept")
			}
			if n["heartbeats kept"] != 0 {
				bad("an item's heartbeat goes on")
			}
		}
		c.Done(r, e)
		c.Check(sawYes, r, name, c.P.Pos(fn.Pos()), "no path on which "+name+" deletes the channel")
	}
	return nil
}

// stopChan is the channel field that only ever gets closed.
func stopChan(w *willowChan) *types.Var {
	st := structOf(w.typ)
	var out *types.Var
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if ch, ok := f.Type().Underlying().(*types.Chan); ok {
			if s, ok := ch.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
				out = f
			}
		}
	}
	return out
}

func sigOf2(cb *flow.Val, i int) types.Type {
	cb = flow.Strip(cb)
	if cb.T != nil {
		if sg, ok := cb.T.Underlying().(*types.Signature); ok && i < sg.Params().Len() {
			return sg.Params().At(i).Type()
		}
	}
	return types.NewInterfaceType(nil, nil)
}

// valueOf: is v the channel stored in the given one-to-many item?
func valueOf(v, item *flow.Val) bool {
	return v != nil && item != nil && containsVal(v, flow.Strip(item))
}

// removals: what the client removes, and for whom.
func removals(c *Ctx) error {
	const r = "removals"
	c.Rule(r, "deleting a queue's channels force-deletes every channel of that queue and nothing else; deleting a channel force-deletes that one; removing an emptied channel keeps it unless the channel agrees", 4)
	typ, err := implOf(c, relQC, "QueueChannelsClient")
	if err != nil {
		return err
	}
	type want struct {
		name, ops, call string
	}
	for _, wt := range []want{
		{"DestroyChannelsForQueue", "o2m.DestroyOne", "ForceDelete"},
		{"DeleteChannel", "o2m.DeleteOneOfManyByKeyValues", "ForceDelete"},
		{"ACK", "o2m.DeleteOneOfManyByKeyValues", "Delete"},
		{"timeout", "o2m.DeleteOneOfManyByKeyValues", "Delete"},
	} {
		wt := wt
		l := &lc{c: c, typ: typ, rule: r}
		name := wt.name
		if name == "timeout" {
			name = "EnqueueQueueItem"
		}
		fn, err := methodOf(c, typ, name)
		if err != nil {
			return err
		}
		bad := func(st *flow.State, what string) { st.Set("bad:"+what, 1) }
		var queue, kvs *flow.Val
		l.tm = &TreeModel{
			OnEnter: func(e *flow.Engine, st *flow.State, op string, tree, key, item *flow.Val, in ssa.Instruction) {
				delete(st.MonV, "ch:"+wt.call)
				st.Set("ch:"+wt.call, 0)
			},
			OnLeave: func(e *flow.Engine, st *flow.State, op string, tree, key, item *flow.Val, cont int, in ssa.Instruction) {
				if op == "o2m.QueryAction" || op == "o2m.MatchAction" || op == "o2m.CreateOrFind" {
					return
				}
				if st.Mon["ch:"+wt.call] != 1 || !valueOf(st.MonV["ch:"+wt.call], item) {
					bad(st, "a removed channel is not asked, or not told, to be deleted")
				}
				switch wt.call {
				case "ForceDelete":
					if cont != 1 {
						bad(st, "a channel stays although it was deleted")
					}
				case "Delete":
					if res := st.MonV["ch:Delete:res0"]; res == nil || st.Truth(res) != cont {
						bad(st, "whether a channel goes is not what the channel answered")
					}
				}
			},
			OnOp: func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
				switch op {
				case "o2m.QueryAction", "o2m.MatchAction", "o2m.CreateOrFind":
					return
				}
				st.Inc("removal", 1)
				if op != wt.ops && !(wt.ops == "o2m.DestroyOne" && false) {
					bad(st, "the wrong removal is used")
				}
				k := key
				if k.K == flow.KTuple && len(k.Args) > 0 {
					if !(k.Args[0].Key() == queue.Key()) {
						bad(st, "channels of another queue are removed")
					}
					if wt.ops != "o2m.DestroyOne" && (len(k.Args) < 2 || kvs == nil || !containsVal(k.Args[1], kvs)) {
						bad(st, "another channel is removed")
					}
				}
			},
		}
		st := flow.NewState()
		args := rootArgs(fn, st)
		e := c.Engine(l.hooks())
		for i, p := range fn.Params {
			switch {
			case types.Identical(p.Type(), types.Typ[types.String]):
				queue = args[i]
			case isKeyValues(p.Type()):
				kvs = args[i]
			case typeIs(p.Type(), "willow/v1", "ACK"):
				kvs = e.LoadPath(st, args[i], "KeyValues")
			case typeIs(p.Type(), "willow/v1", "Item"):
				kvs = e.LoadPath(st, args[i], "Spec", "DBDefinition", "KeyValues")
			}
		}
		if queue == nil {
			return fmt.Errorf("%s has no queue name", name)
		}
		var exits []flow.Exit
		if wt.name == "timeout" {
			e.Analyze(fn, args, nil, st)
			for _, sp := range l.spawned {
				fv := flow.Strip(sp.fn)
				if fv.K == flow.KFn {
					sp.st.Mon = map[string]int{}
					exits = append(exits, e.Analyze(fv.Fn, sp.args, fv.Args, sp.st)...)
				}
			}
		} else {
			exits = e.Analyze(fn, args, nil, st)
		}
		c.Done(r, e)
		did := false
		for _, x := range exits {
			if x.Panic {
				continue
			}
			n := x.St.Mon
			fail := func(what string) {
				c.Fail(r, wt.name+": "+what, c.P.Pos(x.Pos), fmt.Sprintf("%s: %s (on this path: %s)", wt.name, what, monInts(x.St)), e.Witness(x.St.Tr, 30)...)
			}
			for _, k := range sortedKeys(n) {
				if strings.HasPrefix(k, "bad:") {
					fail(k[4:])
				}
			}
			did = did || n["removal"] > 0
			switch wt.name {
			case "ACK":
				del := x.St.MonV["ch:ACK:res0"]
				if n["ch:ACK"] == 0 || del == nil {
					if n["removal"] != 0 {
						fail("a channel is removed although nothing was acknowledged")
					}
					continue
				}
				switch x.St.Truth(del) {
				case 0:
					if n["removal"] != 0 {
						fail("a channel is removed although it is not empty")
					}
				case 1:
					if n["removal"] == 0 {
						fail("an emptied channel stays")
					}
				default:
					if n["removal"] != 0 {
						fail("a channel is removed whether or not it is empty")
					} else {
						fail("an emptied channel stays")
					}
				}
			default:
				if n["removal"] != 1 {
					fail(fmt.Sprintf("%d removals", n["removal"]))
				}
				if len(x.Res) == 1 && resNil(x, 0) != 1 {
					fail("an error is reported although everything was removed")
				}
			}
		}
		c.Check(did, r, wt.name, c.P.Pos(fn.Pos()), "no path on which "+wt.name+" removes a channel")
	}
	return nil
}
