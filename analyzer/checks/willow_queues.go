package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

const (
	relQB = "internal/willow/brokers/queues"
	relQM = "internal/willow/brokers/queues/memory"
	pkgQB = "/willow/brokers/queues"
)

func init() {
	register("W11", "operations reach the named queue, channel and message", func(c *Ctx) error {
		if err := queueDispatch(c); err != nil {
			return err
		}
		if err := channelDispatch(c); err != nil {
			return err
		}
		return itemDispatch(c)
	})
	register("W12", "the life of a queue and its limit", func(c *Ctx) error {
		c.Rule("queue-life", "a queue is created once under its name and stored exactly if it could be made; listing and reading show the stored queues with their own names and limits; an update is applied to the named queue; naming an unknown queue to read or update is answered with 404, creating an existing one with 409; a queue is deleted by destroying its channels and then itself, stays if either failed, and both failures are reported", 5)
		if err := queueLife(c, "queue-life", "CreateQueue", "ListQueues", "GetQueue", "UpdateQueue", "DeleteQueue"); err != nil {
			return err
		}
		return queueLimit(c)
	})
}

// qb is the analysis of the client that keeps all queues.
type qb struct {
	c   *Ctx
	tm  *TreeModel
	typ types.Type
}

// record notes a call under tag, with its arguments and results.
func record(e *flow.Engine, st *flow.State, ci *flow.CallInfo, tag string) []flow.Exit {
	st.Inc(tag, 1)
	if ci.Recv != nil {
		st.MonV[tag+":recv"] = flow.Strip(ci.Recv)
	}
	as := ci.Args
	if ci.Method == nil {
		_, as = argsOf(ci)
	}
	for i, a := range as {
		st.MonV[fmt.Sprintf("%s:%d", tag, i)] = a
	}
	st.Set(tag+":n", len(as))
	st.Note(ci.Pos, "%s", tag)
	var rs []*flow.Val
	for i := 0; i < ci.Res.Len(); i++ {
		v := e.Fresh(st, ci.Instr, fmt.Sprint("r", i), ci.Res.At(i).Type())
		st.MonV[fmt.Sprintf("%s:res%d", tag, i)] = v
		rs = append(rs, v)
	}
	return []flow.Exit{{St: st, Res: rs, Pos: ci.Pos}}
}

func (q *qb) hooks() *flow.Hooks {
	h := &flow.Hooks{}
	if q.tm == nil {
		q.tm = &TreeModel{}
	}
	tm := q.tm
	tm.OnEnter = func(e *flow.Engine, st *flow.State, op string, tree, key, item *flow.Val, in ssa.Instruction) {
		st.Inc("cb", 1)
		if item != nil {
			st.MonV["cbitem"] = item
		}
		st.Set("in", 1)
	}
	prev := tm.OnLeave
	tm.OnLeave = func(e *flow.Engine, st *flow.State, op string, tree, key, item *flow.Val, cont int, in ssa.Instruction) {
		st.Set("in", 0)
		if prev != nil {
			prev(e, st, op, tree, key, item, cont, in)
		}
	}
	tm.OnOp = func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
		st.Set("op_"+outcome, 1)
		st.Inc(op, 1)
		st.MonV["key"] = key
	}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if ci.Method != nil && strings.HasSuffix(pkgPathOf(ci.Method), pkgQC) {
			if st.Mon["in"] == 0 {
				st.Set("bad:a channel operation runs while the queue can be deleted", 1)
			}
			return record(e, st, ci, "do:"+ci.Method.Name()), true
		}
		if ci.Method != nil && strings.HasSuffix(pkgPathOf(ci.Method), pkgQB) {
			ex := record(e, st, ci, "do:"+ci.Method.Name())
			if ci.Method.Name() == "New" { // a constructor answers a queue or an error
				s, r := ex[0].St, ex[0].Res
				if len(r) == 2 {
					t := s.Clone()
					s.Restrict(r[1], flow.NilOf(r[1].T), flow.EQ)
					s.Restrict(r[0], flow.NilOf(r[0].T), flow.LT|flow.GT)
					t.Restrict(r[1], flow.NilOf(r[1].T), flow.LT|flow.GT)
					t.Set("newfailed", 1)
					// the queue that comes with an error must not be used, whatever it is
					return []flow.Exit{ex[0], {St: t, Res: r, Pos: ci.Pos}}, true
				}
			}
			return ex, true
		}
		if ex, ok := tm.Call(e, st, ci); ok {
			return ex, true
		}
		if opaqueAmbient(ci) {
			return e.Unknown(st, ci), true
		}
		return nil, false
	}
	return h
}

// sameVal: do two values name the same thing?
func sameVal(a, b *flow.Val) bool {
	return a != nil && b != nil && flow.Strip(a).Key() == flow.Strip(b).Key()
}

// agreeArgs: every parameter of the operation that a call takes too (by type) is passed on as it is.
func agreeArgs(st *flow.State, tag string, fn *ssa.Function, args []*flow.Val) string {
	n := st.Mon[tag+":n"]
	used := map[int]bool{0: true}
	for i := 0; i < n; i++ {
		a := st.MonV[fmt.Sprintf("%s:%d", tag, i)]
		if a == nil || typeIs(a.T, "context", "Context") {
			continue
		}
		ok, any := false, false
		for j := 1; j < len(args); j++ {
			if used[j] || !types.Identical(deref(args[j].T), deref(a.T)) {
				continue
			}
			any = true
			if sameVal(args[j], a) {
				used[j], ok = true, true
				break
			}
		}
		if any && !ok || !any && i > 0 {
			return fn.Params[0].Name()
		}
	}
	return ""
}

// queueDispatch: what is done with a channel or message of a named queue.
func queueDispatch(c *Ctx) error {
	const r = "queue-named"
	c.Rule(r, "an operation on a queue's channels and messages is done exactly once for the named queue, as requested and while the queue cannot be deleted, and answers with its outcome; naming an unknown queue is answered with 404 (an empty list of channels) and does nothing", 6)
	typ, err := implOf(c, relQB, "QueuesClient")
	if err != nil {
		return err
	}
	for _, op := range []struct{ name, effect string }{
		{"QueryChannels", "Channels"}, {"Enqueue", "EnqueueQueueItem"}, {"Dequeue", "DequeueQueueItem"},
		{"DeleteChannel", "DeleteChannel"}, {"Ack", "ACK"}, {"Heartbeat", "Heartbeat"},
	} {
		fn, err := methodOf(c, typ, op.name)
		if err != nil {
			return err
		}
		q := &qb{c: c, typ: typ}
		st := flow.NewState()
		args := rootArgs(fn, st)
		name := stringParam(fn, args)
		if name == nil {
			return fmt.Errorf("%s has no queue name", op.name)
		}
		tag := "do:" + op.effect
		e := c.Engine(q.hooks())
		hit := false
		for _, x := range e.Analyze(fn, args, nil, st) {
			bad := func(s string) {
				c.Fail(r, op.name+": "+s, c.P.Pos(x.Pos), fmt.Sprintf("%s: %s (on this path: %s)", op.name, s, monInts(x.St)), e.Witness(x.St.Tr, 30)...)
			}
			if x.Panic {
				bad("stops the process")
				continue
			}
			m := x.St.Mon
			last := len(x.Res) - 1
			for _, k := range sortedKeys(m) {
				if strings.HasPrefix(k, "bad:") {
					bad(k[4:])
				}
				if strings.HasPrefix(k, "do:") && !strings.HasPrefix(k, tag) {
					bad("something else is done")
				}
			}
			if k := x.St.MonV["key"]; k == nil || !containsVal(k, name) {
				bad("another queue is looked up")
			}
			switch {
			case m["op_error"] != 0:
				if m[tag] != 0 {
					bad("a refused operation has an effect")
				}
				if resNil(x, last) != 0 {
					bad("a refused operation is reported as a success")
				}
			case m["op_absent"] != 0:
				if m[tag] != 0 {
					bad("something is done for an unknown queue")
				}
				if op.effect == "Channels" {
					if resNil(x, last) == 1 && !emptyVal(e, x.St, x.Res[0]) {
						bad("channels are listed for an unknown queue")
					}
				} else if resNil(x, last) != 0 || statusOf(e, x.St, x.Res[last]) != 404 {
					bad("an unknown queue is not answered with 404")
				}
				for i := 0; i < last; i++ {
					if op.effect != "Channels" && resNil(x, i) != 1 {
						bad("something is handed out for an unknown queue")
					}
				}
			default:
				hit = true
				if m[tag] != 1 {
					bad(fmt.Sprintf("the operation is done %d times", m[tag]))
					continue
				}
				if agreeArgs(x.St, tag, fn, args) != "" {
					bad("the operation is done with other arguments than requested")
				}
				for i := range x.Res {
					want := x.St.MonV[fmt.Sprintf("%s:res%d", tag, i)]
					if want == nil {
						if resNil(x, i) != 1 {
							bad("a successful operation is reported as failed")
						}
						continue
					}
					if !sameVal(want, x.Res[i]) {
						bad("the outcome reported is not the outcome of the operation")
					}
				}
			}
		}
		c.Done(r, e)
		c.Check(hit, r, op.name, c.P.Pos(fn.Pos()), "no path on which "+op.name+" does something for the named queue")
	}
	return nil
}

func emptyVal(e *flow.Engine, st *flow.State, v *flow.Val) bool {
	if v.K == flow.KNil || v.K == flow.KZero {
		return true
	}
	el, ok := e.Elems(st, v)
	return ok && len(el) == 0
}

func stringParam(fn *ssa.Function, args []*flow.Val) *flow.Val {
	for i, p := range fn.Params {
		if types.Identical(p.Type(), types.Typ[types.String]) {
			return args[i]
		}
	}
	return nil
}

// channelDispatch: what is done with a channel or message of one queue.
func channelDispatch(c *Ctx) error {
	const r = "channel-named"
	c.Rule(r, "a message is enqueued to exactly the channel with its key values, which is made and run if there is none and kept only if that worked; an acknowledgement or heartbeat reaches exactly the channel with its key values or is answered with 404; listing names each matching channel of the queue", 4)
	typ, err := implOf(c, relQC, "QueueChannelsClient")
	if err != nil {
		return err
	}
	for _, name := range []string{"EnqueueQueueItem", "ACK", "Heartbeat", "Channels"} {
		fn, err := methodOf(c, typ, name)
		if err != nil {
			return err
		}
		st := flow.NewState()
		args := rootArgs(fn, st)
		queue := stringParam(fn, args)
		req := args[len(args)-1]
		if queue == nil {
			return fmt.Errorf("%s has no queue name", name)
		}
		effect := map[string]string{"EnqueueQueueItem": "Enqueue", "ACK": "ACK", "Heartbeat": "Heartbeat"}[name]
		op := "o2m.QueryAction"
		if effect == "Enqueue" {
			op = "o2m.CreateOrFind"
		}
		var kvs *flow.Val
		l := &lc{c: c, typ: typ, rule: r}
		l.tm = &TreeModel{
			Once: name == "Channels",
			OnEnter: func(e *flow.Engine, st *flow.State, o string, tree, key, item *flow.Val, in ssa.Instruction) {
				if o == op {
					if item != nil {
						st.MonV["cbitem"] = item
					}
					st.Inc("visited", 1)
				}
			},
			OnLeave: func(e *flow.Engine, st *flow.State, o string, tree, key, item *flow.Val, cont int, in ssa.Instruction) {
				if o == op && cont == 0 {
					st.Set("stopped", 1)
				}
			},
			OnCreate: func(e *flow.Engine, st *flow.State, tree, key, val *flow.Val, in ssa.Instruction) {
				st.MonV["created"] = val
			},
			OnOp: func(e *flow.Engine, st *flow.State, o, outcome string, tree, key *flow.Val, in ssa.Instruction) {
				if o != op {
					return // removing emptied channels is another property
				}
				st.Inc("lookups", 1)
				st.Set("op_"+outcome, 1)
				st.MonV["key"] = key
				if key != nil && len(key.Args) > 1 && st.Written(flow.Strip(key.Args[1])) {
					st.Set("altered", 1)
				}
			},
		}
		h := l.hooks()
		e := c.Engine(h)
		if name == "Channels" {
			e.Unroll, e.Maps = 4, true
		}
		switch name {
		case "EnqueueQueueItem":
			kvs = e.LoadPath(st, req, "Spec", "DBDefinition", "KeyValues")
		case "ACK", "Heartbeat":
			kvs = e.LoadPath(st, req, "KeyValues")
		default:
			kvs = req
		}
		hit := false
		for _, x := range e.Analyze(fn, args, nil, st) {
			bad := func(s string) {
				c.Fail(r, name+": "+s, c.P.Pos(x.Pos), fmt.Sprintf("%s: %s (on this path: %s)", name, s, monInts(x.St)), e.Witness(x.St.Tr, 30)...)
			}
			if x.Panic {
				continue // W10
			}
			n := x.St.Mon
			last := len(x.Res) - 1
			for _, k := range sortedKeys(n) {
				if strings.HasPrefix(k, "bad:") {
					bad(k[4:])
				}
			}
			if n["op_error"] != 0 {
				if effect != "" && (resNil(x, last) != 0 || n["ch:"+effect] != 0) {
					bad("a refused operation is reported as a success or has an effect")
				}
				continue
			}
			key := x.St.MonV["key"]
			if n["lookups"] != 1 || key == nil || len(key.Args) != 2 || !sameVal(key.Args[0], queue) {
				bad("something else than the channels of the named queue is looked up")
				continue
			}
			if n["altered"] != 0 {
				bad("the key values or query to look channels up with were changed")
			}
			switch name {
			case "EnqueueQueueItem":
				hit = true
				if !sameVal(key.Args[1], kvs) {
					bad("the message goes to a channel with other key values")
				}
				if n["ch:Enqueue"] != 1 || !argIs(x.St, "ch:Enqueue", req) {
					bad("the message is not enqueued exactly once, as it is")
					continue
				}
				ch := x.St.MonV["ch:Enqueue"]
				if n["op_found"] != 0 {
					if !valueOf(ch, x.St.MonV["cbitem"]) {
						bad("the message is enqueued to another channel than the found one")
					}
					if n["ch:New"] != 0 {
						bad("a channel is made although there is one")
					}
				} else {
					nw := x.St.MonV["ch:New:res0"]
					if nw == nil || !sameVal(ch, nw) {
						bad("the message is not enqueued to the new channel")
					} else if !argIs(x.St, "ch:New", queue) || !argIs(x.St, "ch:New", kvs) {
						bad("the new channel is made for another queue or other key values")
					}
					failed := n["ch:Enqueue:failed"] != 0
					if failed != (n["op_declined"] != 0) {
						bad("a new channel is not kept exactly when the message was enqueued to it")
					}
					if !failed {
						if v := x.St.MonV["created"]; v == nil || nw != nil && !sameVal(v, nw) {
							bad("something else than the new channel is kept")
						}
						if n["task"]+n["task_refused"] != 1 || n["task"] == 1 && !sameVal(x.St.MonV["task"], nw) {
							bad("the new channel is not run, once")
						}
					} else if n["task"]+n["task_refused"] != 0 {
						bad("a channel that is not kept is run")
					}
				}
				if !sameVal(x.Res[last], x.St.MonV["ch:Enqueue:err"]) && !(resNil(x, last) == 1 && n["ch:Enqueue:failed"] == 0) {
					bad("the outcome reported is not the outcome of the operation")
				}
			case "ACK", "Heartbeat":
				q := flow.Strip(key.Args[1])
				if !(q.K == flow.KTerm && strings.HasPrefix(q.S, "query") && strings.HasSuffix(q.S, "KeyValuesToExactAssociatedActionQuery") && sameVal(q.Args[len(q.Args)-1], kvs)) {
					bad("channels with other key values are looked up")
				}
				if n["visited"] == 0 {
					if n["ch:"+effect] != 0 || resNil(x, last) != 0 || statusOf(e, x.St, x.Res[last]) != 404 {
						bad("an unknown channel is not answered with 404")
					}
					continue
				}
				hit = true
				if n["visited"] > 1 && n["ch:"+effect] > 1 {
					bad("the operation is done on several channels")
					continue
				}
				if n["ch:"+effect] != 1 || !argIs(x.St, "ch:"+effect, req) || !valueOf(x.St.MonV["ch:"+effect], x.St.MonV["cbitem"]) {
					bad("the operation is not done exactly once, as requested, on the channel that was found")
					continue
				}
				if !sameVal(x.Res[last], x.St.MonV["ch:"+effect+":err"]) {
					bad("the outcome reported is not the outcome of the operation")
				}
			default:
				if !sameVal(key.Args[1], kvs) {
					bad("something else than the query is looked up")
				}
				el, ok := e.Elems(x.St, x.Res[0])
				if !ok || len(el) != n["visited"] {
					bad("not exactly the matching channels are listed")
					continue
				}
				if n["stopped"] != 0 {
					bad("listing stops before all matching channels were named")
				}
				for _, v := range el {
					hit = true
					if !termOf(e.LoadPath(x.St, v, "Spec", "DBDefinition", "KeyValues"), "m.ManyKeyValues", x.St.MonV["cbitem"]) {
						bad("a channel is listed with key values that are not its own")
					}
				}
			}
		}
		c.Done(r, e)
		c.Check(hit, r, name, c.P.Pos(fn.Pos()), "no path on which "+name+" does something")
	}
	return nil
}

// argIs: does one of the arguments recorded under tag have this value?
func argIs(st *flow.State, tag string, v *flow.Val) bool {
	for i := 0; i < 8; i++ {
		if a := st.MonV[fmt.Sprintf("%s:%d", tag, i)]; a != nil && sameVal(a, v) {
			return true
		}
	}
	return false
}

// itemDispatch: which message an operation of a channel is about.
func itemDispatch(c *Ctx) error {
	const r = "message-named"
	c.Rule(r, "an acknowledgement, a heartbeat, a heartbeat loss and a report of delivery or non-delivery are about the message with the id they name or were made for; a message is handed out with its own id, data, settings and the channel's key values", 6)
	w, err := willowAnchors(c)
	if err != nil {
		return err
	}
	entries, err := mqcEntries(c, w)
	if err != nil {
		return err
	}
	for _, en := range entries {
		en := en
		if en.name == "Enqueue" {
			continue
		}
		h := mqcHooks(c, w, en.name)
		call := h.Call
		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			if kind, _, tree, as := treeKind(ci); kind == "btree" && flow.FieldOf(tree) == w.fItems && len(as) > 1 && !w.isListElem(as[0]) {
				st.Inc("about", 1)
				id := st.MonV["id"]
				if id == nil {
					id = flow.Root("handed", types.Typ[types.String])
				}
				if !containsVal(as[0], id) {
					st.Set("bad:another message is meant", 1)
				}
			}
			return call(e, st, ci)
		}
		e := c.Engine(h)
		st, args := en.st, en.args
		if st == nil {
			st = flow.NewState()
		}
		if args == nil {
			args = rootArgs(en.fn, st)
			if id := e.LoadPath(st, args[len(args)-1], "ItemID"); id != nil {
				st.MonV["id"] = id
			}
		}
		hit := false
		for _, x := range e.Analyze(en.fn, args, en.bind, st) {
			bad := func(s string) {
				c.Fail(r, en.name+": "+s, c.P.Pos(x.Pos), fmt.Sprintf("%s: %s (on this path: %s)", en.name, s, monInts(x.St)), e.Witness(x.St.Tr, 30)...)
			}
			if x.Panic {
				continue
			}
			if x.St.Mon["bad:another message is meant"] != 0 {
				bad("another message is meant")
			}
			if en.name != "dequeue" {
				hit = hit || x.St.Mon["about"] != 0
				continue
			}
			if len(x.Res) != 3 || resNil(x, 0) != 0 {
				continue
			}
			hit = true
			it := x.St.MonV["item"]
			own := func(f *types.Var, path ...string) bool {
				v := e.LoadPath(x.St, x.Res[0], path...)
				return v != nil && it != nil && (sameVal(v, e.LoadField(x.St, it, f)) || flow.FieldOf(v) == f && containsVal(v, it))
			}
			fk := x.St.MonV["foundkey"]
			id := e.LoadPath(x.St, x.Res[0], "State", "ID")
			if fk == nil || id == nil || !containsVal(fk, id) {
				bad("a message is handed out under an id that is not its own")
			}
			for _, f := range []struct {
				f    *types.Var
				name string
				path []string
			}{
				{w.iData, "data", []string{"Spec", "Properties", "Data"}},
				{w.iUpd, "updateable flag", []string{"Spec", "Properties", "Updateable", "*"}},
				{w.iMax, "retry limit", []string{"Spec", "Properties", "RetryAttempts", "*"}},
				{w.iPos, "retry position", []string{"Spec", "Properties", "RetryPosition", "*"}},
				{w.iTimeout, "heartbeat timeout", []string{"Spec", "Properties", "TimeoutDuration", "*"}},
			} {
				if !own(f.f, f.path...) {
					bad("a message is handed out with another " + f.name)
				}
			}
			kv := e.LoadPath(x.St, x.Res[0], "Spec", "DBDefinition", "KeyValues")
			if kv == nil || flow.FieldOf(kv) == nil || !isKeyValues(flow.FieldOf(kv).Type()) {
				bad("a message is handed out with other key values than its channel's")
			}
		}
		c.Done(r, e)
		c.Check(hit, r, en.name, c.P.Pos(en.fn.Pos()), "no path through "+en.name+" is about a message")
	}
	return nil
}

// queueLife: creating, listing, reading, updating and deleting queues.
func queueLife(c *Ctx, r string, names ...string) error {
	typ, err := implOf(c, relQB, "QueuesClient")
	if err != nil {
		return err
	}
	for _, name := range names {
		fn, err := methodOf(c, typ, name)
		if err != nil {
			return err
		}
		q := &qb{c: c, typ: typ, tm: &TreeModel{Once: name == "ListQueues"}}
		q.tm.OnCreate = func(e *flow.Engine, st *flow.State, tree, key, val *flow.Val, in ssa.Instruction) {
			st.MonV["stored"] = val
		}
		q.tm.OnLeave = func(e *flow.Engine, st *flow.State, op string, tree, key, item *flow.Val, cont int, in ssa.Instruction) {
			if cont == 0 {
				st.Set("stopped", 1)
			}
		}
		if name == "CreateQueue" {
			q.tm.Errs = func(e *flow.Engine, st *flow.State, tree *flow.Val, op string) []*flow.Val {
				return []*flow.Val{treeGlobal(c, e, st, "internal/datastructures/btree", "ErrorKeyAlreadyExists"), treeGlobal(c, e, st, "internal/datastructures/btree", "ErrorKeyDestroying"), freshErr(e, st, nil, "terr")}
			}
		}
		st := flow.NewState()
		args := rootArgs(fn, st)
		q.tm.IterKey = func(e *flow.Engine, st *flow.State, t types.Type, in ssa.Instruction) *flow.Val {
			// queues are stored under their names (as CreateQueue does)
			return structWith(t, map[string]*flow.Val{"Type": flow.Int(typeString), "Data": flow.IfaceOf(e.Fresh(st, in, "name", types.Typ[types.String]), types.Typ[types.String])})
		}
		h := q.hooks()
		call := h.Call
		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			ex, ok := call(e, st, ci)
			if kind, op, _, _ := treeKind(ci); kind == "btree" && op == "Create" && ok {
				for _, x := range ex {
					if x.Panic || len(x.Res) != 1 {
						continue
					}
					for _, g := range []string{"ErrorKeyAlreadyExists", "ErrorKeyDestroying"} {
						if sameVal(x.Res[0], treeGlobal(c, e, x.St, "internal/datastructures/btree", g)) {
							x.St.Set("conflict", 1)
						}
					}
				}
			}
			return ex, ok
		}
		e := c.Engine(h)
		e.Unroll, e.Maps = 4, true
		qname := stringParam(fn, args)
		var rule *flow.Val // the id of the willow rule
		if s := structOf(typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(s.Field(i).Type(), types.Typ[types.String]) {
					rule = e.LoadField(st, args[0], s.Field(i))
				}
			}
		}
		if rule == nil {
			return fmt.Errorf("the queues client does not know the id of the limiter rule")
		}
		if name == "CreateQueue" {
			qname = e.LoadPath(st, args[len(args)-1], "Spec", "DBDefinition", "Name", "*")
		}
		hit := false
		for _, x := range e.Analyze(fn, args, nil, st) {
			bad := func(s string) {
				c.Fail(r, name+": "+s, c.P.Pos(x.Pos), fmt.Sprintf("%s: %s (on this path: %s)", name, s, monInts(x.St)), e.Witness(x.St.Tr, 30)...)
			}
			if x.Panic {
				bad("stops the process, or leaves the queues locked")
				continue
			}
			n := x.St.Mon
			last := len(x.Res) - 1
			for _, k := range sortedKeys(n) {
				if strings.HasPrefix(k, "bad:") {
					bad(k[4:])
				}
			}
			acts := n["do:New"] + n["do:Update"] + n["do:Destroy"] + n["do:DestroyChannelsForQueue"]
			if name != "ListQueues" {
				if k := x.St.MonV["key"]; k == nil || qname == nil || !containsVal(k, qname) {
					bad("another queue than the named one is meant")
				}
			}
			if n["op_error"] != 0 {
				if acts != 0 {
					bad("a refused operation has an effect")
				}
				if resNil(x, last) != 0 {
					bad("a refused operation is reported as a success")
				} else if name == "CreateQueue" && n["conflict"] != 0 && statusOf(e, x.St, x.Res[last]) != 409 {
					bad("creating a queue that exists is not answered with 409")
				}
				continue
			}
			if n["op_absent"] != 0 && name != "ListQueues" && name != "CreateQueue" {
				if acts != 0 {
					bad("something is done for an unknown queue")
				}
				if name != "DeleteQueue" && (resNil(x, last) != 0 || statusOf(e, x.St, x.Res[last]) != 404) {
					bad("an unknown queue is not answered with 404")
				}
				continue
			}
			switch name {
			case "CreateQueue":
				hit = true
				if n["do:New"] != 1 || !argIs(x.St, "do:New", args[len(args)-1]) || !argIs(x.St, "do:New", rule) || n["btree.Create"] != 1 {
					bad("a queue is not made exactly once, from the request and under willow's rule")
					continue
				}
				failed := n["newfailed"] != 0
				if failed != (n["op_declined"] != 0) {
					bad("a queue is not stored exactly when it could be made")
				}
				if !failed && !sameVal(x.St.MonV["stored"], x.St.MonV["do:New:res0"]) {
					bad("something else than the new queue is stored")
				}
				if failed && resNil(x, last) != 0 || !failed && resNil(x, last) != 1 {
					bad("success is not reported exactly when the queue was stored")
				}
			case "ListQueues", "GetQueue":
				if acts != 0 {
					bad("reading changes something")
				}
				if resNil(x, last) != 1 {
					bad("a failure is reported although the queues could be read")
					continue
				}
				var el []*flow.Val
				if name == "GetQueue" {
					el = []*flow.Val{x.Res[0]}
				} else {
					var ok bool
					if el, ok = e.Elems(x.St, x.Res[0]); !ok || len(el) != n["cb"] {
						bad("not exactly the stored queues are listed")
						continue
					}
					if n["stopped"] != 0 {
						bad("listing stops before all queues were named")
					}
				}
				for _, v := range el {
					hit = true
					lim := e.LoadPath(x.St, v, "Spec", "Properties", "MaxItems", "*")
					if lim == nil || !sameVal(lim, x.St.MonV["do:ConfiguredLimit:res0"]) || !valueOf(x.St.MonV["do:ConfiguredLimit:recv"], x.St.MonV["cbitem"]) {
						bad("a queue is shown with a limit that is not its own")
					}
					nm := e.LoadPath(x.St, v, "Spec", "DBDefinition", "Name", "*")
					if nm == nil || name == "GetQueue" && !sameVal(nm, qname) || name == "ListQueues" && !fromKey(nm, x.St.MonV["iterkey"]) {
						bad("a queue is shown with a name that is not its own")
					}
				}
			case "UpdateQueue":
				hit = true
				if n["do:Update"] != 1 || !argIs(x.St, "do:Update", args[len(args)-1]) || !argIs(x.St, "do:Update", rule) || !valueOf(x.St.MonV["do:Update:recv"], x.St.MonV["cbitem"]) {
					bad("the named queue is not updated exactly once, as requested")
					continue
				}
				if !sameVal(x.Res[last], x.St.MonV["do:Update:res0"]) {
					bad("the outcome reported is not the outcome of the operation")
				}
			case "DeleteQueue":
				deletedQueue(x, bad, args, qname, rule)
				hit = hit || n["op_removed"] != 0
			}
		}
		c.Done(r, e)
		c.Check(hit, r, name, c.P.Pos(fn.Pos()), "no path on which "+name+" does something")
	}
	return nil
}

// deletedQueue: what a deletion of an existing queue did.
func deletedQueue(x flow.Exit, bad func(string), args []*flow.Val, qname, rule *flow.Val) {
	n := x.St.Mon
	last := len(x.Res) - 1
	if n["btree.Destroy"] != 1 {
		bad("other requests can use the queue while it is being deleted")
		return
	}
	if n["do:DestroyChannelsForQueue"] != 1 || !argIs(x.St, "do:DestroyChannelsForQueue", qname) {
		bad("the channels of the named queue are not destroyed exactly once")
		return
	}
	chOK := x.St.IsNil(x.St.MonV["do:DestroyChannelsForQueue:res0"])
	if n["do:Destroy"] == 0 {
		if chOK != 0 {
			bad("the queue itself is not destroyed although its channels were")
		}
	} else {
		if chOK != 1 {
			bad("the queue itself is destroyed although its channels were not, or before them")
		}
		if n["do:Destroy"] != 1 || !argIs(x.St, "do:Destroy", rule) || !valueOf(x.St.MonV["do:Destroy:recv"], x.St.MonV["cbitem"]) {
			bad("the named queue is not destroyed exactly once, under willow's rule")
		}
	}
	all := chOK == 1 && n["do:Destroy"] == 1 && x.St.IsNil(x.St.MonV["do:Destroy:res0"]) == 1
	if all != (n["op_removed"] != 0) {
		bad("the queue does not disappear exactly when its channels and itself were destroyed")
	}
	if all && resNil(x, last) != 1 || !all && resNil(x, last) != 0 {
		bad("success is not reported exactly when the queue is gone")
	}
}

// fromKey: is v the data of the key handed to an iteration's callback?
func fromKey(v, key *flow.Val) bool {
	return key != nil && (containsVal(key, v) || containsVal(v, key))
}

const typeString = 13

// structWith builds a struct value of type t.
func structWith(t types.Type, f map[string]*flow.Val) *flow.Val {
	s := t.Underlying().(*types.Struct)
	var vs []*flow.Val
	for i := 0; i < s.NumFields(); i++ {
		v := f[s.Field(i).Name()]
		if v == nil {
			v = flow.ZeroOf(s.Field(i).Type())
		}
		vs = append(vs, v)
	}
	return flow.StructVal(t, vs...)
}

// atomicCell models an atomic integer as the memory it is.
func atomicCell(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
	if ci.Fn == nil || ci.Fn.Signature.Recv() == nil || len(ci.Args) == 0 {
		return nil, false
	}
	n := namedOf(ci.Fn.Signature.Recv().Type())
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync/atomic" {
		return nil, false
	}
	f := fieldNamed(n, "v")
	if f == nil {
		return nil, false
	}
	a := flow.FieldAddr(ci.Args[0], f)
	switch ci.Fn.Name() {
	case "Load":
		return []flow.Exit{{St: st, Res: []*flow.Val{e.LoadAt(st, a, f.Type())}, Pos: ci.Pos}}, true
	case "Store":
		st.Store(a, ci.Args[1])
		return []flow.Exit{{St: st, Pos: ci.Pos}}, true
	case "Swap":
		v := e.LoadAt(st, a, f.Type())
		st.Store(a, ci.Args[1])
		return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
	}
	return nil, false
}

// queueLimit: a queue's limit is an override of willow's rule in the limiter.
func queueLimit(c *Ctx) error {
	const r = "queue-limit"
	c.Rule(r, "making a queue makes its override of willow's rule with its name and limit, or fails; an update changes the limit of exactly that override and only then the limit the queue reports; destroying a queue deletes exactly that override; a failure of the limiter is reported, changes nothing and stops nothing", 4)
	cons, err := implOf(c, relQB, "QueueConstructor")
	if err != nil {
		return err
	}
	typ, err := implOf(c, relQB, "Queue")
	if err != nil {
		return err
	}
	limitFn, err := methodOf(c, typ, "ConfiguredLimit")
	if err != nil {
		return err
	}
	// the keys that the queue's enqueued counter has
	keys, err := enqueuedKeys(c)
	if err != nil {
		return err
	}
	for _, name := range []string{"New", "Update", "Destroy"} {
		on := typ
		if name == "New" {
			on = cons
		}
		fn, err := methodOf(c, on, name)
		if err != nil {
			return err
		}
		for found := 0; found <= 2; found++ {
			if name == "New" && found > 0 {
				break
			}
			what := fmt.Sprintf("%s, %d overrides", name, found)
			if name == "New" {
				what = name
			}
			h := &flow.Hooks{}
			var overrides []*flow.Val
			h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
				if ex, ok := atomicCell(e, st, ci); ok {
					return ex, true
				}
				if ci.Method != nil && methodIs(ci.Method, "/clients/limiter_client") {
					nm := ci.Method.Name()
					ex := record(e, st, ci, "lim:"+nm)
					last := ci.Res.Len() - 1
					bad := st.Clone()
					bad.Set("limerr", 1)
					er := freshErr(e, bad, ci.Instr, "limerr")
					rs := append([]*flow.Val{}, ex[0].Res...)
					rs[last] = er
					ok := append([]*flow.Val{}, ex[0].Res...)
					ok[last] = nilErr()
					st.Set("ok:"+nm, 1)
					if nm == "UpdateOverride" || nm == "DeleteOverride" {
						for i, o := range overrides {
							if argIs(st, "lim:"+nm, overrideID(e, st, o)) {
								st.Inc(fmt.Sprintf("on:%s:%d", nm, i), 1)
								bad.Inc(fmt.Sprintf("on:%s:%d", nm, i), 1)
							}
						}
					}
					if nm == "QueryOverrides" {
						ok[0] = e.FixedSlice(st, "overrides", ci.Res.At(0).Type(), overrides...)
						st.MonV["queryof"] = ci.Args[len(ci.Args)-1]
						bad.MonV["queryof"] = ci.Args[len(ci.Args)-1]
					}
					return []flow.Exit{{St: st, Res: ok, Pos: ci.Pos}, {St: bad, Res: rs, Pos: ci.Pos}}, true
				}
				if opaqueAmbient(ci) {
					return e.Unknown(st, ci), true
				}
				return nil, false
			}
			e := c.Engine(h)
			e.Unroll, e.Maps = 4, true
			st := flow.NewState()
			args := rootArgs(fn, st)
			rule := stringParam(fn, args)
			if rule == nil {
				return fmt.Errorf("%s of a queue has no rule id", name)
			}
			ovT, err := c.P.Named("pkg/models/api/limiter/v1", "Override")
			if err != nil {
				return err
			}
			for i := 0; i < found; i++ {
				o := flow.Root(fmt.Sprint("override ", i), types.NewPointer(ovT))
				st.Restrict(o, flow.NilOf(o.T), flow.LT|flow.GT)
				overrides = append(overrides, o)
			}
			limitOf := func(s *flow.State, queue *flow.Val) *flow.Val {
				for _, y := range c.Engine(h).Analyze(limitFn, []*flow.Val{queue}, nil, s.Clone()) {
					if !y.Panic && len(y.Res) == 1 {
						return y.Res[0]
					}
				}
				return nil
			}
			var before, want, qname *flow.Val
			req := args[len(args)-1]
			for i, p := range fn.Params {
				if typeIs(p.Type(), "willow/v1", "Queue") {
					want = e.LoadPath(st, args[i], "Spec", "Properties", "MaxItems", "*")
					qname = e.LoadPath(st, args[i], "Spec", "DBDefinition", "Name", "*")
				}
			}
			if name != "New" {
				before = limitOf(st, args[0])
				if name == "Update" {
					want = e.LoadPath(st, req, "MaxItems", "*")
				}
				qname = queueNameOf(e, st, typ, args[0])
			}
			hit := false
			for _, x := range e.Analyze(fn, args, nil, st) {
				bad := func(s string) {
					c.Fail(r, name+": "+s, c.P.Pos(x.Pos), fmt.Sprintf("%s: %s (on this path: %s)", what, s, monInts(x.St)), e.Witness(x.St.Tr, 30)...)
				}
				if x.Panic {
					if name == "New" && x.St.Mon["lim:CreateOverride"] == 0 {
						continue // an incomplete request: its own property
					}
					bad("stops the process, or leaves the queues locked")
					continue
				}
				n := x.St.Mon
				last := len(x.Res) - 1
				failed := resNil(x, last)
				if failed == -1 {
					bad("whether it worked is not reported")
					continue
				}
				for k := range n {
					if strings.HasPrefix(k, "lim:") && !strings.Contains(k[4:], ":") {
						op := k[4:]
						wantOp := map[string]string{"New": "CreateOverride", "Update": "UpdateOverride", "Destroy": "DeleteOverride"}[name]
						if op != wantOp && !(op == "QueryOverrides" && name != "New") && !strings.HasPrefix(op, "Get") {
							bad("something else is done in the limiter")
						}
						if !argIs(x.St, k, rule) {
							bad("another rule than willow's is used")
						}
					}
				}
				if n["limerr"] != 0 {
					if failed != 0 {
						bad("a failure of the limiter is reported as a success")
					}
				}
				if q := x.St.MonV["queryof"]; q != nil && !exactQuery(e, x.St, q, keys, qname) {
					bad("other overrides than the queue's own are looked up")
				}
				switch name {
				case "New":
					if n["lim:CreateOverride"] != 1 {
						bad("not exactly one override is made")
						continue
					}
					if failed == 0 {
						if n["limerr"] == 0 {
							bad("a queue is refused although its override was made")
						}
						continue
					}
					hit = true
					ov := x.St.MonV["lim:CreateOverride:2"]
					lim := e.LoadPath(x.St, ov, "Spec", "Properties", "Limit", "*")
					if !sameVal(lim, want) {
						bad("the override has another limit than the queue")
					}
					ents, ok := e.Entries(x.St, e.LoadPath(x.St, ov, "Spec", "DBDefinition", "GroupByKeyValues"))
					if !ok || !exactKeys(e, x.St, ents, keys, qname, func(v *flow.Val) *flow.Val { return v }) {
						bad("the override is not for the queue's own enqueued counter")
					}
					if l := limitOf(x.St, flow.Strip(x.Res[0])); !sameVal(l, want) {
						bad("the queue reports another limit than requested")
					}
					if nm := queueNameOf(e, x.St, typ, flow.Strip(x.Res[0])); !sameVal(nm, qname) {
						bad("the queue has another name than requested")
					}
				case "Update":
					after := limitOf(x.St, args[0])
					if failed == 0 {
						if !sameVal(after, before) {
							bad("a failed update changes the reported limit")
						}
						if n["limerr"] == 0 && found == 1 {
							bad("an update is refused although the limiter worked")
						}
						continue
					}
					hit = true
					if found != 1 || n["on:UpdateOverride:0"] != 1 || n["lim:UpdateOverride"] != 1 {
						bad("the queue's override is not updated exactly once")
						continue
					}
					if l := e.LoadPath(x.St, x.St.MonV["lim:UpdateOverride:3"], "Limit", "*"); !sameVal(l, want) {
						bad("the override gets another limit than requested")
					}
					if !sameVal(after, want) {
						bad("the queue reports another limit than the new one")
					}
				case "Destroy":
					if failed == 0 {
						if n["limerr"] == 0 && found == 1 {
							bad("a destruction is refused although the limiter worked")
						}
						continue
					}
					hit = true
					if found == 1 && (n["on:DeleteOverride:0"] != 1 || n["lim:DeleteOverride"] != 1) {
						bad("the queue's override is not deleted exactly once")
					}
				}
			}
			c.Done(r, e)
			if name == "New" || found == 1 {
				c.Check(hit, r, what, c.P.Pos(fn.Pos()), "no path on which "+name+" works")
			} else {
				c.Ob(r, what)
			}
		}
	}
	return nil
}

func overrideID(e *flow.Engine, st *flow.State, o *flow.Val) *flow.Val {
	return e.LoadPath(st, o, "State", "ID")
}

// queueNameOf reads the name a queue was made with.
func queueNameOf(e *flow.Engine, st *flow.State, typ types.Type, q *flow.Val) *flow.Val {
	s := structOf(typ)
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), types.Typ[types.String]) {
			return e.LoadField(st, q, s.Field(i))
		}
	}
	return nil
}

// enqueuedKeys lists the reserved keys of the counter that limits what a queue holds, with the constant value of each
// ("": the queue's name).
func enqueuedKeys(c *Ctx) (map[string]string, error) {
	w, err := willowAnchors(c)
	if err != nil {
		return nil, err
	}
	keys := map[string]string{}
	fn, err := c.mqcMethod("Enqueue")
	if err != nil {
		return nil, err
	}
	h := mqcHooks(c, w, "Enqueue")
	call := h.Call
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if methodIs(ci.Method, "/clients/limiter_client") && ci.Method.Name() == "UpdateCounter" {
			m := e.LoadPath(st, ci.Args[len(ci.Args)-1], "Spec", "DBDefinition", "KeyValues")
			if ents, ok := e.Entries(st, m); ok {
				for _, en := range ents {
					k, ok := flow.StrVal(en.Args[0])
					if !ok {
						continue
					}
					v, _ := flow.StrVal(flow.Strip(fieldVal(e, st, en.Args[1], "Data")))
					keys[k] = v
				}
			}
		}
		return call(e, st, ci)
	}
	e := c.Engine(h)
	e.Unroll, e.Maps = 2, true
	st := flow.NewState()
	args := rootArgs(fn, st)
	for i := 0; i < structOf(w.typ).NumFields(); i++ {
		if f := structOf(w.typ).Field(i); isKeyValues(f.Type()) {
			st.Store(flow.FieldAddr(args[0], f), e.NewMap(st, "kvs", f.Type()))
		}
	}
	e.Analyze(fn, args, nil, st)
	if len(keys) < 2 {
		return nil, fmt.Errorf("the keys of a queue's enqueued counter were not found")
	}
	return keys, nil
}

// exactKeys: are these entries exactly the reserved keys with their values?
func exactKeys(e *flow.Engine, st *flow.State, ents []*flow.Val, keys map[string]string, qname *flow.Val, val func(*flow.Val) *flow.Val) bool {
	if len(ents) != len(keys) {
		return false
	}
	for _, en := range ents {
		k, ok := flow.StrVal(en.Args[0])
		want, have := keys[k]
		if !ok || !have {
			return false
		}
		d := fieldVal(e, st, val(en.Args[1]), "Data")
		if d == nil {
			return false
		}
		if want == "" {
			if !sameVal(d, qname) {
				return false
			}
		} else if s, ok := flow.StrVal(flow.Strip(d)); !ok || s != want {
			return false
		}
	}
	return true
}

// exactQuery: does the query select exactly the override with the reserved keys?
func exactQuery(e *flow.Engine, st *flow.State, q *flow.Val, keys map[string]string, qname *flow.Val) bool {
	sel := e.LoadPath(st, q, "Selection")
	if sel == nil {
		return false
	}
	ents, ok := e.Entries(st, e.LoadPath(st, sel, "KeyValues"))
	if !ok || !exactKeys(e, st, ents, keys, qname, func(v *flow.Val) *flow.Val { return fieldVal(e, st, v, "Value") }) {
		return false
	}
	for _, en := range ents {
		if s, ok := flow.StrVal(fieldVal(e, st, en.Args[1], "Comparison")); !ok || s != "=" {
			return false
		}
		tr := fieldVal(e, st, en.Args[1], "TypeRestrictions")
		kt := typeConst(e, st, fieldVal(e, st, en.Args[1], "Value"), "Type")
		lo, hi := typeConst(e, st, tr, "MinDataType"), typeConst(e, st, tr, "MaxDataType")
		if kt < 0 || lo != kt || hi != kt {
			return false
		}
	}
	for _, lim := range []string{"MinNumberOfKeyValues", "MaxNumberOfKeyValues"} {
		v := e.LoadPath(st, sel, lim, "*")
		if v == nil {
			return false
		}
		if i, ok := flow.IntVal(v); !ok || i != int64(len(keys)) {
			return false
		}
	}
	return true
}
