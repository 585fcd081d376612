package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

// waiting holds the anchors of the list of clients waiting to dequeue.
type waiting struct {
	typ                       types.Type
	list, lock                *types.Var // of the client
	elem                      types.Type // of the list
	fQueue, fQuery, fOps      *types.Var // of an element
	tree                      *types.Var
	enqueue, dequeue          *ssa.Function
	queueParam, enqQueueParam int
}

func waitingAnchors(c *Ctx) (*waiting, error) {
	w := &waiting{}
	var err error
	if w.typ, err = implOf(c, relQC, "QueueChannelsClient"); err != nil {
		return nil, err
	}
	s := structOf(w.typ)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if sl, ok := f.Type().Underlying().(*types.Slice); ok {
			if es := structOf(sl.Elem()); es != nil {
				w.list, w.elem = f, sl.Elem()
			}
		}
		if n := namedOf(f.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && strings.HasSuffix(n.Obj().Name(), "Mutex") {
			w.lock = f
		}
		if typeIs(f.Type(), pkgO2M, "BTreeOneToMany") {
			w.tree = f
		}
	}
	if w.list == nil || w.lock == nil || w.tree == nil {
		return nil, fmt.Errorf("the queue channels client has no list of waiting clients, no lock for it, or no tree of channels")
	}
	es := structOf(w.elem)
	for i := 0; i < es.NumFields(); i++ {
		f := es.Field(i)
		switch {
		case types.Identical(f.Type(), types.Typ[types.String]):
			w.fQueue = f
		case typeIs(f.Type(), "/query_associated_action", "AssociatedActionQuery"):
			w.fQuery = f
		case namedOf(f.Type()) != nil && namedOf(f.Type()).Obj().Pkg() != nil && strings.HasSuffix(namedOf(f.Type()).Obj().Pkg().Path(), "/channelops"):
			w.fOps = f
		}
	}
	if w.fQueue == nil || w.fQuery == nil || w.fOps == nil {
		return nil, fmt.Errorf("a waiting client has no queue name, query or channel operator")
	}
	if w.enqueue, err = methodOf(c, w.typ, "EnqueueQueueItem"); err != nil {
		return nil, err
	}
	if w.dequeue, err = methodOf(c, w.typ, "DequeueQueueItem"); err != nil {
		return nil, err
	}
	return w, nil
}

// client builds an element of the list.
func (w *waiting) client(queue *flow.Val, name string) *flow.Val {
	es := structOf(w.elem)
	var fs []*flow.Val
	for i := 0; i < es.NumFields(); i++ {
		switch f := es.Field(i); f {
		case w.fQueue:
			fs = append(fs, queue)
		case w.fQuery:
			fs = append(fs, flow.Root("query of "+name, f.Type()))
		case w.fOps:
			fs = append(fs, flow.Root("reader of "+name, f.Type()))
		default:
			fs = append(fs, flow.Root(f.Name()+" of "+name, f.Type()))
		}
	}
	return flow.StructVal(w.elem, fs...)
}

func (w *waiting) set(e *flow.Engine, st *flow.State, recv *flow.Val, name string, el ...*flow.Val) {
	st.Store(flow.FieldAddr(recv, w.list), e.FixedSlice(st, name, w.list.Type(), el...))
}

func (w *waiting) get(e *flow.Engine, st *flow.State, recv *flow.Val) ([]*flow.Val, bool) {
	return e.Elems(st, e.LoadField(st, recv, w.list))
}

// lockCall follows the lock of the list: what holds it, and that it is held when the list is used.
func (w *waiting) lockCall(st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
	if ci.Fn == nil || len(ci.Args) == 0 || flow.FieldOf(ci.Args[0]) != w.lock {
		return nil, false
	}
	switch ci.Fn.Name() {
	case "Lock":
		if st.Mon["held"] != 0 {
			st.Set("bad:the list's lock is taken while it is held", 1)
		}
		st.Set("held", 2)
	case "RLock":
		st.Set("held", 1)
	case "Unlock", "RUnlock":
		st.Set("held", 0)
	default:
		return nil, false
	}
	return []flow.Exit{{St: st, Pos: ci.Pos}}, true
}

func init() {
	register("W08", "waiting dequeue clients", func(c *Ctx) error {
		w, err := waitingAnchors(c)
		if err != nil {
			return err
		}
		if err := w.register(c); err != nil {
			return err
		}
		return w.offer(c)
	})
}

// offer: a new channel is offered to each waiting client it matches.
func (w *waiting) offer(c *Ctx) error {
	const r = "new-channel-offered"
	c.Rule(r, "a channel that was created and is running is offered, before the enqueue ends, to every client that waits on its queue with a query its key values match, and to nobody else", 3)
	type world struct {
		name  string
		same  []bool // waits on the queue
		match []bool
	}
	var worlds []world
	for n := 0; n <= 3; n++ {
		for q := 0; q < 1<<n; q++ {
			for m := 0; m < 1<<n; m++ {
				if n == 3 && q&m != q {
					continue
				}
				var wd world
				for i := 0; i < n; i++ {
					wd.same = append(wd.same, q>>i&1 == 1)
					wd.match = append(wd.match, m>>i&1 == 1)
				}
				wd.name = fmt.Sprintf("%d waiting, on the queue %v, matching %v", n, wd.same, wd.match)
				worlds = append(worlds, wd)
			}
		}
	}
	fn := w.enqueue
	for _, wd := range worlds {
		wd := wd
		l := &lc{c: c, typ: w.typ, rule: r}
		h := l.hooks()
		st := flow.NewState()
		args := rootArgs(fn, st)
		recv := args[0]
		var queue, kvs *flow.Val
		e := c.Engine(h)
		e.Unroll, e.Maps = 4, true
		for i, p := range fn.Params {
			switch {
			case types.Identical(p.Type(), types.Typ[types.String]):
				queue = args[i]
			case typeIs(p.Type(), "willow/v1", "Item"):
				kvs = e.LoadPath(st, args[i], "Spec", "DBDefinition", "KeyValues")
			}
		}
		if queue == nil || kvs == nil {
			return fmt.Errorf("EnqueueQueueItem has no queue name or item")
		}
		var els []*flow.Val
		for i := range wd.same {
			q := queue
			if !wd.same[i] {
				q = flow.Root(fmt.Sprint("other queue ", i), types.Typ[types.String])
				st.Restrict(q, queue, flow.LT|flow.GT)
			}
			els = append(els, w.client(q, fmt.Sprint("client ", i)))
		}
		w.set(e, st, recv, "waiting", els...)
		idx := func(v *flow.Val, what string) int {
			for i := range wd.same {
				if flow.Strip(v).Key() == flow.Root(fmt.Sprint(what, " of client ", i), v.T).Key() || containsVal(v, flow.Root(fmt.Sprint(what, " of client ", i), flow.Strip(v).T)) {
					return i
				}
			}
			return -1
		}
		call := h.Call
		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			if ex, ok := w.lockCall(st, ci); ok {
				return ex, true
			}
			if m := callee(ci); m != nil && strings.HasSuffix(pkgPathOf(m), "/channelops") {
				rv, as := argsOf(ci)
				i := -1
				if rv != nil {
					i = idx(rv, "reader")
				}
				if i < 0 || !strings.HasPrefix(m.Name(), "MergeOrToOne") {
					return e.Unknown(st, ci), true
				}
				if st.Mon["held"] == 0 {
					st.Set("bad:waiting clients are looked at without the list's lock", 1)
				}
				var chs []*flow.Val
				for _, a := range as {
					if el, ok := e.Elems(st, a); ok {
						chs = append(chs, el...)
					} else {
						chs = append(chs, a)
					}
				}
				ok := len(chs) == 1 && st.MonV["ch:New:res0"] != nil && containsVal(chs[0], flow.Term("deqchan", flow.Strip(chs[0]).T, flow.Strip(st.MonV["ch:New:res0"])))
				if !ok {
					st.Set("bad:a waiting client is offered something else than the new channel", 1)
				}
				st.Inc(fmt.Sprint("offered:", i), 1)
				st.Note(ci.Pos, "offered to client %d", i)
				if st.Mon["ch:Enqueue"] == 0 || st.Mon["task"] == 0 {
					st.Set("early", 1)
				}
				return e.Unknown(st, ci), true
			}
			if m := callee(ci); m != nil && strings.HasSuffix(pkgPathOf(m), "/query_associated_action") && m.Name() == "MatchTags" {
				rv, as := argsOf(ci)
				if i := idx(rv, "query"); i >= 0 && len(as) == 1 && containsVal(as[0], kvs) {
					return []flow.Exit{{St: st, Res: []*flow.Val{flow.Bool(wd.match[i])}, Pos: ci.Pos}}, true
				}
			}
			return call(e, st, ci)
		}
		created := false
		for _, x := range e.Analyze(fn, args, nil, st) {
			if x.Panic {
				continue
			}
			n := x.St.Mon
			bad := func(what string) {
				c.Fail(r, "EnqueueQueueItem: "+what, c.P.Pos(x.Pos), fmt.Sprintf("%s (%s; on this path: %s)", what, wd.name, monInts(x.St)), e.Witness(x.St.Tr, 30)...)
			}
			for _, k := range sortedKeys(n) {
				if strings.HasPrefix(k, "bad:") {
					bad(k[4:])
				}
			}
			if n["held"] != 0 {
				bad("the list's lock is kept")
			}
			isNew := n["ch:New"] == 1 && n["ch:Enqueue:failed"] == 0 && n["task"] == 1
			created = created || isNew
			for i := range wd.same {
				want := 0
				if isNew && wd.same[i] && wd.match[i] {
					want = 1
				}
				got := n[fmt.Sprint("offered:", i)]
				switch {
				case want == 1 && got == 0:
					bad("a waiting client is not offered a new channel that matches it")
				case want == 0 && got != 0 && isNew:
					bad("a waiting client is offered a channel that is not for it")
				case want == 0 && got != 0:
					bad("waiting clients are offered a channel that was not created")
				}
			}
		}
		c.Done(r, e)
		c.Check(created, r, wd.name, c.P.Pos(fn.Pos()), "no path on which a channel is created")
	}
	return nil
}

// register: waiting from before the first look at the existing channels until the client returns.
func (w *waiting) register(c *Ctx) error {
	const r = "waits-for-channels"
	const r2 = "hands-out-what-it-got"
	c.Rule(r, "a dequeue is in the list of waiting clients, with its queue and query, before the existing channels are looked at, and is taken out again, and only it, on every way it ends; each existing channel that matches is added until the client was served", 7)
	c.Rule(r2, "what is returned is the item a channel offered with its own two callbacks, after the reading was stopped; an offer without an item continues the wait; without an item the answer is an error", 2)
	fn := w.dequeue
	queueIdx, queryIdx := -1, -1
	for i, p := range fn.Params {
		switch {
		case types.Identical(p.Type(), types.Typ[types.String]):
			queueIdx = i
		case typeIs(p.Type(), "/query_associated_action", "AssociatedActionQuery"):
			queryIdx = i
		}
	}
	if queueIdx < 0 || queryIdx < 0 {
		return fmt.Errorf("DequeueQueueItem has no queue name or query")
	}
	// how the list looks while this client ("self") waits: others may come and go
	shapes := [][]string{{"self"}, {"self", "A"}, {"A", "self"}, {"A", "self", "B"}, {"self", "A", "B"}, {"A", "B", "self"}}
	served, ended := false, false
	for _, shape := range shapes {
		shape := shape
		name := strings.Join(shape, " ")
		l := &lc{c: c, typ: w.typ, rule: r}
		l.tm = &TreeModel{}
		st := flow.NewState()
		args := rootArgs(fn, st)
		recv := args[0]
		other := func(n string) *flow.Val { return w.client(flow.Root("queue of "+n, types.Typ[types.String]), n) }
		var ops, reader *flow.Val
		isSelf := func(e *flow.Engine, st *flow.State, v *flow.Val) bool {
			o := fieldOfStruct(e, st, v, w.fOps)
			return o != nil && ops != nil && containsVal(o, ops)
		}
		registered := func(e *flow.Engine, st *flow.State) *flow.Val {
			el, _ := w.get(e, st, recv)
			for _, v := range el {
				if isSelf(e, st, v) {
					return v
				}
			}
			return nil
		}
		looked := func(e *flow.Engine, st *flow.State) {
			if st.Mon["looked"] != 0 {
				return
			}
			st.Set("looked", 1)
			s := registered(e, st)
			if s == nil {
				st.Set("bad:existing channels are looked at before the client is in the list of waiting clients", 1)
				return
			}
			q, qu := fieldOfStruct(e, st, s, w.fQueue), fieldOfStruct(e, st, s, w.fQuery)
			if q == nil || !containsVal(q, args[queueIdx]) {
				st.Set("bad:the client waits on another queue", 1)
			}
			if qu == nil || !containsVal(qu, args[queryIdx]) {
				st.Set("bad:the client waits with another query", 1)
			}
			el, _ := w.get(e, st, recv)
			n := 0
			for _, v := range el {
				for _, o := range []string{"A", "B"} {
					if v.Key() == other(o).Key() {
						n++
					}
				}
			}
			if len(el) != n+1 {
				st.Set("bad:taking a client into the list changes the others", 1)
			}
			// others come and go
			var now []*flow.Val
			for _, o := range shape {
				if o == "self" {
					now = append(now, s)
				} else {
					ot := fieldOfStruct(e, st, other(o), w.fOps)
					st.Restrict(ot, ops, flow.LT|flow.GT)
					st.Restrict(ot, fieldOfStruct(e, st, s, w.fOps), flow.LT|flow.GT)
					now = append(now, other(o))
				}
			}
			w.set(e, st, recv, "others came and went", now...)
		}
		l.tm.OnOp = func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
			if strings.HasPrefix(op, "o2m.") {
				st.Set("scanned", 1)
				if op != "o2m.QueryAction" || len(key.Args) != 2 || key.Args[0].Key() != args[queueIdx].Key() || !containsVal(key.Args[1], args[queryIdx]) {
					st.Set("bad:other channels are looked at than the query's", 1)
				}
			}
		}
		l.tm.OnEnter = func(e *flow.Engine, st *flow.State, op string, tree, key, item *flow.Val, in ssa.Instruction) {
			st.Set("merged", 0)
		}
		l.tm.OnLeave = func(e *flow.Engine, st *flow.State, op string, tree, key, item *flow.Val, cont int, in ssa.Instruction) {
			switch {
			case st.Mon["merged"] == 0:
				st.Set("bad:an existing channel that matches is not added", 1)
			case cont == 0 && st.Mon["closed"] == 0:
				st.Set("bad:looking for existing channels stops although the client was not served", 1)
			}
		}
		h := l.hooks()
		e := c.Engine(h)
		e.Unroll, e.Maps = 4, true
		call := h.Call
		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			if ex, ok := w.lockCall(st, ci); ok {
				return ex, true
			}
			if ci.Go {
				looked(e, st)
				return call(e, st, ci)
			}
			m := callee(ci)
			if ci.Fn != nil && strings.HasPrefix(ci.Fn.Name(), "NewRepeatableMergeRead") && ci.Res.Len() == 2 {
				ops = e.FreshAlloc(st, ci.Instr, ci.Res.At(0).Type())
				reader = e.Fresh(st, ci.Instr, "reader", ci.Res.At(1).Type())
				st.Restrict(ops, flow.NilOf(ops.T), flow.LT|flow.GT)
				own, srv := false, false
				for _, a := range ci.Args {
					el, ok := e.Elems(st, a)
					if !ok {
						el = []*flow.Val{a}
					}
					for _, v := range el {
						if f := flow.FieldOf(v); f != nil && isFieldOf(w.typ, f) {
							srv = true
						}
						if flow.Contains(v, func(y *flow.Val) bool {
							return y.K == flow.KSym && y.Root && y.T != nil && typeIs(y.T, "context", "Context") || y.Key() == args[1].Key()
						}) || containsCtx(v, st) {
							own = true
						}
					}
				}
				if !own {
					st.Set("bad:the wait does not end with the client's request", 1)
				}
				if !srv {
					st.Set("bad:the wait does not end when the server shuts down", 1)
				}
				return []flow.Exit{{St: st, Res: []*flow.Val{ops, reader}, Pos: ci.Pos}}, true
			}
			if m != nil && strings.HasSuffix(pkgPathOf(m), "/channelops") && strings.HasPrefix(m.Name(), "MergeOrToOne") {
				rv, as := argsOf(ci)
				if rv != nil && ops != nil && containsVal(rv, ops) {
					var chs []*flow.Val
					for _, a := range as {
						if el, ok := e.Elems(st, a); ok {
							chs = append(chs, el...)
						} else {
							chs = append(chs, a)
						}
					}
					if len(chs) != 1 || !flow.Contains(chs[0], func(v *flow.Val) bool { return v.K == flow.KTerm && v.S == "deqchan" }) {
						st.Set("bad:something else than the found channel is added", 1)
					}
					st.Inc("merged", 1)
					a := st.Clone()
					st.Set("closed", 1)
					return []flow.Exit{{St: a, Res: []*flow.Val{nilErr()}, Pos: ci.Pos}, {St: st, Res: []*flow.Val{freshErr(e, st, ci.Instr, "merr")}, Pos: ci.Pos}}, true
				}
			}
			if ci.FnVal != nil && ci.Fn == nil {
				fv := flow.Strip(ci.FnVal)
				if f := flow.FieldOf(fv); f != nil && f.Pkg() != nil && strings.HasSuffix(f.Pkg().Path(), "/channelops") {
					if b := flow.BaseOf(fv); b == nil || st.MonV["offer"] == nil || b.Key() != st.MonV["offer"].Key() {
						return e.Unknown(st, ci), true
					}
					switch f.Name() {
					case "Stop":
						st.Set("stopped", 1)
						st.Note(ci.Pos, "reading stopped")
						return []flow.Exit{{St: st, Pos: ci.Pos}}, true
					case "Continue":
						st.Set("continued", 1)
						if st.Mon["gotitem"] == 1 {
							st.Set("bad:reading continues although an item was received", 1)
						}
						st.Note(ci.Pos, "reading continues")
						return []flow.Exit{{St: st, Pos: ci.Pos}}, true
					case "Value":
						ok := st.Clone()
						res := func(s *flow.State, nilled bool) []*flow.Val {
							var rs []*flow.Val
							for i := 0; i < ci.Res.Len(); i++ {
								t := ci.Res.At(i).Type()
								v := flow.NilOf(t)
								if !nilled {
									v = e.Fresh(s, ci.Instr, fmt.Sprint("offered", i), t)
									s.Restrict(v, flow.NilOf(t), flow.LT|flow.GT)
								}
								s.MonV[fmt.Sprint("offered", i)] = v
								rs = append(rs, v)
							}
							return rs
						}
						ok.Set("gotitem", 1)
						ok.Note(ci.Pos, "an item is offered")
						st.Set("gotitem", 0)
						st.Note(ci.Pos, "nothing is offered")
						return []flow.Exit{{St: ok, Res: res(ok, false), Pos: ci.Pos}, {St: st, Res: res(st, true), Pos: ci.Pos}}, true
					}
				}
			}
			return call(e, st, ci)
		}
		h.Recv = func(e *flow.Engine, st *flow.State, ch *flow.Val, in ssa.Instruction) (*flow.Val, bool) {
			if reader != nil && ch.Key() == reader.Key() {
				if st.Mon["offers"] > 0 && st.Mon["continued"] == 0 {
					st.Set("bad:the next offer is waited for without continuing the reading", 1)
				}
				st.Set("offers", 1)
				st.Set("continued", 0)
				st.Set("stopped", 0)
				st.Set("gotitem", 0)
				v := e.Fresh(st, in, "offer", reader.T.Underlying().(*types.Chan).Elem())
				st.MonV["offer"] = v
				return v, true
			}
			return nil, true
		}
		w.set(e, st, recv, "already waiting", other("A"), other("B"))
		exits := e.Analyze(fn, args, nil, st)
		c.Done(r, e)
		var want []string
		for _, o := range shape {
			if o != "self" {
				want = append(want, o)
			}
		}
		for _, x := range exits {
			if x.Panic {
				continue
			}
			n := x.St.Mon
			fail := func(rule, what string) {
				c.Fail(rule, "DequeueQueueItem: "+what, c.P.Pos(x.Pos), fmt.Sprintf("%s (waiting: %s; on this path: %s)", what, name, monInts(x.St)), e.Witness(x.St.Tr, 30)...)
			}
			for _, k := range sortedKeys(n) {
				if strings.HasPrefix(k, "bad:") {
					rule := r
					if strings.Contains(k, "reading") {
						rule = r2
					}
					fail(rule, k[4:])
				}
			}
			if n["held"] != 0 {
				fail(r, "the list's lock is kept")
			}
			if n["looked"] == 0 && n["scanned"] == 0 {
				fail(r, "existing channels are not looked at")
			}
			el, ok := w.get(e, x.St, recv)
			if !ok {
				fail(r, "undecided: the list of waiting clients at the end is not known")
			}
			left := map[string]int{}
			for _, v := range el {
				switch {
				case isSelf(e, x.St, v):
					left["self"]++
				case v.Key() == other("A").Key():
					left["A"]++
				case v.Key() == other("B").Key():
					left["B"]++
				default:
					left["?"]++
				}
			}
			if left["self"] > 0 {
				fail(r, "the client stays in the list of waiting clients")
			}
			others := len(el) - left["self"]
			for _, o := range want {
				if left[o] != 1 {
					fail(r, "another client is lost from the list of waiting clients")
				}
			}
			if others != len(want) {
				fail(r, "the list of waiting clients holds something else")
			}
			if len(x.Res) != 4 {
				return fmt.Errorf("DequeueQueueItem has %d results", len(x.Res))
			}
			item, er := resNil(x, 0), resNil(x, 3)
			switch {
			case item == 0:
				served = true
				for i := 0; i < 3; i++ {
					if v := x.St.MonV[fmt.Sprint("offered", i)]; v == nil || flow.Strip(x.Res[i]).Key() != flow.Strip(v).Key() {
						fail(r2, []string{"another item is returned than was offered", "the callback for success is not the offered one", "the callback for failure is not the offered one"}[i])
					}
				}
				if n["stopped"] == 0 {
					fail(r2, "an item is returned while the reading goes on")
				}
				if er != 1 {
					fail(r2, "an item is returned with an error")
				}
			default:
				ended = true
				if n["gotitem"] == 1 {
					fail(r2, "an offered item is not returned")
				}
				if er != 0 {
					fail(r2, "no item and no error is returned")
				}
			}
		}
		c.Ob(r, "waiting: "+name)
		// what looks for existing channels in the background
		l.deleting = false
		seen := map[string]bool{}
		for _, sp := range l.spawned {
			fv := flow.Strip(sp.fn)
			if fv.K != flow.KFn || seen[fv.Key()] {
				continue
			}
			seen[fv.Key()] = true
			e := c.Engine(h)
			sp.st.Set("scanned", 0)
			for _, x := range e.Analyze(fv.Fn, sp.args, fv.Args, sp.st) {
				if x.Panic {
					continue
				}
				for _, k := range sortedKeys(x.St.Mon) {
					if strings.HasPrefix(k, "bad:") {
						c.Fail(r, "DequeueQueueItem: "+k[4:], c.P.Pos(x.Pos), fmt.Sprintf("%s (on this path: %s)", k[4:], monInts(x.St)), e.Witness(x.St.Tr, 30)...)
					}
				}
				if x.St.Mon["scanned"] == 0 {
					c.Fail(r, "DequeueQueueItem: existing channels are not looked at", c.P.Pos(x.Pos), "existing channels are not looked at", e.Witness(x.St.Tr, 30)...)
				}
				c.Ob(r, "existing channels looked at")
			}
			c.Done(r, e)
		}
	}
	c.Check(served, r2, "served", c.P.Pos(fn.Pos()), "no path on which an item is returned")
	c.Check(ended, r2, "not served", c.P.Pos(fn.Pos()), "no path on which the wait ends without an item")
	return nil
}

// fieldOfStruct reads a field of a struct value, or of the struct a pointer leads to.
func fieldOfStruct(e *flow.Engine, st *flow.State, v *flow.Val, f *types.Var) *flow.Val {
	if v == nil {
		return nil
	}
	if v.T != nil {
		if _, ok := v.T.Underlying().(*types.Pointer); ok {
			return e.LoadField(st, v, f)
		}
	}
	return flow.Project(v, f)
}

// containsCtx: is the value (or what it was derived from) a request's context?
func containsCtx(v *flow.Val, st *flow.State) bool {
	return v.T != nil && typeIs(v.T, "context", "Context") && flow.FieldOf(v) == nil
}
