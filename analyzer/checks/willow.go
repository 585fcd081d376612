package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

const relMQC = "internal/willow/brokers/queue_channels/memory"

// willowChan holds the anchors of the in-memory queue channel.
type willowChan struct {
	typ                                            *types.Named
	fItems, fIDs, fNotifier, fDeq, fDeqRsp         *types.Var
	fPassed                                        *types.Var
	item                                           *types.Named
	iHb, iUpd, iPos, iCount, iMax, iData, iTimeout *types.Var
	// deleting: the channel is being deleted, or was, while the operation runs
	deleting bool
}

func willowAnchors(c *Ctx) (*willowChan, error) {
	w := &willowChan{}
	var err error
	if w.typ, err = c.P.Named(relMQC, "memoryQueueChannel"); err != nil {
		return nil, err
	}
	if w.item, err = c.P.Named(relMQC, "item"); err != nil {
		return nil, err
	}
	// roles by type, so that a renamed field keeps its role
	st := structOf(w.typ)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch t := f.Type().Underlying().(type) {
		case *types.Slice:
			if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				w.fIDs = f
			}
		case *types.Chan:
			if _, ok := t.Elem().Underlying().(*types.Signature); ok {
				w.fDeq = f
			} else if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				w.fDeqRsp = f
			}
		}
		if typeIs(f.Type(), "/gonotify", "Notify") {
			w.fNotifier = f
		}
		if typeIs(f.Type(), pkgBtree, "BTree") {
			w.fItems = f
		}
	}
	for n, f := range map[string]*types.Var{"items tree": w.fItems, "waiting id list": w.fIDs, "notifier": w.fNotifier, "dequeue channel": w.fDeq, "dequeue response channel": w.fDeqRsp} {
		if f == nil {
			return nil, fmt.Errorf("the in-memory queue channel has no field in the role of %s", n)
		}
	}
	ack, err := c.P.Named("pkg/models/api/willow/v1", "ACK")
	if err != nil {
		return nil, err
	}
	if w.fPassed = fieldNamed(ack, "Passed"); w.fPassed == nil {
		return nil, fmt.Errorf("the ACK model has no Passed field")
	}
	is := structOf(w.item)
	var counts []*types.Var
	for i := 0; i < is.NumFields(); i++ {
		f := is.Field(i)
		if typeIs(f.Type(), "internal/heartbeater", "Heartbeater") {
			w.iHb = f
		}
		switch t := f.Type().Underlying().(type) {
		case *types.Basic:
			switch {
			case typeIs(f.Type(), "time", "Duration"):
				w.iTimeout = f
			case t.Kind() == types.Bool:
				w.iUpd = f
			case t.Kind() == types.String:
				w.iPos = f
			case t.Info()&types.IsInteger != 0:
				counts = append(counts, f)
			}
		case *types.Slice:
			w.iData = f
		}
	}
	for n, f := range map[string]*types.Var{"updateable flag": w.iUpd, "retry position": w.iPos, "data": w.iData, "heartbeat timeout": w.iTimeout, "heartbeat process": w.iHb} {
		if f == nil {
			return nil, fmt.Errorf("the queue item has no field in the role of %s", n)
		}
	}
	// of the two counters, the one that is ever changed on a stored item by arithmetic is the retry count
	for _, f := range counts {
		if incremented(c, f) {
			w.iCount = f
		} else {
			w.iMax = f
		}
	}
	if w.iCount == nil || w.iMax == nil {
		return nil, fmt.Errorf("the queue item's retry count and retry limit were not told apart")
	}
	return w, nil
}

// incremented: is the field ever stored with a value computed from arithmetic?
func incremented(c *Ctx, f *types.Var) bool {
	for _, fn := range c.P.AllFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && structOf(fa.X.Type()).Field(fa.Field) == f {
						if _, ok := st.Val.(*ssa.BinOp); ok {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// isListElem: does the value come out of the waiting list?
func (w *willowChan) isListElem(v *flow.Val) bool {
	return flow.Contains(v, func(x *flow.Val) bool {
		if x.K == flow.KTerm && strings.HasPrefix(x.S, "ld") && x.Args[0].K == flow.KAddr && strings.HasPrefix(x.Args[0].S, "[") {
			return w.isList(x.Args[0].Args[0])
		}
		return false
	})
}

func (w *willowChan) isList(v *flow.Val) bool {
	v = flow.Strip(v)
	if v.K == flow.KTerm && (v.S == "slice" || v.S == "append") {
		for _, a := range v.Args {
			if w.isList(a) {
				return true
			}
		}
		return false
	}
	return flow.FieldOf(v) == w.fIDs
}

// limiterUpdate classifies a call to the limiter client and returns the counter kind and the delta.
func limiterUpdate(e *flow.Engine, st *flow.State, c *flow.CallInfo) (op, kind string, delta *flow.Val) {
	var name string
	var args []*flow.Val
	switch {
	case methodIs(c.Method, "/clients/limiter_client"):
		name, args = c.Method.Name(), c.Args
	default:
		return "", "", nil
	}
	if name != "UpdateCounter" && name != "SetCounters" {
		return name, "", nil
	}
	counter := args[len(args)-1]
	kv := e.LoadPath(st, counter, "Spec", "DBDefinition", "KeyValues")
	delta = e.LoadPath(st, counter, "Spec", "Properties", "Counters", "*")
	kind = "?"
	if kv != nil {
		_, enq := st.MapGet(kv, "_willow_enqueued")
		_, run := st.MapGet(kv, "_willow_running")
		switch {
		case enq && !run:
			kind = "enqueued"
		case run && !enq:
			kind = "running"
		}
	}
	return name, kind, delta
}

type mqcEntry struct {
	name string
	fn   *ssa.Function
	args []*flow.Val
	bind []*flow.Val
	st   *flow.State
}

// mqcHooks builds the event monitor shared by the queue channel's rules. Besides counting, it records in
// Mon["bad:..."] what is wrong at the very event, where the branch facts still say why.
func mqcHooks(c *Ctx, w *willowChan, mode string) *flow.Hooks {
	mustStop := mode == "success callback" || mode == "failure callback" || mode == "heartbeat timeout"
	bad := func(st *flow.State, what string) { st.Set("bad:"+what, 1) }
	h := &flow.Hooks{HavocOnLock: true}
	h.Feasible = func(e *flow.Engine, st *flow.State) bool {
		if !w.validPosition(st) {
			return false
		}
		st.Facts(func(x, y *flow.Val, bits int) {
			if y.K == flow.KConst || y.K == flow.KNil {
				x, y = y, x
			}
			if sv, ok := flow.StrVal(x); ok && bits == flow.EQ && flow.FieldOf(y) == w.iPos && (sv == "front" || sv == "back") && !w.isListElemItem(y) {
				st.Set("pos_"+sv, 1)
			} else if ok && bits&flow.EQ == 0 && flow.FieldOf(y) == w.iPos && (sv == "front" || sv == "back") && !w.isListElemItem(y) {
				st.Set("pos_"+map[string]string{"front": "back", "back": "front"}[sv], 1) // there are only these two
			}
			if f := flow.FieldOf(y); f != nil && f == w.iHb && x.K == flow.KNil && bits == flow.EQ {
				st.Set("hbnil", 1)
			}
			if f := flow.FieldOf(y); f != nil && f == w.fPassed && (flow.IsTrue(x) || flow.IsFalse(x)) {
				if flow.IsTrue(x) == (bits == flow.EQ) {
					st.Set("passed", 1)
				} else {
					st.Set("passed", 2)
				}
			}
		})
		return true
	}
	// what is known about the retry count of the failing item, at the moment an item leaves or re-enters the list
	exceeded := func(e *flow.Engine, st *flow.State, item *flow.Val) int {
		n, m := e.LoadField(st, item, w.iCount), e.LoadField(st, item, w.iMax)
		r := st.Rel(n, m)
		switch {
		case r == flow.GT:
			return 1
		case r&flow.GT == 0:
			return 0
		}
		return -1
	}
	asItem := func(v *flow.Val) *flow.Val {
		if v.T != nil && types.IsInterface(v.T) {
			return flow.Term("ta", types.NewPointer(w.item), v)
		}
		return v
	}
	isFail := mode == "ACK" || mode == "heartbeat timeout"
	tm := &TreeModel{
		Err: func(tree *flow.Val, op string) bool { return w.deleting || flow.FieldOf(tree) != w.fItems },
		Errs: func(e *flow.Engine, st *flow.State, tree *flow.Val, op string) []*flow.Val {
			if w.deleting && flow.FieldOf(tree) == w.fItems {
				return []*flow.Val{treeGlobal(c, e, st, "internal/datastructures/btree", "ErrorTreeDestroying")}
			}
			return []*flow.Val{e.Fresh(st, nil, "terr", errType())}
		},
		Present: func(e *flow.Engine, st *flow.State, tree, key *flow.Val, op string) int {
			if flow.FieldOf(tree) != w.fItems || w.deleting {
				return -1
			}
			if w.isListElem(key) || mustStop {
				return 1 // every id in the waiting list has its item, and so has an item just handed out
			}
			return -1
		},
		OnEnter: func(e *flow.Engine, st *flow.State, op string, tree, key, item *flow.Val, in ssa.Instruction) {
			if flow.FieldOf(tree) == w.fItems && item != nil {
				st.MonV["item"] = asItem(item)
				st.MonV["key"] = key
				if op == "btree.Find" {
					st.MonV["foundkey"] = key
				}
			}
		},
		OnCreate: func(e *flow.Engine, st *flow.State, tree, key, val *flow.Val, in ssa.Instruction) {
			if flow.FieldOf(tree) == w.fItems {
				st.Inc("items", 1)
				st.MonV["createdkey"] = key
				st.Note(in.Pos(), "item stored")
			}
		},
		OnRemove: func(e *flow.Engine, st *flow.State, tree, key, item *flow.Val, in ssa.Instruction) {
			if flow.FieldOf(tree) != w.fItems {
				return
			}
			st.Inc("items", -1)
			delete(st.MonV, "empty")
			st.MonV["removedkey"] = key
			st.Note(in.Pos(), "item removed")
			if w.isListElem(key) {
				if st.Truth(e.LoadField(st, asItem(item), w.iUpd)) != 1 {
					bad(st, "waiting item removed although it is not updateable")
				}
				if w.elemIndex(key) != "last" {
					bad(st, "a waiting item that is not the last one is removed")
				}
				return
			}
			if isFail && st.Mon["passed"] != 1 || mode == "failure callback" {
				if ex := st.Mon["exceeded"]; ex != 1 && st.Mon["drop_ok"] != 1 {
					bad(st, "failed item removed although it has retries left and no newer item replaces it")
				}
			}
		},
		OnLeave: func(e *flow.Engine, st *flow.State, op string, tree, key, item *flow.Val, cont int, in ssa.Instruction) {
			if flow.FieldOf(tree) != w.fItems || item == nil || w.isListElem(key) {
				return
			}
			if isFail || mode == "failure callback" {
				item = asItem(item)
				switch exceeded(e, st, item) {
				case 1:
					st.Set("exceeded", 1)
				case 0:
					st.Set("exceeded", 2)
				}
				if st.Truth(e.LoadField(st, asItem(item), w.iUpd)) == 1 && w.listLenKnownPositive(e, st) {
					st.Set("drop_ok", 1)
				}
			}
		},
		OnOp: func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
			if flow.FieldOf(tree) == w.fItems && outcome == "error" {
				st.Set("destroying", 1)
			}
			if flow.FieldOf(tree) == w.fItems && outcome == "absent" && w.deleting {
				st.Set("gone", 1)
			}
			if flow.FieldOf(tree) == w.fItems && (outcome == "removed" || outcome == "kept" || outcome == "found" || outcome == "absent") {
				st.Inc("op_"+outcome, 1)
			}
		},
	}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if op, kind, delta := limiterUpdate(e, st, ci); op != "" {
			ok := st.Clone()
			failed := st
			if op == "UpdateCounter" {
				d, known := int64(0), false
				if delta != nil {
					d, known = flow.IntVal(delta)
				}
				if kind == "?" || !known {
					ok.Set("unclassified", 1)
					ok.Note(ci.Pos, "counter update of unknown kind or amount (%s, %v)", kind, delta)
				} else {
					key := map[string]string{"enqueued": "enq", "running": "run"}[kind]
					ok.Inc(key, int(d))
					ok.Note(ci.Pos, "limiter: %s %+d", kind, d)
				}
			}
			if op == "SetCounters" {
				if d, known := flow.IntVal(delta); known && d == 0 {
					ok.Set("set_"+kind, 1)
				}
			}
			if ci.Res.Len() == 1 {
				failed.Set("limerr", 1)
				what := "to 0"
				if d, known := flow.IntVal(orInt(delta)); known && op == "UpdateCounter" {
					what = fmt.Sprintf("%+d", d)
				}
				failed.Set("failing:"+kind+" "+what, 1)
				failed.Note(ci.Pos, "limiter %s fails", op)
				return []flow.Exit{{St: ok, Res: []*flow.Val{nilErr()}, Pos: ci.Pos}, {St: failed, Res: []*flow.Val{freshErr(e, failed, ci.Instr, "lerr")}, Pos: ci.Pos}}, true
			}
			return nil, false
		}
		if kind, op, tree, _ := treeKind(ci); kind == "btree" && op == "Empty" && flow.FieldOf(tree) == w.fItems {
			ex := e.Unknown(st, ci)
			ex[0].St.MonV["empty"] = ex[0].Res[0]
			return ex, true
		}
		if ex, ok := tm.Call(e, st, ci); ok {
			return ex, true
		}
		// the notifier: one token per waiting item
		if ci.Fn != nil && ci.Fn.Signature.Recv() != nil && typeIs(ci.Fn.Signature.Recv().Type(), "/gonotify", "Notify") && !ci.Go {
			switch ci.Fn.Name() {
			case "Add":
				st.Inc("notif", 1)
				st.Note(ci.Pos, "notifier token added")
			case "ForceStop":
				st.Set("stopped", 1)
			}
			return e.Unknown(st, ci), true
		}
		// a heartbeat process: what its operations report
		if ci.Method != nil && methodIs(ci.Method, "internal/heartbeater") {
			switch ci.Method.Name() {
			case "Stop":
				y := st.Clone()
				y.Inc("hbstop", 1)
				y.Note(ci.Pos, "heartbeat stopped by this call")
				if mustStop {
					return []flow.Exit{{St: y, Res: []*flow.Val{flow.Bool(true)}, Pos: ci.Pos}}, true
				}
				st.Note(ci.Pos, "heartbeat had already ended")
				return []flow.Exit{{St: y, Res: []*flow.Val{flow.Bool(true)}, Pos: ci.Pos}, {St: st, Res: []*flow.Val{flow.Bool(false)}, Pos: ci.Pos}}, true
			case "Start":
				st.Inc("hbstart", 1)
				return e.Unknown(st, ci), true
			case "Heartbeat":
				y := st.Clone()
				y.Inc("hbbeat", 1)
				return []flow.Exit{{St: y, Res: []*flow.Val{flow.Bool(true)}, Pos: ci.Pos}, {St: st, Res: []*flow.Val{flow.Bool(false)}, Pos: ci.Pos}}, true
			}
		}
		if ci.Fn != nil && ci.Fn.Pkg != nil && strings.HasSuffix(ci.Fn.Pkg.Pkg.Path(), "internal/heartbeater") && ci.Fn.Name() == "New" {
			st.Inc("hbnew", 1)
			for _, a := range ci.Args {
				if a.T != nil && typeIs(a.T, "time", "Duration") {
					st.MonV["hbtimeout"] = a
				}
				if a.K == flow.KFn {
					st.MonV["timeout"] = a
				}
			}
			v := e.FreshAlloc(st, ci.Instr, ci.Res.At(0).Type())
			return []flow.Exit{{St: st, Res: []*flow.Val{v, nilErr()}, Pos: ci.Pos}}, true
		}
		// the heartbeat process is handed to the task manager
		if ci.Method != nil && ci.Method.Name() == "AddExecuteTask" {
			y := st.Clone()
			y.Inc("hbadded", 1)
			st.Set("hbnotadded", 1)
			return []flow.Exit{{St: y, Res: []*flow.Val{nilErr()}, Pos: ci.Pos}, {St: st, Res: []*flow.Val{freshErr(e, st, ci.Instr, "terr")}, Pos: ci.Pos}}, true
		}
		if opaqueAmbient(ci) {
			return e.Unknown(st, ci), true
		}
		return nil, false
	}
	h.Store = func(e *flow.Engine, st *flow.State, addr, val *flow.Val, in ssa.Instruction) {
		if addr.K == flow.KAddr && addr.Field == w.fIDs {
			d, end, elem, ok := w.listChange(e, st, val)
			if !ok {
				st.Set("unclassified", 1)
				st.Note(in.Pos(), "the waiting list is replaced by something that is neither an append nor a cut of it")
				return
			}
			st.Inc("ids", d)
			st.Note(in.Pos(), "waiting list %+d at the %s", d, end)
			if d > 0 && w.listLenZero(e, st) {
				end = "any"
			}
			if d != 0 {
				st.Set("ids_"+end, 1)
			}
			if elem != nil {
				st.MonV["added"] = elem
			}
			if end == "replace" {
				st.Inc("idreplace", 1)
				if isFail && st.Mon["pos_back"] != 1 {
					bad(st, "an item to retry at the front takes the place of the last one")
				}
			}
			if d > 0 && isFail {
				if st.Mon["pos_front"] == 1 && end == "tail" {
					bad(st, "an item to retry at the front is put at the back")
				}
				if st.Mon["pos_back"] == 1 && end == "head" {
					bad(st, "an item to retry at the back is put at the front")
				}
				if st.Mon["pos_front"]+st.Mon["pos_back"] == 0 {
					bad(st, "an item is put back without looking at its retry position")
				}
				if it := st.MonV["item"]; it != nil && !w.isListElem(st.MonV["key"]) && exceeded(e, st, it) == 1 || st.Mon["exceeded"] == 1 {
					bad(st, "an item out of retries is put back")
				}
			}
		}
		if addr.K == flow.KAddr && strings.HasPrefix(addr.S, "[") && w.isList(addr.Args[0]) {
			st.Inc("idreplace", 1)
			st.MonV["added"] = val
			st.Note(in.Pos(), "waiting list entry replaced")
			if !w.isLastIndex(addr) {
				bad(st, "a waiting entry that is not the last one is replaced")
			}
			if isFail && st.Mon["pos_back"] != 1 {
				bad(st, "an item to retry at the front takes the place of the last one")
			}
		}
		if addr.K == flow.KAddr && addr.Field != nil && isFieldOf(w.item, addr.Field) {
			base := addr.Args[0]
			if base.K == flow.KSym && base.Alloc {
				st.MonV["c_"+addr.Field.Name()] = val
				return
			}
			if base.K == flow.KTerm && base.S == "item" || base.K == flow.KTerm && base.S == "ta" || flow.Strip(base).K == flow.KTerm {
				if mode == "Enqueue" {
					if st.Mon["updating"] == 0 {
						st.Set("updating", 1)
						if st.Truth(e.LoadField(st, base, w.iUpd)) != 1 {
							bad(st, "a stored item that is not updateable is changed by an enqueue")
						}
						if k := st.MonV["foundkey"]; k == nil || w.elemIndex(k) != "last" {
							bad(st, "an enqueue changes an item that is not the last waiting one")
						}
					}
					st.MonV["u_"+addr.Field.Name()] = val
				}
				if addr.Field == w.iCount && mode != "Enqueue" {
					st.Inc("counted", 1)
					old := e.LoadField(st, base, w.iCount)
					if !(val.K == flow.KTerm && val.S == "op+" && val.Args[0].Key() == old.Key() && val.Args[1].Key() == flow.Int(1).Key()) {
						bad(st, "the retry count changes by something else than one")
					}
				}
			}
		}
	}
	h.Send = func(e *flow.Engine, st *flow.State, ch, val *flow.Val, in ssa.Instruction) bool {
		if flow.FieldOf(ch) == w.fDeqRsp {
			if flow.IsTrue(val) {
				st.Inc("rsp_true", 1)
			} else if flow.IsFalse(val) {
				st.Inc("rsp_false", 1)
			} else {
				st.Set("unclassified", 1)
			}
			st.Note(in.Pos(), "dequeue response %s", val)
		}
		return true
	}
	return h
}

// treeGlobal is the value of a package's error variable.
func treeGlobal(c *Ctx, e *flow.Engine, st *flow.State, rel, name string) *flow.Val {
	if _, sp, err := c.P.Pkg(rel); err == nil {
		if g, ok := sp.Members[name].(*ssa.Global); ok {
			v := e.LoadAt(st, flow.Root("global "+g.String(), g.Type()), errType())
			st.Restrict(v, nilErr(), flow.LT|flow.GT)
			for n, m := range sp.Members {
				if o, ok := m.(*ssa.Global); ok && n != name && strings.HasPrefix(n, "Error") {
					st.Restrict(v, e.LoadAt(st, flow.Root("global "+o.String(), o.Type()), errType()), flow.LT|flow.GT)
				}
			}
			return v
		}
	}
	return e.Fresh(st, nil, "terr", errType())
}

// listLenKnownPositive / listLenZero: what the current facts say about the waiting list's length.
func (w *willowChan) listLen(e *flow.Engine, st *flow.State) *flow.Val {
	return flow.Term("len", types.Typ[types.Int], e.LoadField(st, w.recv(), w.fIDs))
}
func (w *willowChan) listLenKnownPositive(e *flow.Engine, st *flow.State) bool {
	hit := false
	st.Facts(func(x, y *flow.Val, bits int) {
		for _, v := range []*flow.Val{x, y} {
			if v.K == flow.KTerm && v.S == "len" && w.isList(v.Args[0]) && st.Rel(v, flow.Int(0)) == flow.GT {
				hit = true
			}
		}
	})
	return hit
}
func (w *willowChan) listLenZero(e *flow.Engine, st *flow.State) bool {
	hit := false
	st.Facts(func(x, y *flow.Val, bits int) {
		for _, v := range []*flow.Val{x, y} {
			if v.K == flow.KTerm && v.S == "len" && w.isList(v.Args[0]) && st.Rel(v, flow.Int(0)) == flow.EQ {
				hit = true
			}
		}
	})
	return hit
}

func (w *willowChan) recv() *flow.Val { return flow.Root("recv", types.NewPointer(w.typ)) }

// seq is a slice value written as new elements, a cut of the stored list, new elements.
type seq struct {
	pre, suf []*flow.Val
	list     bool // holds a cut of the list
	lo, hi   int  // how many elements are cut from its front and its back
}

func (w *willowChan) seqOf(e *flow.Engine, st *flow.State, v *flow.Val) (q seq, ok bool) {
	v = flow.Strip(v)
	if flow.FieldOf(v) == w.fIDs {
		return seq{list: true}, true
	}
	if v.K == flow.KNil || v.K == flow.KZero {
		return q, true
	}
	strT := types.Typ[types.String]
	if v.K == flow.KSym && v.Alloc {
		return q, st.Rel(flow.Term("len", types.Typ[types.Int], v), flow.Int(0)) == flow.EQ
	}
	if v.K != flow.KTerm {
		return q, false
	}
	switch v.S {
	case "mslice":
		a, isA := deref(v.Args[0].T).Underlying().(*types.Array)
		if !isA {
			return q, false
		}
		for i := int64(0); i < a.Len(); i++ {
			q.pre = append(q.pre, e.LoadAt(st, flow.IndexAddr(v.Args[0], flow.Int(i), strT), strT))
		}
		return q, true
	case "append":
		if len(v.Args) != 2 {
			return q, false
		}
		l, ok1 := w.seqOf(e, st, v.Args[0])
		r, ok2 := w.seqOf(e, st, v.Args[1])
		if !ok1 || !ok2 || l.list && r.list {
			return q, false
		}
		if r.list {
			r.pre = append(append([]*flow.Val{}, l.pre...), r.pre...)
			return r, true
		}
		if l.list {
			l.suf = append(append([]*flow.Val{}, l.suf...), r.pre...)
			return l, true
		}
		l.pre = append(append([]*flow.Val{}, l.pre...), r.pre...)
		return l, true
	case "slice":
		q, ok = w.seqOf(e, st, v.Args[0])
		lo, okl := flow.IntVal(v.Args[1])
		if !ok || !okl {
			return q, false
		}
		n := int(lo)
		for n > 0 && len(q.pre) > 0 {
			q.pre = q.pre[1:]
			n--
		}
		if n > 0 && !q.list {
			return q, false
		}
		q.lo += n
		hi := v.Args[2]
		switch {
		case hi.K == flow.KSym && strings.HasPrefix(hi.S, "$end"):
		case hi.K == flow.KTerm && hi.S == "op-" && hi.Args[0].K == flow.KTerm && hi.Args[0].S == "len" && hi.Args[0].Args[0].Key() == v.Args[0].Key():
			k, okk := flow.IntVal(hi.Args[1])
			if !okk || !q.list || len(q.suf) > 0 {
				return q, false
			}
			q.hi += int(k)
		case hi.K == flow.KConst:
			// [:0], or all new elements
			if k, _ := flow.IntVal(hi); !q.list && lo == 0 && int(k) <= len(q.pre) {
				q.pre = q.pre[:k]
			} else if k == 0 {
				return seq{}, true
			} else {
				return q, false
			}
		default:
			return q, false
		}
		return q, true
	}
	return q, false
}

// listChange classifies a new value of the waiting list.
func (w *willowChan) listChange(e *flow.Engine, st *flow.State, v *flow.Val) (delta int, end string, elem *flow.Val, ok bool) {
	q, ok := w.seqOf(e, st, v)
	if !ok {
		return 0, "?", nil, false
	}
	if !q.list {
		if !w.listLenZero(e, st) {
			return 0, "?", nil, false
		}
		if len(q.pre) == 1 {
			elem = q.pre[0]
		}
		return len(q.pre), "any", elem, true
	}
	delta = len(q.pre) + len(q.suf) - q.lo - q.hi
	kinds := 0
	if len(q.pre) > 0 {
		end, elem = "head", q.pre[0]
		kinds++
	}
	if len(q.suf) > 0 {
		end, elem = "tail", q.suf[0]
		kinds++
	}
	if q.lo > 0 {
		end = "pophead"
		kinds++
	}
	if q.hi > 0 {
		end = "poptail"
		kinds++
	}
	if kinds > 1 {
		if len(q.suf) == 1 && q.hi == 1 && len(q.pre) == 0 && q.lo == 0 {
			return 0, "replace", elem, true // the last entry gives way to another
		}
		end = "?"
	}
	return delta, end, elem, true
}

// elemIndex: which element of the waiting list is this id, "first", "last" or "?".
func (w *willowChan) elemIndex(v *flow.Val) string {
	out := ""
	flow.Contains(v, func(x *flow.Val) bool {
		if x.K == flow.KTerm && strings.HasPrefix(x.S, "ld") && x.Args[0].K == flow.KAddr && strings.HasPrefix(x.Args[0].S, "[") && w.isList(x.Args[0].Args[0]) {
			a := x.Args[0]
			switch {
			case w.isLastIndex(a):
				out = "last"
			case a.S == "["+flow.Int(0).Key()+"]":
				out = "first"
			default:
				out = "?"
			}
			return true
		}
		return false
	})
	return out
}

func (w *willowChan) isLastIndex(a *flow.Val) bool {
	l := flow.Term("len", types.Typ[types.Int], a.Args[0])
	return a.S == "["+flow.Term("op-", types.Typ[types.Int], l, flow.Int(1)).Key()+"]"
}

// isListElemItem: a field of an item that was looked up by a waiting id.
func (w *willowChan) isListElemItem(v *flow.Val) bool {
	b := flow.BaseOf(v)
	return b != nil && w.isListElem(b)
}

// validPosition: request validation (rule of A03) only lets "front" and "back" in as retry positions; paths that assume
// anything else of a stored item are not reachable.
func (w *willowChan) validPosition(st *flow.State) bool {
	ok := true
	st.Facts(func(x, y *flow.Val, bits int) {
		if y.K == flow.KConst {
			x, y = y, x
		}
		if w.isListElem(y) && bits == flow.EQ {
			if sv, isC := flow.StrVal(x); isC && sv == "" {
				ok = false // ids are generated and never empty
			}
		}
	})
	st.Facts(func(x, y *flow.Val, bits int) {
		if y.K == flow.KConst {
			x, y = y, x
		}
		f := flow.FieldOf(y)
		if f == nil || bits&flow.EQ != 0 || !types.Identical(f.Type(), types.Typ[types.String]) || !isFieldOf(w.item, f) {
			return
		}
		other := 0
		st.Facts(func(a, b *flow.Val, bits int) {
			if a.Key() == y.Key() || b.Key() == y.Key() {
				if bits&flow.EQ == 0 {
					other++
				}
			}
		})
		if other >= 2 {
			ok = false
		}
	})
	return ok
}

func isFieldOf(t types.Type, f *types.Var) bool {
	s := structOf(t)
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i) == f {
			return true
		}
	}
	return false
}

// opaqueAmbient: logging, tracing and context plumbing, which no rule here depends on.
func opaqueAmbient(ci *flow.CallInfo) bool {
	if ci.Fn == nil || ci.Fn.Pkg == nil {
		return false
	}
	p := ci.Fn.Pkg.Pkg.Path()
	return strings.HasSuffix(p, "/internal/middleware") || strings.HasSuffix(p, "/internal/reporting")
}

// findMethodClosures returns the closures of fn that are returned by it, i.e. callbacks it hands out.
func (c *Ctx) mqcMethod(name string) (*ssa.Function, error) {
	return c.P.Method(relMQC, "memoryQueueChannel", name)
}

// mqcEntries are the operations on the queue channel that change its state.
func mqcEntries(c *Ctx, w *willowChan) ([]mqcEntry, error) {
	var out []mqcEntry
	for _, n := range []string{"Enqueue", "ACK", "Heartbeat"} {
		f, err := c.mqcMethod(n)
		if err != nil {
			return nil, err
		}
		out = append(out, mqcEntry{name: n, fn: f})
	}
	// the callback handed to waiting clients: whatever function is sent on the dequeue channel
	exec, err := c.mqcMethod("Execute")
	if err != nil {
		return nil, err
	}
	deq := map[*ssa.Function]bool{}
	h := &flow.Hooks{Send: func(e *flow.Engine, st *flow.State, ch, val *flow.Val, in ssa.Instruction) bool {
		if flow.FieldOf(ch) == w.fDeq && val.K == flow.KFn {
			deq[val.Fn] = true
		}
		return true
	}, Call: func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		if op, _, _ := limiterUpdate(e, st, ci); op != "" {
			return e.Unknown(st, ci), true
		}
		if opaqueAmbient(ci) {
			return e.Unknown(st, ci), true
		}
		return nil, false
	}}
	e := c.Engine(h)
	e.Analyze(exec, nil, nil, nil)
	c.Done("dequeue-callback", e)
	if len(deq) != 1 {
		return nil, fmt.Errorf("expected one function offered on the dequeue channel, found %d", len(deq))
	}
	for f := range deq {
		st := flow.NewState()
		st.Mon["notif"] = -1 // the token the executor took before offering the item
		recv := flow.Root("recv", types.NewPointer(w.typ))
		st.Restrict(recv, flow.NilOf(recv.T), flow.LT|flow.GT)
		var binds, args []*flow.Val
		for range f.FreeVars {
			binds = append(binds, recv)
		}
		for i, p := range f.Params {
			if i == 0 && types.Identical(p.Type(), recv.T) {
				args = append(args, recv)
			} else {
				args = append(args, flow.Root(p.Name(), p.Type()))
			}
		}
		out = append(out, mqcEntry{name: "dequeue", fn: f, args: args, bind: binds, st: st})
		// and the two callbacks it returns
		e := c.Engine(mqcHooks(c, w, "dequeue"))
		seen := map[string]bool{}
		exits := e.Analyze(f, args, binds, st.Clone())
		for _, x := range exits {
			if x.Panic || len(x.Res) != 3 || x.Res[1].K != flow.KFn || x.Res[2].K != flow.KFn || x.St.Mon["hbnotadded"] != 0 {
				continue
			}
			// from here on the id is the handed out item's, no longer an element of the waiting list
			var id *flow.Val
			flow.Contains(x.St.MonV["foundkey"], func(v *flow.Val) bool {
				if id == nil && v.K == flow.KTerm && strings.HasPrefix(v.S, "ld") && w.isListElem(v) && v.Args[0].K == flow.KAddr && strings.HasPrefix(v.Args[0].S, "[") {
					id = v
				}
				return false
			})
			if id != nil {
				to := flow.Root("handed", types.Typ[types.String])
				x.St.Replace(id, to)
				for i := range x.Res {
					x.Res[i] = x.Res[i].Replace(id, to)
				}
			}
			for i, nm := range []string{"", "success callback", "failure callback"} {
				if i == 0 || seen[nm] {
					continue
				}
				seen[nm] = true
				s := x.St.Clone()
				s.Mon = map[string]int{}
				out = append(out, mqcEntry{name: nm, fn: x.Res[i].Fn, args: []*flow.Val{}, bind: x.Res[i].Args, st: s})
			}
			if t := x.St.MonV["timeout"]; t != nil && !seen["timeout"] {
				seen["timeout"] = true
				s := x.St.Clone()
				s.Mon = map[string]int{}
				out = append(out, mqcEntry{name: "heartbeat timeout", fn: t.Fn, args: []*flow.Val{}, bind: t.Args, st: s})
			}
		}
		if len(seen) != 3 {
			return nil, fmt.Errorf("the dequeue callback's success, failure and timeout functions were not all found (%v)", seen)
		}
	}
	return out, nil
}

// orInt is v, or a value that is no known number.
func orInt(v *flow.Val) *flow.Val {
	if v == nil {
		return flow.Root("unknown", types.Typ[types.Int64])
	}
	return v
}
