package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

// namedOp describes an operation on a named rule or override.
type namedOp struct {
	rel, typ, name string
	query          bool   // looked up with a query by id (else a keyed tree operation)
	effect         string // the method that does the work
	effPkg         string
	absent404      bool
	idParam        int // parameter holding the id it is looked up by
	passes         []int
	passPath       []string // what of the parameter the effect must receive
}

func ruleOps(c *Ctx, rule string) error {
	ops := []namedOp{
		{rel: relRules, typ: "localRulesCient", name: "UpdateRule", query: true, effect: "Update", effPkg: relRules, absent404: true, idParam: 2, passes: []int{3}},
		{rel: relRules, typ: "localRulesCient", name: "CreateOverride", query: true, effect: "CreateOverride", effPkg: relOverrides, absent404: true, idParam: 2, passes: []int{2, 3}},
		{rel: relRules, typ: "localRulesCient", name: "QueryOverrides", query: true, effect: "QueryOverrides", effPkg: relOverrides, absent404: true, idParam: 2, passes: []int{2, 3}},
		{rel: relRules, typ: "localRulesCient", name: "MatchOverrides", query: true, effect: "MatchOverrides", effPkg: relOverrides, absent404: true, idParam: 2, passes: []int{2, 3}},
		{rel: relRules, typ: "localRulesCient", name: "GetOverride", query: true, effect: "GetOverride", effPkg: relOverrides, absent404: true, idParam: 2, passes: []int{2, 3}},
		{rel: relRules, typ: "localRulesCient", name: "UpdateOverride", query: true, effect: "UpdateOverride", effPkg: relOverrides, absent404: true, idParam: 2, passes: []int{2, 3, 4}},
		{rel: relRules, typ: "localRulesCient", name: "DeleteOverride", query: true, effect: "DestroyOverride", effPkg: relOverrides, absent404: true, idParam: 2, passes: []int{2, 3}},
		{rel: relRules, typ: "localRulesCient", name: "GetRule", query: true, absent404: true, idParam: 2},
		{rel: relOverrides, typ: "overridesClientLocal", name: "GetOverride", query: true, absent404: true, idParam: 3},
		{rel: relOverrides, typ: "overridesClientLocal", name: "UpdateOverride", query: true, effect: "Update", effPkg: relOverrides, absent404: true, idParam: 3, passes: []int{4}},
		{rel: relOverrides, typ: "overridesClientLocal", name: "DestroyOverride", effect: "Delete", effPkg: relOverrides, idParam: 3},
		{rel: relRules, typ: "localRulesCient", name: "CreateRule", effect: "New", effPkg: relRules},
		{rel: relOverrides, typ: "overridesClientLocal", name: "CreateOverride", effect: "New", effPkg: relOverrides},
	}
	for _, op := range ops {
		fn, err := c.P.Method(op.rel, op.typ, op.name)
		if err != nil {
			return err
		}
		namedOpCheck(c, rule, fn, op)
	}
	return nil
}

func statusOf(e *flow.Engine, st *flow.State, v *flow.Val) int64 {
	s := e.LoadPath(st, v, "StatusCode")
	if s == nil {
		return -1
	}
	if i, ok := flow.IntVal(s); ok {
		return i
	}
	return -1
}

func namedOpCheck(c *Ctx, rule string, fn *ssa.Function, op namedOp) {
	what := op.typ + "." + op.name
	counts := []int{0, 1}
	if !op.query {
		counts = []int{1}
	}
	for _, n := range counts {
		q := &entryModel{n: n, once: true}
		h := &flow.Hooks{}
		var args []*flow.Val
		tm := &TreeModel{}
		isDestroyed := func(*flow.Val) bool { return false }
		_ = isDestroyed
		tm.OnOp = func(e *flow.Engine, st *flow.State, o, outcome string, tree, key *flow.Val, in ssa.Instruction) {
			st.Set("op_"+outcome, 1)
			st.MonV["key"] = key
		}
		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			if v, ok := queryCtor(ci); ok {
				return []flow.Exit{{St: st, Res: v, Pos: ci.Pos}}, true
			}
			m := callee(ci)
			rcv, cargs := argsOf(ci)
			if ci.Method != nil && op.effect != "" && methodIs(m, op.effPkg, op.effect) && m.Name() == op.effect {
				st.Inc("effect", 1)
				st.Note(ci.Pos, "%s", op.effect)
				for i, p := range op.passes {
					k := len(cargs) - len(op.passes) + i
					if k < 0 || cargs[k].Key() != args[p].Key() {
						st.Set("bad:the operation is done with other arguments than requested", 1)
					}
				}
				if recvTypeName(m) == "Rule" || recvTypeName(m) == "Override" {
					r := flow.Strip(rcv)
					if !(r.K == flow.KTerm && r.S == "m.Value") {
						st.Set("bad:the operation is done on another entry than the named one", 1)
					}
				}
				switch {
				case op.effect == "New":
					want := e.LoadPath(st, args[len(args)-1], "Spec", "Properties")
					if want == nil || len(cargs) != 1 || cargs[0].Key() != want.Key() {
						st.Set("bad:the entry is not made from the request's properties", 1)
					}
					v := e.Fresh(st, ci.Instr, "entry", ci.Res.At(0).Type())
					st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
					return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
				case op.name == "CreateOverride":
					// both of the rule's keys have to be in the override
					it := st.MonV["item0"]
					okv := e.LoadPath(st, args[3], "Spec", "DBDefinition", "GroupByKeyValues")
					if it != nil && okv != nil {
						for i := 0; i < 2; i++ {
							if !hasKey(st, okv, i) {
								st.Set("bad:an override is created without having all of the rule's keys", 1)
							}
						}
					}
				}
				outs := e.Unknown(st, ci)
				for i, r := range outs[0].Res {
					st.MonV[fmt.Sprintf("res%d", i)] = r
				}
				st.Set("nres", len(outs[0].Res))
				return outs, true
			}
			if op.query {
				if ex, ok := q.call(e, st, ci); ok {
					return ex, true
				}
			} else {
				if ex, ok := itemCall(st, ci); ok {
					return ex, true
				}
				if ex, ok := tm.Call(e, st, ci); ok {
					return ex, true
				}
			}
			if opaqueAmbient(ci) {
				return e.Unknown(st, ci), true
			}
			return nil, false
		}
		e := c.Engine(h)
		e.Unroll = 4
		st := flow.NewState()
		args = rootArgs(fn, st)
		for _, x := range e.Analyze(fn, args, nil, st) {
			bad := func(s string) {
				c.Fail(rule, what+": "+s, c.P.Pos(x.Pos), what+": "+s, e.Witness(x.St.Tr, 40)...)
			}
			if x.Panic {
				continue
			}
			c.Ob(rule, what)
			m := x.St.Mon
			last := len(x.Res) - 1
			failed := resNil(x, last)
			for _, k := range sortedKeys(m) {
				if strings.HasPrefix(k, "bad:") {
					bad(k[4:])
				}
			}
			if op.query {
				if m["qerr"] != 0 {
					if failed != 0 {
						bad("a failed lookup is reported as a success")
					}
					continue
				}
				if qv := x.St.MonV["query"]; qv == nil || !isQueryFor(qv, "byID", args[op.idParam]) || m["queries"] != 1 {
					bad("the operation looks up something else than the named entry")
					continue
				}
				if one := x.St.MonV["one"]; one != nil && one.Key() != args[2].Key() {
					bad("the operation looks among the overrides of another rule")
				}
				if n == 0 {
					if op.absent404 && (failed != 0 || statusOf(e, x.St, x.Res[last]) != 404) {
						bad("naming something that does not exist is not answered with 404")
					}
					if m["effect"] != 0 {
						bad("the operation acts although the named entry does not exist")
					}
					continue
				}
				if op.effect == "" {
					// a read: the entry itself is reported
					if failed != 1 {
						bad("an existing entry is not reported")
						continue
					}
					it := x.St.MonV["item0"]
					paths := map[string]string{"GetRule": "m.KeyValues|m.AssociatedID", "GetOverride": "m.ManyKeyValues|m.ManyID"}[op.name]
					kvOp, idOp, _ := strings.Cut(paths, "|")
					if !termOf(e.LoadPath(x.St, x.Res[0], "Spec", "DBDefinition", "GroupByKeyValues"), kvOp, it) || !termOf(e.LoadPath(x.St, x.Res[0], "State", "ID"), idOp, it) || !termOf(e.LoadPath(x.St, x.Res[0], "Spec", "Properties", "Limit", "*"), "limit", it) {
						bad("an entry is reported with data that is not its own")
					}
					continue
				}
				if m["effect"] == 0 {
					if failed != 0 {
						bad("success is reported although nothing was done")
					} else if op.name != "CreateOverride" {
						bad("an existing entry is refused")
					} else if s := statusOf(e, x.St, x.Res[last]); s != 400 {
						bad("an override that misses a key of its rule is not answered with 400")
					}
					continue
				}
				if m["effect"] != 1 {
					bad("the operation is done more than once")
				}
				if m["nres"] > 0 {
					r := x.St.MonV[fmt.Sprintf("res%d", m["nres"]-1)]
					if !agreeNil(x.St, x.Res[last], r) {
						bad("the outcome reported is not the outcome of the operation")
					}
					if last == 1 && m["nres"] == 2 && failed == 1 && flow.Strip(x.Res[0]).Key() != flow.Strip(x.St.MonV["res0"]).Key() {
						bad("the result reported is not the result of the operation")
					}
				} else if failed != 1 {
					bad("an operation that was done is reported as failed")
				}
				continue
			}
			// keyed tree operations
			switch {
			case m["op_error"] != 0:
				if failed != 0 && op.name != "DestroyOverride" {
					bad("a refused operation is reported as a success")
				}
				if m["effect"] != 0 {
					bad("a refused operation has an effect")
				}
			case m["op_created"] != 0:
				k := x.St.MonV["key"]
				kv := e.LoadPath(x.St, args[len(args)-1], "Spec", "DBDefinition", "GroupByKeyValues")
				if k == nil || kv == nil || k.Args[len(k.Args)-1].Key() != kv.Key() || len(k.Args) == 2 && k.Args[0].Key() != args[2].Key() {
					bad("the entry is stored under other key values than requested")
				}
				if failed != 1 || m["effect"] != 1 {
					bad("a created entry is reported as refused")
				}
				if x.Res[0].K == flow.KConst {
					bad("the id of a created entry is not returned")
				}
			case m["op_found"] != 0:
				if failed != 0 || statusOf(e, x.St, x.Res[last]) != 409 {
					bad("creating something that exists is not answered with 409")
				}
				if m["effect"] != 0 {
					bad("creating something that exists has an effect")
				}
			case m["op_declined"] != 0:
				if failed != 0 {
					bad("an entry that was not stored is reported as created")
				}
			case m["op_removed"] != 0, m["op_kept"] != 0:
				if m["effect"] != 1 {
					bad("an entry is removed without its own deletion")
				}
				want := 1
				if m["op_kept"] != 0 {
					want = 0
				}
				if failed != want {
					bad("success is not reported exactly when the entry is gone")
				}
				if r := x.St.MonV["res0"]; r != nil && x.St.IsNil(r) != want {
					bad("an entry is removed although its own deletion failed, or kept although it succeeded")
				}
				if k := x.St.MonV["key"]; k == nil || len(k.Args) < 2 || k.Args[0].Key() != args[2].Key() || k.Args[1].Key() != args[op.idParam].Key() {
					bad("another entry than the named one is removed")
				}
			}
		}
		c.Done(rule, e)
	}
}

// hasKey: is it known on this path that map m has the i-th key of the rule's key values?
func hasKey(st *flow.State, m *flow.Val, i int) bool {
	ok := false
	st.Facts(func(x, y *flow.Val, bits int) {
		for _, v := range []*flow.Val{x, y} {
			if v.K == flow.KTerm && strings.HasPrefix(v.S, "has@") && v.Args[0].Key() == m.Key() {
				k := v.Args[1]
				if k.K == flow.KTerm && k.S == fmt.Sprintf("key%d", i) && k.Args[0].K == flow.KTerm && k.Args[0].S == "m.KeyValues" && st.Truth(v) == 1 {
					ok = true
				}
			}
		}
	})
	return ok
}

// ruleDelete: deleting a rule and all of its overrides.
func ruleDelete(c *Ctx, rule string) error {
	fn, err := c.P.Method(relRules, "localRulesCient", "DeleteRule")
	if err != nil {
		return err
	}
	h := &flow.Hooks{}
	var args []*flow.Val
	tm := &TreeModel{OnOp: func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
		st.Set("op_"+outcome, 1)
		if len(key.Args) > 0 {
			st.MonV["key"] = key.Args[0]
		}
		if op != "assoc.DestroyByAssociatedID" && outcome == "removed" {
			st.Set("bad:other requests can use the rule while its overrides are being deleted", 1)
		}
	}}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		m := callee(ci)
		_, cargs := argsOf(ci)
		if ex, ok := itemCall(st, ci); ok {
			return ex, true
		}
		if methodIs(m, relOverrides, "DestroyOverrides") {
			st.Inc("overrides", 1)
			if cargs[len(cargs)-1].Key() != args[2].Key() {
				st.Set("bad:the overrides of another rule are deleted", 1)
			}
			ex := e.Unknown(st, ci)
			st.MonV["ovres"] = ex[0].Res[0]
			return ex, true
		}
		if ci.Method != nil && methodIs(m, relRules, "Delete") {
			st.Inc("delete", 1)
			if o := st.MonV["ovres"]; o == nil || st.IsNil(o) != 1 {
				st.Set("bad:a rule is deleted before its overrides are gone", 1)
			}
			ex := e.Unknown(st, ci)
			st.MonV["delres"] = ex[0].Res[0]
			return ex, true
		}
		if ex, ok := tm.Call(e, st, ci); ok {
			return ex, true
		}
		if opaqueAmbient(ci) {
			return e.Unknown(st, ci), true
		}
		return nil, false
	}
	e := c.Engine(h)
	st := flow.NewState()
	args = rootArgs(fn, st)
	for _, x := range e.Analyze(fn, args, nil, st) {
		if x.Panic {
			continue
		}
		m := x.St.Mon
		bad := func(s string) {
			c.Fail(rule, "DeleteRule: "+s, c.P.Pos(x.Pos), s, e.Witness(x.St.Tr, 40)...)
		}
		for _, k := range sortedKeys(m) {
			if strings.HasPrefix(k, "bad:") {
				bad(k[4:])
			}
		}
		f := resNil(x, 0)
		switch {
		case m["op_error"] != 0:
			c.Ob(rule, "DeleteRule refused")
			if f != 0 {
				bad("a refused deletion is reported as done")
			}
		case m["op_absent"] != 0:
			c.Ob(rule, "DeleteRule of a missing rule")
			if f != 0 || statusOf(e, x.St, x.Res[0]) != 404 {
				bad("deleting a rule that does not exist is not answered with 404")
			}
		case m["op_removed"] != 0, m["op_kept"] != 0:
			c.Ob(rule, "DeleteRule")
			ok := m["overrides"] == 1 && m["delete"] == 1 && x.St.IsNil(x.St.MonV["ovres"]) == 1 && x.St.IsNil(x.St.MonV["delres"]) == 1
			if m["op_removed"] != 0 && !ok {
				bad("a rule is removed although its overrides or the rule itself refused")
			}
			if m["op_kept"] != 0 && ok {
				bad("a rule whose deletion succeeded is kept")
			}
			want := 0
			if m["op_removed"] != 0 {
				want = 1
			}
			if f != want {
				bad("success is not reported exactly when the rule is gone")
			}
			if k := x.St.MonV["key"]; k == nil || k.Key() != args[2].Key() {
				bad("another rule than the named one is deleted")
			}
		}
	}
	c.Done(rule, e)

	// all overrides of a rule
	fn, err = c.P.Method(relOverrides, "overridesClientLocal", "DestroyOverrides")
	if err != nil {
		return err
	}
	h = &flow.Hooks{}
	tm = &TreeModel{
		OnOp: func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
			st.Set("op_"+outcome, 1)
			if len(key.Args) > 0 {
				st.MonV["key"] = key.Args[0]
			}
		},
		OnLeave: func(e *flow.Engine, st *flow.State, op string, tree, key, item *flow.Val, cont int, in ssa.Instruction) {
			r := st.MonV["delres"]
			if r == nil {
				st.Set("bad:an override is removed without its own deletion", 1)
				return
			}
			if cont != st.IsNil(r) {
				st.Set("bad:an override is removed although its own deletion failed, or kept although it succeeded", 1)
			}
			if st.IsNil(r) == 0 {
				st.Set("failed", 1)
			}
			delete(st.MonV, "delres")
		},
	}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		m := callee(ci)
		if ex, ok := itemCall(st, ci); ok {
			return ex, true
		}
		if ci.Method != nil && methodIs(m, relOverrides, "Delete") {
			ex := e.Unknown(st, ci)
			st.MonV["delres"] = ex[0].Res[0]
			return ex, true
		}
		if ex, ok := tm.Call(e, st, ci); ok {
			return ex, true
		}
		if opaqueAmbient(ci) {
			return e.Unknown(st, ci), true
		}
		return nil, false
	}
	e = c.Engine(h)
	st = flow.NewState()
	args = rootArgs(fn, st)
	for _, x := range e.Analyze(fn, args, nil, st) {
		if x.Panic {
			continue
		}
		m := x.St.Mon
		bad := func(s string) {
			c.Fail(rule, "DestroyOverrides: "+s, c.P.Pos(x.Pos), s, e.Witness(x.St.Tr, 40)...)
		}
		c.Ob(rule, "DestroyOverrides")
		for _, k := range sortedKeys(m) {
			if strings.HasPrefix(k, "bad:") {
				bad(k[4:])
			}
		}
		f := resNil(x, 0)
		if (m["op_error"] != 0 || m["failed"] != 0) && f != 0 {
			bad("overrides that could not be deleted are reported as gone")
		}
		if m["op_error"] == 0 && m["failed"] == 0 && f != 1 {
			bad("overrides that are gone are reported as a failure")
		}
		if k := x.St.MonV["key"]; k == nil || k.Key() != args[2].Key() {
			bad("the overrides of another rule are deleted")
		}
	}
	c.Done(rule, e)
	return nil
}

var _ = types.Typ
