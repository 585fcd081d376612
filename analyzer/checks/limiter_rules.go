package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

func init() {
	register("M03", "Decrements, sets and reports are exact", func(c *Ctx) error {
		c.Rule("change", "a decrement adds the request's amount to exactly the named counter and the counter goes away iff nothing is left; a set replaces or removes exactly the named counter; success is reported iff that happened", 4)
		c.Rule("stored", "the stored counter adds, replaces and reports exactly what it is asked to", 4)
		c.Rule("reports", "a query reports every matching counter with its own key values and current total", 1)
		if err := counterChange(c, "change"); err != nil {
			return err
		}
		if err := storedCounter(c, "stored"); err != nil {
			return err
		}
		return listCheck(c, "reports", []listSpec{{relCounters, "counterClientLocal", "QueryCounters", []pathSpec{
			{[]string{"Spec", "DBDefinition", "KeyValues"}, "m.KeyValues"}, {[]string{"Spec", "Properties", "Counters", "*"}, "load"}}}})
	})
	register("M04", "Rules and overrides live and die as the API says", func(c *Ctx) error {
		c.Rule("by-name", "an operation on a named rule or override acts once on exactly that one and returns its outcome, answers 404 when it does not exist, and never succeeds without acting", 12)
		c.Rule("delete", "a rule goes only after all of its overrides are gone and both deletions agreed; otherwise it stays and an error is returned", 3)
		c.Rule("reports", "queries report every matching rule or override with its own id, key values and limit", 4)
		if err := ruleOps(c, "by-name"); err != nil {
			return err
		}
		if err := ruleDelete(c, "delete"); err != nil {
			return err
		}
		ov := []pathSpec{{[]string{"Spec", "DBDefinition", "GroupByKeyValues"}, "m.ManyKeyValues"}, {[]string{"Spec", "Properties", "Limit", "*"}, "limit"}, {[]string{"State", "ID"}, "m.ManyID"}}
		ru := []pathSpec{{[]string{"Spec", "DBDefinition", "GroupByKeyValues"}, "m.KeyValues"}, {[]string{"Spec", "Properties", "Limit", "*"}, "limit"}, {[]string{"State", "ID"}, "m.AssociatedID"}}
		return listCheck(c, "reports", []listSpec{
			{relRules, "localRulesCient", "QueryRules", ru}, {relRules, "localRulesCient", "MatchRules", ru},
			{relOverrides, "overridesClientLocal", "QueryOverrides", ov}, {relOverrides, "overridesClientLocal", "MatchOverrides", ov}})
	})
	register("M05", "Every limit that applies is found", func(c *Ctx) error {
		c.Rule("limits", "the limits of a counter are all rules whose keys it has, each with its own overrides that match it; the search stops early only at a limit of zero, and any failure refuses", 6)
		return findLimits(c, "limits")
	})
}

type pathSpec struct {
	path []string
	op   string // the term the value must be, applied to the entry
}
type listSpec struct {
	rel, typ, name string
	paths          []pathSpec
}

// entryModel models the queries of the two query-able trees over n entries, and names what entries report.
type entryModel struct {
	n    int
	once bool // ids are unique: at most one entry
	any  bool // the first entry is one of many: what the callback gathered before is arbitrary
}

func (q *entryModel) call(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
	if ex, ok := ctxDoneCall(e, st, ci); ok {
		return ex, true
	}
	if ex, ok := itemCall(st, ci); ok {
		return ex, true
	}
	m := callee(ci)
	rcv, _ := argsOf(ci)
	if ci.Method != nil && len(ci.Args) == 0 && (m.Name() == "Limit" && (methodIs(m, relRules) || methodIs(m, relOverrides)) || m.Name() == "Load" && methodIs(m, relCounters)) {
		it := flow.Strip(rcv)
		if it.K == flow.KTerm && it.S == "m.Value" {
			it = it.Args[0]
		}
		op := "limit"
		if m.Name() == "Load" {
			op = "load"
		}
		return []flow.Exit{{St: st, Res: []*flow.Val{flow.Term(op, types.Typ[types.Int64], it)}, Pos: ci.Pos}}, true
	}
	kind, op, _, targs := treeKind(ci)
	if (kind == "assoc" || kind == "o2m") && (op == "QueryAction" || op == "MatchAction") {
		cb := targs[len(targs)-1]
		var out []flow.Exit
		f := st.Clone()
		f.Set("qerr", 1)
		f.Note(ci.Pos, "%s fails", op)
		out = append(out, flow.Exit{St: f, Res: []*flow.Val{freshErr(e, f, ci.Instr, "qerr")}, Pos: ci.Pos})
		st.MonV["query"] = targs[len(targs)-2]
		if st.Written(flow.Strip(targs[len(targs)-2])) {
			// not what the constructor, or the request, gave: it has been written to since
			st.MonV["query"] = flow.Term("altered", targs[len(targs)-2].T, flow.Strip(targs[len(targs)-2]))
		}
		if kind == "o2m" {
			st.MonV["one"] = targs[0]
		}
		st.Inc("queries", 1)
		type run struct {
			s *flow.State
		}
		cur := []run{{st.Clone()}}
		fin := func(s *flow.State, v int) {
			s.Set("visited", v)
			out = append(out, flow.Exit{St: s, Res: []*flow.Val{nilErr()}, Pos: ci.Pos})
		}
		for j := 0; j < q.n; j++ {
			var next []run
			for _, r := range cur {
				s := r.s
				it := e.Fresh(s, ci.Instr, fmt.Sprintf("item%d", j), types.NewInterfaceType(nil, nil))
				s.Restrict(it, flow.NilOf(it.T), flow.LT|flow.GT)
				s.MonV[fmt.Sprintf("item%d", j)] = it
				s.Note(ci.Pos, "entry %d", j)
				if q.any {
					havocCaptured(e, s, cb, ci.Instr)
				}
				for _, x := range e.CallValue(s, cb, []*flow.Val{it}, ci.Instr) {
					if x.Panic {
						out = append(out, x)
						continue
					}
					for _, y := range x.St.Assume(x.Res[0], true) {
						next = append(next, run{y})
					}
					for _, y := range x.St.Assume(x.Res[0], false) {
						if j < q.n-1 || q.any {
							y.Set("stopped", 1)
						}
						fin(y, j+1)
					}
				}
			}
			cur = next
		}
		for _, r := range cur {
			fin(r.s, q.n)
		}
		return out, true
	}
	return nil, false
}

// isQueryFor: was the query built by the named constructor from the given value?
func isQueryFor(v *flow.Val, ctor string, arg *flow.Val) bool {
	v = flow.Strip(v)
	return v.K == flow.KTerm && v.S == ctor && flow.Strip(v.Args[0]).Key() == flow.Strip(arg).Key()
}

// queryCtor names the two query constructors by their argument.
func queryCtor(ci *flow.CallInfo) ([]*flow.Val, bool) {
	m := callee(ci)
	if m == nil || ci.Fn == nil || len(ci.Args) != 1 {
		return nil, false
	}
	if methodIs(m, "query_associated_action", "StringToAssociatedActionQuery") {
		return []*flow.Val{flow.Term("byID", ci.Res.At(0).Type(), ci.Args[0])}, true
	}
	if methodIs(m, "query_match_action", "KeyValuesToAnyMatchActionQuery") {
		return []*flow.Val{flow.Term("anyOf", ci.Res.At(0).Type(), ci.Args[0])}, true
	}
	return nil, false
}

func rootArgs(fn *ssa.Function, st *flow.State) []*flow.Val {
	var out []*flow.Val
	for i, p := range fn.Params {
		v := flow.Root(fmt.Sprintf("%s%d", p.Name(), i), p.Type())
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
		}
		if types.IsInterface(p.Type()) {
			st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
		}
		out = append(out, v)
	}
	return out
}

// paramOf finds the parameter with the given type.
func paramOf(fn *ssa.Function, args []*flow.Val, pkg, name string) *flow.Val {
	for i, p := range fn.Params {
		if i > 0 && typeIs(p.Type(), pkg, name) {
			return args[i]
		}
	}
	return nil
}

func termOf(v *flow.Val, op string, item *flow.Val) bool {
	v = flow.Strip(v)
	return v != nil && v.K == flow.KTerm && v.S == op && v.Args[0].Key() == item.Key()
}

func describe(v *flow.Val) string {
	if v == nil {
		return "?"
	}
	return v.String()
}

// havocCaptured forgets the lists and numbers a callback has gathered so far.
func havocCaptured(e *flow.Engine, s *flow.State, cb *flow.Val, in any) {
	cb = flow.Strip(cb)
	if cb.Fn == nil {
		return
	}
	for i, b := range cb.Args {
		if i >= len(cb.Fn.FreeVars) {
			break
		}
		pt, ok := cb.Fn.FreeVars[i].Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		t := pt.Elem().Underlying()
		_, isSlice := t.(*types.Slice)
		if bt, ok := t.(*types.Basic); isSlice || ok && bt.Info()&types.IsInteger != 0 {
			s.Store(b, e.Fresh(s, in, fmt.Sprintf("gathered%d", i), pt.Elem()))
		}
	}
}

// listCheck: every entry is reported, with its own data.
func listCheck(c *Ctx, rule string, specs []listSpec) error {
	for _, sp := range specs {
		fn, err := c.P.Method(sp.rel, sp.typ, sp.name)
		if err != nil {
			return err
		}
		what := sp.typ + "." + sp.name
		for n := 0; n <= 3; n++ {
			q := &entryModel{n: n, any: n == 3}
			if q.any {
				q.n = 1
			}
			h := &flow.Hooks{}
			h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
				if ex, ok := q.call(e, st, ci); ok {
					return ex, true
				}
				if opaqueAmbient(ci) {
					return e.Unknown(st, ci), true
				}
				return nil, false
			}
			e := c.Engine(h)
			e.Unroll = 4
			st := flow.NewState()
			args := rootArgs(fn, st)
			for _, x := range e.Analyze(fn, args, nil, st) {
				bad := func(s string) {
					c.Fail(rule, what+": "+s, c.P.Pos(x.Pos), fmt.Sprintf("%s with %d matching entries: %s", what, n, s), e.Witness(x.St.Tr, 40)...)
				}
				if x.Panic {
					continue
				}
				c.Ob(rule, what)
				if q.any {
					if x.St.Mon["qerr"] == 0 && x.St.Mon["stopped"] != 0 && resNil(x, 1) != 0 {
						bad("the listing stops before every matching entry was reported")
					}
					continue
				}
				if x.St.Mon["qerr"] != 0 {
					if resNil(x, 1) != 0 {
						bad("a failed query is reported as a success")
					}
					continue
				}
				if resNil(x, 1) != 1 {
					bad("a query that worked is reported as an error")
					continue
				}
				if x.St.Mon["queries"] != 1 || x.St.MonV["query"] == nil || !isOneOf(flow.Strip(x.St.MonV["query"]), args) {
					bad("the query that is run is not the one requested")
				}
				if one := x.St.MonV["one"]; one != nil && !isOneOf(one, args) {
					bad("the entries of another owner are reported")
				}
				el, ok := e.Elems(x.St, flow.Strip(x.Res[0]))
				if !ok || len(el) != n {
					bad("not every matching entry is reported exactly once")
					continue
				}
				for j, v := range el {
					it := x.St.MonV[fmt.Sprintf("item%d", j)]
					for _, p := range sp.paths {
						if got := e.LoadPath(x.St, v, p.path...); got == nil || !termOf(got, p.op, it) {
							bad("an entry is reported with a wrong " + strings.TrimSuffix(strings.Join(p.path, "."), ".*"))
						}
					}
				}
			}
			c.Done(rule, e)
		}
	}
	return nil
}

func isOneOf(v *flow.Val, args []*flow.Val) bool {
	for _, a := range args {
		if a.Key() == v.Key() {
			return true
		}
	}
	return false
}

// findLimits checks the search for the rules of a counter, and for the overrides of a rule.
func findLimits(c *Ctx, rule string) error {
	// overrides of one rule
	fn, err := c.P.Method(relOverrides, "overridesClientLocal", "FindOverrideLimits")
	if err != nil {
		return err
	}
	for n := 0; n <= 2; n++ {
		q := &entryModel{n: n}
		h := &flow.Hooks{}
		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			if v, ok := queryCtor(ci); ok {
				return []flow.Exit{{St: st, Res: v, Pos: ci.Pos}}, true
			}
			if ex, ok := q.call(e, st, ci); ok {
				return ex, true
			}
			if opaqueAmbient(ci) {
				return e.Unknown(st, ci), true
			}
			return nil, false
		}
		e := c.Engine(h)
		e.Unroll = 4
		st := flow.NewState()
		args := rootArgs(fn, st)
		kv := paramOf(fn, args, "models/datatypes", "KeyValues")
		for _, x := range e.Analyze(fn, args, nil, st) {
			what := fmt.Sprintf("overrides of a rule (%d match)", n)
			c.Ob(rule, what)
			bad := func(s string) {
				c.Fail(rule, "overrides of a rule: "+s, c.P.Pos(x.Pos), s+fmt.Sprintf(" (%d overrides match)", n), e.Witness(x.St.Tr, 40)...)
			}
			if x.Panic {
				continue
			}
			if x.St.Mon["qerr"] != 0 {
				if resNil(x, 1) != 0 {
					bad("overrides that cannot be read are treated as absent")
				}
				continue
			}
			if resNil(x, 1) != 1 {
				bad("overrides that were read are reported as an error")
				continue
			}
			if kv == nil || x.St.MonV["query"] == nil || !isQueryFor(x.St.MonV["query"], "anyOf", kv) || x.St.Mon["queries"] != 1 {
				bad("the overrides are matched against something else than the counter's key values")
			}
			if one := x.St.MonV["one"]; one == nil || !isOneOf(one, args) {
				bad("the overrides of another rule are used")
			}
			v := x.St.Mon["visited"]
			checkLimitList(e, x, v, n, bad, []pathSpec{{[]string{"Spec", "DBDefinition", "GroupByKeyValues"}, "m.ManyKeyValues"}, {[]string{"Spec", "Properties", "Limit", "*"}, "limit"}}, nil)
		}
		c.Done(rule, e)
	}

	// rules
	fn, err = c.P.Method(relRules, "localRulesCient", "FindLimits")
	if err != nil {
		return err
	}
	_, ovT := limTypes(c)
	for n := 0; n <= 2; n++ {
		q := &entryModel{n: n}
		h := &flow.Hooks{}
		var kv *flow.Val
		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			if v, ok := queryCtor(ci); ok {
				return []flow.Exit{{St: st, Res: v, Pos: ci.Pos}}, true
			}
			m := callee(ci)
			_, args := argsOf(ci)
			if methodIs(m, relOverrides, "FindOverrideLimits") {
				k := st.Mon["found"]
				it := st.MonV[fmt.Sprintf("item%d", k)]
				if it == nil || len(args) != 3 || !termOf(args[1], "m.AssociatedID", it) || args[2].Key() != kv.Key() {
					st.Set("wrongov", 1)
				}
				f := st.Clone()
				f.Set("overr", 1)
				f.Note(ci.Pos, "reading the overrides of rule %d fails", k)
				out := []flow.Exit{{St: f, Res: []*flow.Val{flow.NilOf(ci.Res.At(0).Type()), serverErr(e, f, ci, ci.Res.At(1).Type(), "overr")}, Pos: ci.Pos}}
				for no := 0; no <= 2; no++ {
					s := st.Clone()
					s.Inc("found", 1)
					var ovs []*flow.Val
					for j := 0; j < no; j++ {
						o := flow.Root(fmt.Sprintf("ov%d_%d", k, j), types.NewPointer(ovT))
						s.Restrict(o, flow.NilOf(o.T), flow.LT|flow.GT)
						ovs = append(ovs, o)
					}
					l := e.NewSlice(s, ci.Instr, ci.Res.At(0).Type(), ovs...)
					s.MonV[fmt.Sprintf("ovs%d", k)] = l
					s.Note(ci.Pos, "rule %d has %d overrides", k, no)
					out = append(out, flow.Exit{St: s, Res: []*flow.Val{l, flow.NilOf(ci.Res.At(1).Type())}, Pos: ci.Pos})
				}
				return out, true
			}
			if ex, ok := q.call(e, st, ci); ok {
				return ex, true
			}
			if opaqueAmbient(ci) {
				return e.Unknown(st, ci), true
			}
			return nil, false
		}
		e := c.Engine(h)
		e.Unroll = 4
		st := flow.NewState()
		args := rootArgs(fn, st)
		kv = paramOf(fn, args, "models/datatypes", "KeyValues")
		for _, x := range e.Analyze(fn, args, nil, st) {
			c.Ob(rule, fmt.Sprintf("rules of a counter (%d match)", n))
			bad := func(s string) {
				c.Fail(rule, "rules of a counter: "+s, c.P.Pos(x.Pos), s+fmt.Sprintf(" (%d rules match)", n), e.Witness(x.St.Tr, 40)...)
			}
			if x.Panic {
				continue
			}
			if x.St.Mon["qerr"] != 0 || x.St.Mon["overr"] != 0 {
				if resNil(x, 1) != 0 {
					bad("limits that cannot be read are treated as absent")
				}
				continue
			}
			if resNil(x, 1) != 1 {
				bad("limits that were read are reported as an error")
				continue
			}
			if x.St.Mon["wrongov"] != 0 {
				bad("a rule is combined with the overrides of another rule or of other key values")
			}
			if kv == nil || x.St.MonV["query"] == nil || !isQueryFor(x.St.MonV["query"], "anyOf", kv) || x.St.Mon["queries"] != 1 {
				bad("the rules are matched against something else than the counter's key values")
			}
			checkLimitList(e, x, x.St.Mon["visited"], n, bad, []pathSpec{{[]string{"Spec", "DBDefinition", "GroupByKeyValues"}, "m.KeyValues"}, {[]string{"Spec", "Properties", "Limit", "*"}, "limit"}},
				func(j int, v *flow.Val) (zero bool, ok bool) {
					want := x.St.MonV[fmt.Sprintf("ovs%d", j)]
					got := e.LoadPath(x.St, v, "State", "Overrides")
					if want == nil || got == nil {
						return false, false
					}
					w, _ := e.Elems(x.St, want)
					g, gok := e.Elems(x.St, got)
					if !gok || len(w) != len(g) {
						return false, false
					}
					for i := range w {
						if w[i].Key() != g[i].Key() {
							return false, false
						}
						if l := e.LoadPath(x.St, g[i], "Spec", "Properties", "Limit", "*"); l != nil && x.St.Rel(l, int64c(0)) == flow.EQ {
							zero = true
						}
					}
					if len(w) == 0 {
						l := e.LoadPath(x.St, v, "Spec", "Properties", "Limit", "*")
						zero = l != nil && x.St.Rel(l, int64c(0)) == flow.EQ
					}
					return zero, true
				})
		}
		c.Done(rule, e)
	}
	return nil
}

// checkLimitList: the result holds the visited entries, and the search was cut short only at a zero limit.
func checkLimitList(e *flow.Engine, x flow.Exit, visited, n int, bad func(string), paths []pathSpec, eff func(j int, v *flow.Val) (bool, bool)) {
	el, ok := e.Elems(x.St, flow.Strip(x.Res[0]))
	if !ok || len(el) != visited {
		bad("a matching limit is dropped")
		return
	}
	zero := false
	for j, v := range el {
		it := x.St.MonV[fmt.Sprintf("item%d", j)]
		for _, p := range paths {
			if got := e.LoadPath(x.St, v, p.path...); got == nil || !termOf(got, p.op, it) {
				bad("a limit is returned with a wrong " + strings.TrimSuffix(strings.Join(p.path, "."), ".*"))
			}
		}
		if eff != nil {
			z, ok := eff(j, v)
			if !ok {
				bad("a rule is returned without its overrides")
			}
			zero = z
		} else if l := e.LoadPath(x.St, v, "Spec", "Properties", "Limit", "*"); l != nil {
			zero = x.St.Rel(l, int64c(0)) == flow.EQ
		}
	}
	if visited < n && !zero {
		bad("the search for limits stops although the last one found does not refuse everything")
	}
}

// ---- decrement and set ----

func counterChange(c *Ctx, rule string) error {
	for _, name := range []string{"DecrementCounters", "SetCounter"} {
		fn, err := c.P.Method(relCounters, "counterClientLocal", name)
		if err != nil {
			return err
		}
		var kv, props, amount *flow.Val
		h := &flow.Hooks{}
		tm := &TreeModel{}
		tm.OnOp = func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
			st.Set("op_"+outcome, 1)
			if outcome == "error" {
				return
			}
			st.Inc("ops", 1)
			if key.Args[0].Key() != kv.Key() {
				st.Set("bad:another counter than the named one is changed", 1)
			}
		}
		h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
			if ex, ok := ctxDoneCall(e, st, ci); ok {
				return ex, true
			}
			if ex, ok := itemCall(st, ci); ok {
				return ex, true
			}
			m := callee(ci)
			rcv, args := argsOf(ci)
			if ci.Method != nil && methodIs(m, relCounters, "New", "Update", "Set") {
				st.Inc(m.Name(), 1)
				if len(args) != 1 || args[0].Key() != props.Key() {
					st.Set("bad:the counter is changed by something else than the request's amount", 1)
				}
				if m.Name() != "New" && !(flow.Strip(rcv).K == flow.KTerm && flow.Strip(rcv).S == "m.Value") {
					st.Set("bad:another counter than the stored one is changed", 1)
				}
				switch m.Name() {
				case "New":
					v := e.Fresh(st, ci.Instr, "counter", ci.Res.At(0).Type())
					st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
					return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
				case "Update":
					v := e.Fresh(st, ci.Instr, "total", types.Typ[types.Int64])
					st.MonV["total"] = v
					return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
				}
				return []flow.Exit{{St: st, Pos: ci.Pos}}, true
			}
			if ex, ok := tm.Call(e, st, ci); ok {
				return ex, true
			}
			if opaqueAmbient(ci) {
				return e.Unknown(st, ci), true
			}
			return nil, false
		}
		e := c.Engine(h)
		st := flow.NewState()
		args := rootArgs(fn, st)
		ctr := paramOf(fn, args, pkgLimiterV1, "Counter")
		if ctr == nil {
			return fmt.Errorf("%s has no counter parameter", name)
		}
		kv = e.LoadPath(st, ctr, "Spec", "DBDefinition", "KeyValues")
		props = e.LoadPath(st, ctr, "Spec", "Properties")
		amount = e.LoadPath(st, ctr, "Spec", "Properties", "Counters", "*")
		if kv == nil || props == nil || amount == nil {
			return fmt.Errorf("the counter's parts could not be located")
		}
		if name == "DecrementCounters" {
			st.Restrict(amount, int64c(0), flow.LT|flow.EQ)
		}
		st.MonV["amount"] = amount
		zero := int64c(0)
		for _, x := range e.Analyze(fn, args, nil, st) {
			m := x.St.Mon
			c.Ob(rule, name)
			bad := func(s string) {
				c.Fail(rule, name+": "+s, c.P.Pos(x.Pos), name+": "+s, e.Witness(x.St.Tr, 40)...)
			}
			if x.Panic {
				continue
			}
			for _, k := range sortedKeys(m) {
				if strings.HasPrefix(k, "bad:") {
					bad(k[4:])
				}
			}
			if m["op_error"] != 0 {
				c.Ob(rule, name+" refused")
				if resNil(x, 0) != 0 {
					bad("a change the storage refused is reported as done")
				}
				continue
			}
			if resNil(x, 0) != 1 {
				bad("a change that was made is reported as failed")
			}
			if m["ops"] != 1 {
				bad("the counter is not changed exactly once")
				continue
			}
			switch name {
			case "DecrementCounters":
				if m["New"]+m["Set"] != 0 || m["op_created"] != 0 {
					bad("a decrement creates or sets a counter")
				}
				if m["op_absent"] != 0 {
					break
				}
				if m["Update"] != 1 {
					bad("a decrement does not change the counter exactly once")
					break
				}
				r := x.St.Rel(x.St.MonV["total"], zero)
				if m["op_removed"] != 0 && r&flow.GT != 0 {
					bad("a counter that still counts something is removed")
				}
				if m["op_removed"] == 0 && r&^flow.GT != 0 {
					bad("a counter with nothing left is kept")
				}
			case "SetCounter":
				r := x.St.Rel(amount, zero)
				if m["Update"] != 0 {
					bad("a set adds to the counter instead of replacing it")
				}
				switch {
				case m["op_removed"]+m["op_absent"] != 0:
					if r&flow.GT != 0 {
						bad("setting a counter to a positive total removes it")
					}
				case m["op_kept"] != 0:
					bad("setting a counter to nothing keeps it")
				case m["op_created"] != 0:
					if r&^flow.GT != 0 {
						bad("a counter is stored with nothing to count")
					}
					if m["New"] != 1 || m["Set"] != 0 {
						bad("a new counter is not made from the request")
					}
				case m["op_found"] != 0:
					if r&^flow.GT != 0 {
						bad("a counter is stored with nothing to count")
					}
					if m["Set"] != 1 || m["New"] != 0 {
						bad("an existing counter is not replaced")
					}
				default:
					bad("the counter is not set")
				}
			}
		}
		c.Done(rule, e)
	}
	return nil
}

// storedCounter: the counter kept in memory.
func storedCounter(c *Ctx, rule string) error {
	newFn, err := c.P.Func("internal/limiter/counters/memory", "New")
	if err != nil {
		return err
	}
	// where is the total kept? -- as the object New builds and Load reads
	load, err := c.P.Method("internal/limiter/counters/memory", "Counter", "Load")
	if err != nil {
		return err
	}
	type act struct {
		name string
		lin  func(old, arg linear) linear
	}
	run := func(e *flow.Engine, fn *ssa.Function, args []*flow.Val, st *flow.State) []flow.Exit {
		var out []flow.Exit
		for _, x := range e.Analyze(fn, args, nil, st) {
			if !x.Panic {
				out = append(out, x)
			}
		}
		return out
	}
	propsT := newFn.Params[0].Type()
	arg := flow.Root("amount", propsT)
	eng := func() *flow.Engine { return c.Engine(&flow.Hooks{}) }
	same := func(a, b linear) bool { return a.sameCoef(b, 1) && a.k == b.k }
	// New then Load gives the amount
	e := eng()
	st := flow.NewState()
	st.Restrict(arg, flow.NilOf(arg.T), flow.LT|flow.GT)
	amt := e.LoadPath(st, arg, "Counters", "*")
	if amt == nil {
		return fmt.Errorf("the counter's amount could not be located")
	}
	st.MonV["amt"] = amt
	for _, x := range run(e, newFn, []*flow.Val{arg}, st) {
		for _, y := range run(e, load, []*flow.Val{x.Res[0]}, x.St) {
			c.Check(same(linOf(y.Res[0]), linOf(amt)), rule, "a new counter", c.P.Pos(newFn.Pos()), "a new counter does not start with the requested total")
		}
		p := e.LoadPath(x.St, arg, "Counters")
		alias := false
		_ = p
		// a later change of the stored total must not reach the request
		upd, err := c.P.Method("internal/limiter/counters/memory", "Counter", "Set")
		if err != nil {
			return err
		}
		other := flow.Root("other", propsT)
		s2 := x.St.Clone()
		s2.Restrict(other, flow.NilOf(other.T), flow.LT|flow.GT)
		for _, y := range run(e, upd, []*flow.Val{x.Res[0], other}, s2) {
			if v := e.LoadPath(y.St, arg, "Counters", "*"); v == nil || v.Key() != amt.Key() {
				alias = true
			}
		}
		c.Check(!alias, rule, "a new counter is a copy", c.P.Pos(newFn.Pos()), "the stored total is shared with the request")
	}
	for _, a := range []act{
		{"Update", func(o, v linear) linear { return sumLin(o, v) }},
		{"Set", func(o, v linear) linear { return v }},
	} {
		fn, err := c.P.Method("internal/limiter/counters/memory", "Counter", a.name)
		if err != nil {
			return err
		}
		e := eng()
		st := flow.NewState()
		recv := flow.Root("recv", fn.Params[0].Type())
		for _, v := range []*flow.Val{recv, arg} {
			st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
		}
		st.MonV["amt"] = amt
		for _, o := range run(e, load, []*flow.Val{recv}, st) {
			old := o.Res[0]
			s := o.St
			s.MonV["old"] = old
			for _, x := range run(e, fn, []*flow.Val{recv, arg}, s) {
				want := a.lin(linOf(old), linOf(amt))
				for _, y := range run(e, load, []*flow.Val{recv}, x.St) {
					c.Check(same(linOf(y.Res[0]), want), rule, a.name, c.P.Pos(fn.Pos()), a.name+" does not leave the counter with the right total")
				}
				if a.name == "Update" {
					c.Check(len(x.Res) == 1 && same(linOf(x.Res[0]), want), rule, "the total Update reports", c.P.Pos(fn.Pos()), "Update does not report the new total")
				}
			}
		}
		c.Done(rule, e)
	}
	return nil
}

func sumLin(a, b linear) linear {
	r := linear{coef: map[string]int64{}, k: a.k + b.k}
	for k, v := range a.coef {
		r.coef[k] += v
	}
	for k, v := range b.coef {
		r.coef[k] += v
		if r.coef[k] == 0 {
			delete(r.coef, k)
		}
	}
	return r
}
