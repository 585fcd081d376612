package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

func init() {
	register("D07", "A query selects exactly the items it describes", func(c *Ctx) error {
		c.Rule("selected", "an item is handed to the caller if and only if the query describes it", 6)
		c.Rule("once", "no item is handed over twice, and none after the caller asked to stop", 3)
		c.Rule("all", "an empty query, on its own or inside another one, stands for every item", 2)
		c.Rule("joined", "when several keys must differ, an item is left out as soon as one of them is equal", 1)
		c.Rule("comparison", "each key is looked up with the comparison, the value and the type restrictions of the query", 2)
		c.Rule("values", "key values given directly are judged by the same comparisons as stored ones", 24)
		c.Rule("combined", "key values given directly match a combined query as the stored items would: within all of the And parts, or in any of the Or parts", 4)
		c.Rule("total", "no valid query stops the process, whatever it combines", 3)
		c.Rule("released", "every lock and registration a search takes is given back", 3)
		c.Rule("guarded", "an index entry is only read while it is locked, and by searches that a destroy of the whole tree waits for", 3)
		return queryCheck(c)
	})
	register("D10", "A match finds exactly the items whose key values are all among those given", func(c *Ctx) error {
		c.Rule("selected", "an item is handed to the caller if and only if each of its key values is matched and their number is within the limits", 3)
		c.Rule("once", "no item is handed over twice, and none after the caller asked to stop", 3)
		c.Rule("comparison", "each key is looked up with the value and type restrictions it was given with", 2)
		c.Rule("total", "no match stops the process, whatever its limits and whatever happens to items meanwhile", 2)
		c.Rule("released", "every lock and registration a search takes is given back", 3)
		c.Rule("guarded", "an index entry is only read while it is locked, and by searches that a destroy of the whole tree waits for", 3)
		return matchCheck(c)
	})
}

const (
	tString = 13
	tAny    = 1024
	tInt    = 10
	tUint8  = 1
)

// a world: some stored items, and which of their key values the lookups of the query would come across
type qitem struct {
	id   string
	keys map[string]string // key -> "in" (found by the query's comparison), "out"
}

type qkey struct{ name, cmp string }

type qsel struct {
	ids      []string
	keys     []qkey
	min, max int // -1: no limit
}

type qq struct {
	sel     *qsel
	and, or []*qq
	empty   bool // empty lists rather than none
}

func (s *qsel) describes(it *qitem, ids bool) bool {
	if ids && len(s.ids) > 0 {
		ok := false
		for _, i := range s.ids {
			ok = ok || i == it.id
		}
		if !ok {
			return false
		}
	}
	return s.fits(it)
}

func (s *qsel) fits(it *qitem) bool {
	n := len(it.keys)
	if s.min >= 0 && n < s.min || s.max >= 0 && n > s.max {
		return false
	}
	for _, k := range s.keys {
		if (it.keys[k.name] == "in") == (k.cmp == "!=") {
			return false
		}
	}
	return true
}

func (q *qq) describes(it *qitem, ids bool) bool {
	if q.sel == nil && len(q.and) == 0 && len(q.or) == 0 {
		return true
	}
	core := q.sel != nil || len(q.and) > 0
	if q.sel != nil {
		core = q.sel.describes(it, ids)
	}
	for _, a := range q.and {
		core = core && a.describes(it, ids)
	}
	for _, o := range q.or {
		core = core || o.describes(it, ids)
	}
	return core
}

func (s *qsel) String() string {
	var out []string
	if len(s.ids) > 0 {
		out = append(out, "ids "+strings.Join(s.ids, "|"))
	}
	for _, k := range s.keys {
		out = append(out, k.name+k.cmp)
	}
	if s.min >= 0 {
		out = append(out, fmt.Sprint("min ", s.min))
	}
	if s.max >= 0 {
		out = append(out, fmt.Sprint("max ", s.max))
	}
	return strings.Join(out, ",")
}

func (q *qq) String() string {
	var out []string
	if q.sel != nil {
		out = append(out, q.sel.String())
	}
	for _, a := range q.and {
		out = append(out, "And("+a.String()+")")
	}
	for _, o := range q.or {
		out = append(out, "Or("+o.String()+")")
	}
	if len(out) == 0 {
		if q.empty {
			return "nothing but empty lists"
		}
		return "nothing"
	}
	return strings.Join(out, " ")
}

func (i *qitem) String() string {
	var out []string
	for _, k := range []string{"a", "b", "z"} {
		if v := i.keys[k]; v != "" {
			out = append(out, k+":"+v)
		}
	}
	return i.id + "{" + strings.Join(out, " ") + "}"
}

type query struct {
	c    *Ctx
	a    *assoc
	e    *flow.Engine
	name string

	valuesT             types.Type // index of one key
	treeF               *types.Var // its tree
	queryT, selT        *types.Named
	vqT, evT, trT, cmpT types.Type
	kvT                 types.Type
	matchT, mvT         types.Type

	items []*qitem
	q     *qq
	match map[string]bool // keys of a match
	mmin  int
	mmax  int
	cb    *flow.Val
	loose bool // items may go or be held meanwhile
	stops bool // the caller may ask to stop
	cmpOf map[string]string
	world string
	rule  string
	joint bool
	sels  map[string]*qsel
}

func (q *query) find() error {
	q.a = &assoc{c: q.c, role: map[*types.Var]string{}}
	a := q.a
	if err := a.find(); err != nil {
		return err
	}
	a.fail = func(string, *flow.State, token.Pos, string, ...any) {}
	fn, err := q.c.P.Method("internal/datastructures/btree_associated", a.tree.Obj().Name(), "Create")
	if err != nil {
		return err
	}
	a.op, a.name, a.n = "Create", "learn", 1
	a.run(fn, false)
	if len(a.role) < 2 {
		return fmt.Errorf("the trees of the index were not told apart")
	}
	for _, lp := range q.c.P.Pkgs {
		if lp.Types == nil {
			continue
		}
		look := func(n string) types.Type {
			if o, ok := lp.Types.Scope().Lookup(n).(*types.TypeName); ok {
				return o.Type()
			}
			return nil
		}
		switch {
		case strings.HasSuffix(lp.Types.Path(), pkgAssoc):
			for _, n := range lp.Types.Scope().Names() {
				tn, ok := lp.Types.Scope().Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				s, _ := tn.Type().Underlying().(*types.Struct)
				if s == nil || types.Identical(tn.Type(), a.tree) {
					continue
				}
				for i := 0; i < s.NumFields(); i++ {
					if strings.HasSuffix(s.Field(i).Type().String(), pkgBtree+".BTree") {
						q.valuesT, q.treeF = tn.Type(), s.Field(i)
					}
				}
			}
		case strings.HasSuffix(lp.Types.Path(), "/query_associated_action"):
			q.queryT, _ = look("AssociatedActionQuery").(*types.Named)
			q.selT, _ = look("Selection").(*types.Named)
			q.vqT = look("ValueQuery")
		case strings.HasSuffix(lp.Types.Path(), "/query_match_action"):
			q.matchT, q.mvT = look("MatchActionQuery"), look("MatchValue")
		case strings.HasSuffix(lp.Types.Path(), "/api/common/v1"):
			q.trT, q.cmpT = look("TypeRestrictions"), look("DataComparison")
		case strings.HasSuffix(lp.Types.Path(), "/models/datatypes"):
			q.evT, q.kvT = look("EncapsulatedValue"), look("KeyValues")
		}
	}
	if q.valuesT == nil || q.queryT == nil || q.selT == nil || q.vqT == nil || q.matchT == nil || q.mvT == nil || q.trT == nil || q.cmpT == nil || q.evT == nil || q.kvT == nil {
		return fmt.Errorf("the types of a query were not found")
	}
	return nil
}

func (q *query) ob(rule string) { q.c.Ob(rule, q.name) }

func (q *query) fail(rule string, st *flow.State, pos token.Pos, f string, v ...any) {
	if q.joint && rule == "selected" {
		rule = "joined"
	}
	msg := fmt.Sprintf(f, v...)
	if q.world != "" {
		msg += " [" + q.world + "]"
	}
	q.c.Fail(rule, q.name, q.c.P.Pos(pos), msg, q.e.Witness(st.Tr, 60)...)
}

func fieldByType(t types.Type, ok func(types.Type) bool) *types.Var {
	s := deref(t).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if ok(s.Field(i).Type()) {
			return s.Field(i)
		}
	}
	return nil
}

func fieldByName(t types.Type, n string) *types.Var {
	s := deref(t).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return s.Field(i)
		}
	}
	return nil
}

// structOf builds a struct value from its fields by name; the others are zero.
func (q *query) structVal(t types.Type, fields map[string]*flow.Val) *flow.Val {
	s := t.Underlying().(*types.Struct)
	out := make([]*flow.Val, s.NumFields())
	for i := range out {
		if v := fields[s.Field(i).Name()]; v != nil {
			out[i] = v
		} else {
			out[i] = flow.ZeroOf(s.Field(i).Type())
		}
	}
	return flow.StructVal(t, out...)
}

func (q *query) dataType(n int64) *flow.Val {
	return flow.Const(constant.MakeInt64(n), fieldByName(q.evT, "Type").Type())
}

func (q *query) restrictions(lo, hi int64) *flow.Val {
	return q.structVal(q.trT, map[string]*flow.Val{"MinDataType": q.dataType(lo), "MaxDataType": q.dataType(hi)})
}

func (q *query) cmp(s string) *flow.Val { return flow.Const(constant.MakeString(s), q.cmpT) }

func (q *query) newEngine() {
	q.e = q.c.Engine(q.hooks())
	q.sels = map[string]*qsel{}
	q.e.Unroll, q.e.Maps, q.e.MaxStates, q.e.Recur = 9, true, 20000000, 5
}

func (q *query) limit(st *flow.State, name string, n int, t types.Type) *flow.Val {
	if n < 0 {
		return flow.NilOf(t)
	}
	p := flow.Root(name, t)
	st.Restrict(p, flow.NilOf(t), flow.LT|flow.GT)
	st.Store(p, flow.Int(int64(n)))
	return p
}

// build lays a query out.
func (q *query) build(st *flow.State, d *qq, name string) *flow.Val {
	p := flow.Root("query "+name, types.NewPointer(q.queryT))
	st.Restrict(p, flow.NilOf(p.T), flow.LT|flow.GT)
	selF, andF, orF := fieldByName(q.queryT, "Selection"), fieldByName(q.queryT, "And"), fieldByName(q.queryT, "Or")
	sel := flow.NilOf(selF.Type())
	if d.sel != nil {
		sel = flow.Root("selection "+name, selF.Type())
		q.sels[sel.Key()] = d.sel
		st.Restrict(sel, flow.NilOf(sel.T), flow.LT|flow.GT)
		for n, lim := range map[string]int{"MinNumberOfKeyValues": d.sel.min, "MaxNumberOfKeyValues": d.sel.max} {
			f := fieldByName(q.selT, n)
			st.Store(flow.FieldAddr(sel, f), q.limit(st, n+" "+name, lim, f.Type()))
		}
		idsF, kvF := fieldByName(q.selT, "IDs"), fieldByName(q.selT, "KeyValues")
		ids := flow.NilOf(idsF.Type())
		if len(d.sel.ids) > 0 {
			var el []*flow.Val
			for _, i := range d.sel.ids {
				el = append(el, flow.Str(i))
			}
			ids = q.e.FixedSlice(st, "ids "+name, idsF.Type(), el...)
		}
		st.Store(flow.FieldAddr(sel, idsF), ids)
		var en []*flow.Val
		for _, k := range d.sel.keys {
			en = append(en, flow.Tup(flow.Str(k.name), q.structVal(q.vqT, map[string]*flow.Val{
				"Value": flow.Root("value "+k.name, q.evT), "Comparison": q.cmp(k.cmp), "TypeRestrictions": flow.Root("restrictions "+k.name, q.trT)})))
			if q.cmpOf != nil {
				q.cmpOf[k.name] = k.cmp
			}
		}
		st.Store(flow.FieldAddr(sel, kvF), q.e.NewMap(st, "keys "+name, kvF.Type(), en...))
	}
	st.Store(flow.FieldAddr(p, selF), sel)
	list := func(f *types.Var, l []*qq) {
		v := flow.NilOf(f.Type())
		if len(l) > 0 || d.empty {
			var el []*flow.Val
			for i, x := range l {
				el = append(el, q.build(st, x, fmt.Sprint(name, ".", f.Name(), i)))
			}
			v = q.e.FixedSlice(st, f.Name()+" "+name, f.Type(), el...)
			st.Restrict(v, flow.NilOf(f.Type()), flow.LT|flow.GT)
		}
		st.Store(flow.FieldAddr(p, f), v)
	}
	list(andF, d.and)
	list(orF, d.or)
	return p
}

func (q *query) itemVal(it *qitem) *flow.Val {
	return flow.Root("item "+it.id, types.NewPointer(q.a.item))
}

func (q *query) nodeVal(key, side string) *flow.Val {
	return flow.Root("entry "+key+" "+side, types.NewPointer(q.a.node))
}

// layout stores the items.
func (q *query) layout(st *flow.State) {
	str := types.Typ[types.String]
	lists := map[string][][]*flow.Val{}
	for _, it := range q.items {
		v := q.itemVal(it)
		st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
		st.Store(flow.FieldAddr(v, q.a.itID), flow.Str(it.id))
		var en []*flow.Val
		for _, k := range []string{"a", "b", "z"} {
			side := it.keys[k]
			if side == "" {
				continue
			}
			en = append(en, flow.Tup(flow.Str(k), flow.Root("stored "+k+" "+side, q.evT)))
			l := lists[k+" "+side]
			for len(l) < len(it.keys) {
				l = append(l, nil)
			}
			l[len(it.keys)-1] = append(l[len(it.keys)-1], flow.Str(it.id))
			lists[k+" "+side] = l
		}
		st.Store(flow.FieldAddr(v, q.a.itKV), q.e.NewMap(st, "kv "+it.id, q.a.itKV.Type(), en...))
	}
	for _, k := range []string{"a", "b", "z"} {
		for _, side := range []string{"in", "out"} {
			n := q.nodeVal(k, side)
			st.Restrict(n, flow.NilOf(n.T), flow.LT|flow.GT)
			var el []*flow.Val
			for i, l := range lists[k+" "+side] {
				el = append(el, q.e.FixedSlice(st, fmt.Sprint("list ", k, side, i, len(l)), types.NewSlice(str), l...))
			}
			st.Store(flow.FieldAddr(n, q.a.idsF), q.e.FixedSlice(st, fmt.Sprint("lists ", k, side, len(el)), types.NewSlice(types.NewSlice(str)), el...))
			if _, ok := q.a.lockF.Type().(*types.Pointer); ok {
				l := flow.Root("lock "+k+side, q.a.lockF.Type())
				st.Restrict(l, flow.NilOf(l.T), flow.LT|flow.GT)
				st.Store(flow.FieldAddr(n, q.a.lockF), l)
			}
		}
	}
}

func (q *query) hasEntry(k, side string) bool {
	for _, it := range q.items {
		if it.keys[k] == side {
			return true
		}
	}
	return false
}

// keyName: which key a lookup names ("*" for any)
func (q *query) lookupKey(st *flow.State, ev *flow.Val) string {
	if t, ok := intOf(q.part(ev, "Type")); ok && t == tAny {
		return "*"
	}
	d := q.part(ev, "Data")
	if d != nil && d.K == flow.KIface {
		if s, ok := flow.StrVal(d.Args[0]); ok {
			return "=" + s
		}
	}
	return ""
}

func intOf(v *flow.Val) (int64, bool) {
	if v == nil {
		return 0, false
	}
	return flow.IntVal(v)
}

func (q *query) part(v *flow.Val, f string) *flow.Val {
	if v != nil && v.K == flow.KStruct {
		s := v.T.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				return v.Args[i]
			}
		}
	}
	return nil
}

// allows: do type restrictions include a data type? ok=false if unknown
func (q *query) allows(r *flow.Val, t int64) (yes, ok bool) {
	lo, ok1 := intOf(q.part(r, "MinDataType"))
	hi, ok2 := intOf(q.part(r, "MaxDataType"))
	return lo <= t && t <= hi, ok1 && ok2
}

func (q *query) covers(r *flow.Val) bool {
	lo, ok1 := q.allows(r, tUint8)
	hi, ok2 := q.allows(r, tAny)
	return ok1 && ok2 && lo && hi
}

func (q *query) hooks() *flow.Hooks {
	h := &flow.Hooks{}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		one := func(v ...*flow.Val) ([]flow.Exit, bool) { return []flow.Exit{{St: st, Res: v, Pos: ci.Pos}}, true }
		if kind, op, tree, args := treeKind(ci); kind == "btree" {
			return q.lookup(st, ci, op, tree, args), true
		}
		if ci.FnVal != nil && q.cb != nil && ci.FnVal.Key() == q.cb.Key() {
			return q.offered(st, ci), true
		}
		m := callee(ci)
		if m == nil {
			return nil, false
		}
		sig := m.Type().(*types.Signature)
		pkg := ""
		if m.Pkg() != nil {
			pkg = m.Pkg().Path()
		}
		if sig.Recv() != nil && m.Name() == "Validate" {
			n := recvTypeName(m)
			if n == "AssociatedActionQuery" || n == "Selection" || n == "MatchActionQuery" {
				return nil, false
			}
			return one(flow.NilOf(sig.Results().At(0).Type()))
		}
		if sig.Recv() != nil && recvTypeName(m) == q.guardType() && sig.Params().Len() == 0 && sig.Results().Len() == 0 {
			st.Inc("guard:"+recvTypeName(m), -1)
			return one()
		}
		if strings.HasPrefix(pkg, "sync") {
			if sig.Results().Len() == 0 {
				if recv, _ := argsOf(ci); recv != nil {
					k := "held:" + recv.Key()
					switch m.Name() {
					case "Lock", "RLock":
						if st.Mon[k] > 0 {
							q.fail("released", st, ci.Pos, "a lock is taken that is already held")
						}
						st.Set(k, 1)
					case "Unlock", "RUnlock":
						if st.Mon[k] == 0 {
							q.fail("released", st, ci.Pos, "a lock is given back that is not held")
						}
						st.Set(k, 0)
					}
				}
				return one()
			}
		}
		if sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.Bool]) && sig.Params().Len() == 0 && sig.Recv() != nil && recvTypeName(m) == q.guardType() {
			// entering a tree that may be on its way out
			no := st.Clone()
			no.Set("refused", 1)
			st.Inc("guard:"+recvTypeName(m), 1)
			out, _ := one(flow.Bool(true))
			return append(out, flow.Exit{St: no, Res: []*flow.Val{flow.Bool(false)}, Pos: ci.Pos}), true
		}
		if sig.Recv() != nil && recvTypeName(m) == "Selection" && sig.Params().Len() == 1 && isKeyValues(sig.Params().At(0).Type()) && q.items != nil && q.rule == "tree" {
			recv, as := argsOf(ci)
			it := q.itemOf(as[len(as)-1])
			d := q.sels[recv.Key()]
			if it == nil || d == nil {
				q.fail("selected", st, ci.Pos, "undecided: key values that are not an item's are compared")
				return one(flow.Bool(false))
			}
			return one(flow.Bool(d.fits(it)))
		}
		return nil, false
	}
	h.Deref = func(e *flow.Engine, st *flow.State, b *flow.Val, in ssa.Instruction) {
		fa, ok := in.(*ssa.FieldAddr)
		if !ok || !types.Identical(deref(b.T), q.a.node) {
			return
		}
		if fieldByName(q.a.node, q.a.idsF.Name()) != deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field) {
			return
		}
		q.ob("guarded")
		held := false
		for _, ad := range []*flow.Val{flow.FieldAddr(b, q.a.lockF), q.e.LoadField(st, b, q.a.lockF)} {
			held = held || st.Mon["held:"+ad.Key()] > 0
		}
		if !held {
			q.fail("guarded", st, in.Pos(), "an index entry is read while it is not locked")
		}
		if st.Mon["guard:"+q.guardType()] == 0 {
			q.fail("guarded", st, in.Pos(), "an index entry is read by an operation that a destroy of the tree does not wait for")
		}
	}
	h.Lookup = func(e *flow.Engine, st *flow.State, m, k *flow.Val, in *ssa.Lookup) *flow.Val {
		ad := flow.LoadAddr(m)
		n, ok := flow.IntVal(k)
		if ad == nil || !ok || !strings.Contains(ad.Key(), "$global") {
			return nil
		}
		var v bool
		switch {
		case strings.Contains(ad.Key(), ".GeneralDataTypes"):
			v = n >= 1 && n <= tString
		case strings.Contains(ad.Key(), ".AnyDataType"):
			v = n == tAny
		default:
			return nil
		}
		if in.CommaOk {
			return flow.Tup(flow.Bool(v), flow.Bool(v))
		}
		return flow.Bool(v)
	}
	return h
}

// guardType: the part of the tree that keeps a destroy waiting
func (q *query) guardType() string {
	s := q.a.tree.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if ms := types.NewMethodSet(t); ms.Lookup(nil, "GuardOperation") != nil || types.NewMethodSet(types.NewPointer(t)).Lookup(nil, "GuardOperation") != nil {
			if n, ok := deref(t).(*types.Named); ok {
				return n.Obj().Name()
			}
		}
	}
	return ""
}

func (q *query) itemOf(v *flow.Val) *qitem {
	for _, it := range q.items {
		n := "$item " + it.id + ";"
		if flow.Contains(v, func(x *flow.Val) bool { return x.Key() == n || x.Key() == "$kv "+it.id+";" }) {
			return it
		}
	}
	return nil
}

// run applies a callback to entries until it returns false.
func (q *query) each(st *flow.State, cb *flow.Val, key func(i int) *flow.Val, entries []*flow.Val, in ssa.Instruction, pos token.Pos) (done []*flow.State, panics []flow.Exit) {
	cur := []*flow.State{st}
	for i, en := range entries {
		var next []*flow.State
		for _, s := range cur {
			for _, x := range q.e.CallValue(s, cb, []*flow.Val{key(i), flow.IfaceOf(en, en.T)}, in) {
				if x.Panic {
					panics = append(panics, x)
					continue
				}
				if len(x.Res) == 0 {
					next = append(next, x.St)
					continue
				}
				switch x.St.Truth(x.Res[0]) {
				case 1:
					next = append(next, x.St)
				case 0:
					done = append(done, x.St)
				default:
					next = append(next, x.St.Clone())
					done = append(done, x.St)
				}
			}
		}
		cur = next
	}
	return append(done, cur...), panics
}

func (q *query) lookup(st *flow.State, ci *flow.CallInfo, op string, tree *flow.Val, args []*flow.Val) []flow.Exit {
	in := ci.Instr
	bad := func(rule, f string, v ...any) []flow.Exit {
		q.fail(rule, st, ci.Pos, f, v...)
		return []flow.Exit{{St: st, Res: []*flow.Val{nilErr()}, Pos: ci.Pos}}
	}
	if !strings.HasPrefix(op, "Find") || len(args) != 3 {
		return bad("selected", "a query uses %s", op)
	}
	key, restr, cb := args[0], args[1], args[2]
	role := "values"
	if ad := flow.LoadAddr(tree); ad != nil && ad.K == flow.KAddr && ad.Field != nil {
		if r := q.a.role[ad.Field]; r != "" {
			role = r
		}
	}
	var out []flow.Exit
	finish := func(st *flow.State, keyOf func(i int) *flow.Val, entries []*flow.Val) {
		done, panics := q.each(st, cb, keyOf, entries, in, ci.Pos)
		out = append(out, panics...)
		for _, s := range done {
			out = append(out, flow.Exit{St: s, Res: []*flow.Val{nilErr()}, Pos: ci.Pos})
		}
	}
	str := func(s string) *flow.Val {
		return q.structVal(q.evT, map[string]*flow.Val{"Type": q.dataType(tString), "Data": flow.IfaceOf(flow.Str(s), types.Typ[types.String])})
	}
	switch role {
	case "keys", "items":
		name := q.lookupKey(st, key)
		var names []string
		switch {
		case op == "Find" && name == "*":
			yes, ok := q.allows(restr, tString)
			if !ok {
				return bad("selected", "undecided: the type restrictions of a lookup are not known")
			}
			if !yes {
				return bad("all", "a lookup of everything leaves the keys out, which are strings")
			}
			if role == "keys" {
				names = []string{"a", "b", "z"}
			} else {
				for _, it := range q.items {
					names = append(names, it.id)
				}
			}
		case op == "Find" && strings.HasPrefix(name, "="):
			yes, ok := q.allows(restr, tString)
			if !ok {
				return bad("selected", "undecided: the type restrictions of a lookup are not known")
			}
			if yes {
				names = []string{name[1:]}
			}
		default:
			return bad("selected", "the tree of %s is looked up with %s %s", role, op, name)
		}
		var entries []*flow.Val
		var keys []*flow.Val
		sts := []*flow.State{st}
		for _, n := range names {
			if role == "keys" {
				if q.hasEntry(n, "in") || q.hasEntry(n, "out") {
					v := flow.Root("index "+n, types.NewPointer(q.valuesT))
					st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
					entries, keys = append(entries, v), append(keys, str(n))
				}
				continue
			}
			for _, it := range q.items {
				if it.id != n {
					continue
				}
				entries, keys = append(entries, q.itemVal(it)), append(keys, str(n))
			}
		}
		if role == "items" && name != "*" && q.loose && len(entries) == 1 && names[0] == "x" {
			gone := st.Clone()
			gone.Set("gone:x", 1)
			gone.Note(ci.Pos, "item x was deleted meanwhile")
			out = append(out, flow.Exit{St: gone, Res: []*flow.Val{nilErr()}, Pos: ci.Pos})
			held := st.Clone()
			held.Set("gone:x", 1)
			held.Note(ci.Pos, "item x is being destroyed")
			if err := q.a.btreeErr(held, "ErrorKeyDestroying"); err != nil {
				held.Restrict(err, nilErr(), flow.LT|flow.GT)
				out = append(out, flow.Exit{St: held, Res: []*flow.Val{err}, Pos: ci.Pos})
			}
		}
		for _, s := range sts {
			finish(s, func(i int) *flow.Val { return keys[i] }, entries)
		}
	default:
		// the values of one key
		k := ""
		flow.Contains(tree, func(x *flow.Val) bool {
			for _, n := range []string{"a", "b", "z"} {
				if x.Key() == "$index "+n+";" {
					k = n
				}
			}
			return false
		})
		if k == "" {
			return bad("selected", "undecided: it is not known which key's values are looked up")
		}
		var sides []string
		if q.lookupKey(st, key) == "*" && op == "Find" {
			if !q.covers(restr) {
				return bad("all", "a lookup of every value leaves some data types out")
			}
			sides = []string{"in", "out"}
		} else {
			q.ob("comparison")
			want := map[string]string{"=": "Find", "!=": "Find", "<": "FindLessThan", "<=": "FindLessThanOrEqual", ">": "FindGreaterThan", ">=": "FindGreaterThanOrEqual"}[q.cmpOf[k]]
			if op != want {
				return bad("comparison", "a key that is to be %s the value is looked up with %s", q.cmpOf[k], op)
			}
			if key.Key() != flow.Root("value "+k, q.evT).Key() {
				return bad("comparison", "a key's values are looked up with another value than the query's")
			}
			if restr.Key() != flow.Root("restrictions "+k, q.trT).Key() {
				return bad("comparison", "a key's values are looked up with other type restrictions than the query's")
			}
			sides = []string{"in"}
		}
		var entries []*flow.Val
		for _, s := range sides {
			if q.hasEntry(k, s) {
				entries = append(entries, q.nodeVal(k, s))
			}
		}
		finish(st, func(int) *flow.Val { return flow.Root("stored "+k, q.evT) }, entries)
	}
	return out
}

// offered: the caller gets an item
func (q *query) offered(st *flow.State, ci *flow.CallInfo) []flow.Exit {
	it := q.itemOf(ci.Args[0])
	ret := func(s *flow.State, b bool) flow.Exit {
		return flow.Exit{St: s, Res: []*flow.Val{flow.Bool(b)}, Pos: ci.Pos}
	}
	if it == nil {
		q.fail("selected", st, ci.Pos, "the caller gets something that is no stored item: %s", ci.Args[0])
		return []flow.Exit{ret(st, true)}
	}
	if st.Mon["stopped"] > 0 {
		q.fail("once", st, ci.Pos, "the caller gets an item after asking to stop")
	}
	if st.Mon["offered:"+it.id] > 0 {
		q.fail("once", st, ci.Pos, "the caller gets item %s twice", it)
	}
	st.Set("offered:"+it.id, 1)
	out := []flow.Exit{}
	if q.stops {
		s := st.Clone()
		s.Set("stopped", 1)
		s.Note(ci.Pos, "the caller asks to stop")
		out = append(out, ret(s, false))
	}
	return append(out, ret(st, true))
}

// judge compares what was offered with what was described.
func (q *query) judge(exits []flow.Exit, fn *ssa.Function, want func(it *qitem) bool, rule string, valid bool) {
	for _, x := range exits {
		if x.Panic {
			q.fail("total", x.St, x.Pos, "the process stops")
			continue
		}
		for k, n := range x.St.Mon {
			if n != 0 && (strings.HasPrefix(k, "held:") || strings.HasPrefix(k, "guard:")) {
				q.fail("released", x.St, x.Pos, "a lock or registration is kept (%s)", k)
			}
		}
		err := -1
		if len(x.Res) > 0 {
			if x.St.IsNil(x.Res[len(x.Res)-1]) == 1 {
				err = 0
			} else {
				err = 1
			}
		}
		if x.St.Mon["refused"] > 0 || !valid {
			if err == 0 && valid {
				q.fail("selected", x.St, x.Pos, "nothing is reported although the tree is on its way out")
			}
			for _, it := range q.items {
				if x.St.Mon["offered:"+it.id] > 0 && x.St.Mon["refused"] > 0 {
					q.fail("selected", x.St, x.Pos, "items are handed over although the tree is on its way out")
				}
			}
			continue
		}
		if err != 0 {
			q.fail("selected", x.St, x.Pos, "a valid query fails")
			continue
		}
		for _, it := range q.items {
			got := x.St.Mon["offered:"+it.id] > 0
			w := want(it)
			if got && !w {
				q.fail(rule, x.St, x.Pos, "item %s is handed over although the query does not describe it", it)
			}
			if w && !got && x.St.Mon["stopped"] == 0 && x.St.Mon["gone:"+it.id] == 0 {
				q.fail(rule, x.St, x.Pos, "item %s is not handed over although the query describes it", it)
			}
		}
	}
}

func itemWorlds() [][]*qitem {
	var xs []map[string]string
	sides := []string{"", "in", "out"}
	for _, a := range sides {
		for _, b := range sides {
			for _, z := range []string{"", "out"} {
				m := map[string]string{}
				for k, v := range map[string]string{"a": a, "b": b, "z": z} {
					if v != "" {
						m[k] = v
					}
				}
				if len(m) > 0 {
					xs = append(xs, m)
				}
			}
		}
	}
	var out [][]*qitem
	for _, x := range xs {
		for _, y := range []map[string]string{nil, {"a": "in"}, {"a": "in", "b": "in"}, {"a": "out", "b": "in", "z": "out"}} {
			w := []*qitem{{"x", x}}
			if y != nil {
				w = append(w, &qitem{"y", y})
			}
			out = append(out, w)
		}
	}
	return out
}

func queryCheck(c *Ctx) error {
	q := &query{c: c}
	if err := q.find(); err != nil {
		return err
	}
	fn, err := c.P.Method("internal/datastructures/btree_associated", q.a.tree.Obj().Name(), "QueryAction")
	if err != nil {
		return err
	}
	q.newEngine()
	base := c.fn(fn)
	tree := flow.Root("tree", types.NewPointer(q.a.tree))
	worlds := 0
	run := func(d *qq, items []*qitem, rule string) {
		worlds++
		q.rule = "tree"
		q.items, q.q, q.cmpOf = items, d, map[string]string{}
		st := flow.NewState()
		st.Restrict(tree, flow.NilOf(tree.T), flow.LT|flow.GT)
		q.layout(st)
		var args []*flow.Val
		args = append(args, tree)
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			p := fn.Signature.Params().At(i)
			switch {
			case types.Identical(deref(p.Type()), q.queryT):
				if d == nil {
					args = append(args, flow.NilOf(p.Type()))
				} else {
					args = append(args, q.build(st, d, "q"))
				}
			default:
				q.cb = flow.Root("callback", p.Type())
				st.Restrict(q.cb, flow.NilOf(p.Type()), flow.LT|flow.GT)
				args = append(args, q.cb)
			}
		}
		var its []string
		for _, it := range items {
			its = append(its, it.String())
		}
		if d == nil {
			q.world = "no query at all"
			d = &qq{}
		} else {
			q.world = "query " + d.String()
		}
		q.world += "; stored " + strings.Join(its, " ")
		ex := q.e.Analyze(fn, args, nil, st)
		q.judge(ex, fn, func(it *qitem) bool { return d.describes(it, true) }, rule, true)
	}
	all := itemWorlds()

	// everything
	for _, n := range []string{"empty", "nested"} {
		q.name = base + " (" + n + ")"
		q.ob("all")
		q.ob("total")
		x := []*qitem{{"x", map[string]string{"a": "out"}}, {"y", map[string]string{"b": "in", "z": "out"}}}
		leaf := func(ids ...string) *qq { return &qq{sel: &qsel{ids: ids, min: -1, max: -1}} }
		var qs []*qq
		if n == "empty" {
			qs = []*qq{nil, {}, {empty: true}}
		} else {
			qs = []*qq{{and: []*qq{{}}}, {or: []*qq{{}}}, {and: []*qq{leaf("x"), {}}}, {and: []*qq{{}, leaf("x")}}, {or: []*qq{leaf("x"), {}}}, {sel: leaf("x").sel, and: []*qq{{}}}, {sel: leaf("x").sel, or: []*qq{{}}}, {and: []*qq{{empty: true}, leaf("y")}}}
		}
		for _, d := range qs {
			run(d, x, "all")
		}
	}

	// one selection
	sel := func(min, max int, keys ...string) *qq {
		s := &qsel{min: min, max: max}
		for i, k := range keys {
			s.keys = append(s.keys, qkey{[]string{"a", "b"}[i], k})
		}
		return &qq{sel: s}
	}
	q.name = base + " (number of key values)"
	q.ob("selected")
	for _, items := range all {
		for min := -1; min <= 3; min++ {
			for max := -1; max <= 3; max++ {
				if (min < 0 && max < 0) || max >= 0 && min > max {
					continue
				}
				run(sel(min, max), items, "selected")
			}
		}
	}
	for _, cmp := range []string{"=", "!=", "<", "<=", ">", ">="} {
		q.name = base + " (key " + cmp + " value)"
		q.ob("selected")
		for _, items := range all {
			for _, l := range [][2]int{{-1, -1}, {2, -1}, {-1, 1}, {1, 2}, {2, 2}, {3, -1}} {
				run(sel(l[0], l[1], cmp), items, "selected")
			}
		}
	}
	for _, cmps := range [][2]string{{"=", "="}, {"=", "!="}, {"!=", "="}, {"!=", "!="}, {"<", ">="}, {"<=", ">"}, {">", "="}, {">=", "!="}} {
		q.name = base + " (two keys " + cmps[0] + " " + cmps[1] + ")"
		q.joint = cmps[0] == "!=" && cmps[1] == "!="
		if q.joint {
			q.ob("joined")
		} else {
			q.ob("selected")
		}
		for _, items := range all {
			for _, l := range [][2]int{{-1, -1}, {2, 2}, {-1, 2}, {3, -1}} {
				run(sel(l[0], l[1], cmps[0], cmps[1]), items, "selected")
			}
		}
		q.joint = false
	}
	q.name = base + " (ids)"
	q.ob("selected")
	for _, items := range all {
		for _, ids := range [][]string{{"x"}, {"x", "y"}, {"w", "x"}, {"w"}} {
			for _, d := range []*qq{sel(-1, -1), sel(-1, -1, "="), sel(2, 2, "!="), sel(2, -1), sel(-1, 1)} {
				d.sel.ids = ids
				run(d, items, "selected")
			}
		}
	}

	// combinations
	leaf := func(ids ...string) *qq { return &qq{sel: &qsel{ids: ids, min: -1, max: -1}} }
	two := []*qitem{{"x", map[string]string{"a": "in"}}, {"y", map[string]string{"b": "in"}}}
	leaves := []*qq{leaf("x"), leaf("x", "y"), leaf("w"), leaf("y")}
	var combos []*qq
	var lists [][]*qq
	lists = append(lists, nil)
	for _, l := range leaves {
		lists = append(lists, []*qq{l})
		for _, m := range leaves {
			lists = append(lists, []*qq{l, m})
		}
	}
	for _, s := range []*qq{nil, leaves[0], leaves[1], leaves[2]} {
		for _, and := range lists {
			for _, or := range lists {
				if len(and)+len(or) == 0 || len(and)+len(or) > 3 {
					continue
				}
				d := &qq{and: and, or: or}
				if s != nil {
					d.sel = s.sel
				}
				combos = append(combos, d)
			}
		}
	}
	nested := []*qq{}
	for _, l := range leaves {
		for _, m := range leaves {
			nested = append(nested, &qq{or: []*qq{l, m}}, &qq{and: []*qq{l, m}}, &qq{sel: l.sel, or: []*qq{m}})
		}
	}
	for _, n := range nested {
		combos = append(combos, &qq{and: []*qq{n}}, &qq{or: []*qq{n}}, &qq{sel: leaves[1].sel, and: []*qq{n}}, &qq{sel: leaves[2].sel, or: []*qq{n}}, &qq{and: []*qq{leaves[3], n}}, &qq{and: []*qq{n, leaves[0]}})
	}
	q.name = base + " (And, Or)"
	q.ob("selected")
	q.ob("once")
	q.ob("released")
	q.ob("total")
	for _, d := range combos {
		run(d, two, "selected")
	}

	// items that go meanwhile, callers that stop
	for _, mode := range []string{"stop", "concurrent"} {
		q.name = base + " (" + mode + ")"
		q.ob("once")
		q.ob("released")
		q.stops, q.loose = mode == "stop", mode == "concurrent"
		for _, d := range []*qq{{}, leaf("x", "y"), {or: []*qq{leaf("x"), leaf("y")}}, sel(-1, 2), sel(-1, -1, "!="), sel(-1, -1, "=")} {
			for _, y := range []map[string]string{{"b": "in"}, {"a": "in", "b": "out"}} {
				run(d, []*qitem{{"x", map[string]string{"a": "in"}}, {"y", y}}, "selected")
			}
		}
	}
	q.stops, q.loose = false, false
	q.name = base + " (total)"
	q.ob("total")
	q.ob("comparison")
	q.name = base
	c.Counts["worlds"] += worlds
	c.Done("total", q.e)

	if err := q.matchKeyValues(); err != nil {
		return err
	}
	return q.matchTags(combos)
}

// matchKeyValues: a selection judges key values as the index does.
func (q *query) matchKeyValues() error {
	c := q.c
	fn, err := c.P.Method("pkg/models/api/common/v1/query_associated_action", "Selection", "MatchKeyValues")
	if err != nil {
		return err
	}
	q.newEngine()
	q.rule = "values"
	types3 := []int64{tUint8, tInt, tString, tAny}
	goT := map[int64]types.Type{tUint8: types.Typ[types.Uint8], tInt: types.Typ[types.Int], tString: types.Typ[types.String]}
	ev := func(name string, t int64) *flow.Val {
		d := flow.NilOf(types.NewInterfaceType(nil, nil))
		if t != tAny {
			d = flow.IfaceOf(flow.Root(name, goT[t]), goT[t])
		}
		return q.structVal(q.evT, map[string]*flow.Val{"Type": q.dataType(t), "Data": d})
	}
	// fits: 1 yes, 0 no; rel: relation of the data if both have the same type
	fits := func(cmp string, lo, hi, qt, mt int64, rel int) bool {
		inRange := lo <= mt && mt <= hi
		eq := inRange && (mt == tAny || qt == tAny || mt == qt && rel == flow.EQ)
		switch cmp {
		case "=":
			return eq
		case "!=":
			return !eq
		}
		if !inRange {
			return false
		}
		if mt == tAny {
			return true
		}
		r := rel
		if mt < qt {
			r = flow.LT
		} else if mt > qt {
			r = flow.GT
		}
		return r&map[string]int{"<": flow.LT, "<=": flow.LT | flow.EQ, ">": flow.GT, ">=": flow.GT | flow.EQ}[cmp] != 0
	}
	run := func(keys []qkey, vq []*flow.Val, min, max int, entries []*flow.Val, want func(st *flow.State) (bool, bool)) {
		st := flow.NewState()
		d := &qq{sel: &qsel{min: min, max: max}}
		root := q.build(st, d, "q")
		sel := q.e.LoadField(st, root, fieldByName(q.queryT, "Selection"))
		kvF := fieldByName(q.selT, "KeyValues")
		var en []*flow.Val
		for i, k := range keys {
			en = append(en, flow.Tup(flow.Str(k.name), vq[i]))
		}
		st.Store(flow.FieldAddr(sel, kvF), q.e.NewMap(st, "keys q", kvF.Type(), en...))
		kv := q.e.NewMap(st, "given", q.kvT, entries...)
		for _, x := range q.e.Analyze(fn, []*flow.Val{sel, kv}, nil, st) {
			if x.Panic {
				q.fail("total", x.St, x.Pos, "the process stops")
				continue
			}
			w, ok := want(x.St)
			t := x.St.Truth(x.Res[0])
			if !ok || t < 0 {
				q.fail("values", x.St, x.Pos, "undecided: the outcome does not follow from the comparison of the values")
				continue
			}
			if w != (t == 1) {
				q.fail("values", x.St, x.Pos, "key values match: %v, but by the query they should: %v", t == 1, w)
			}
		}
	}
	base := c.fn(fn)
	for _, cmp := range []string{"=", "!=", "<", "<=", ">", ">="} {
		for _, r := range [][2]int64{{tUint8, tAny}, {tInt, tInt}, {tInt, tAny}, {tAny, tAny}, {tString, tString}, {tUint8, tString}} {
			q.name = fmt.Sprintf("%s (%s, types %d-%d)", base, cmp, r[0], r[1])
			q.ob("values")
			for _, qt := range types3 {
				if qt == tAny && cmp != "=" && cmp != "!=" {
					continue
				}
				vq := q.structVal(q.vqT, map[string]*flow.Val{"Value": ev("wanted a", qt), "Comparison": q.cmp(cmp), "TypeRestrictions": q.restrictions(r[0], r[1])})
				q.world = fmt.Sprintf("key %s a value of type %d, restricted to types %d to %d; not given", cmp, qt, r[0], r[1])
				run([]qkey{{"a", cmp}}, []*flow.Val{vq}, -1, -1, []*flow.Val{flow.Tup(flow.Str("z"), ev("given z", tInt))}, func(*flow.State) (bool, bool) { return cmp == "!=", true })
				for _, mt := range types3 {
					q.world = fmt.Sprintf("key %s a value of type %d, restricted to types %d to %d; given one of type %d", cmp, qt, r[0], r[1], mt)
					run([]qkey{{"a", cmp}}, []*flow.Val{vq}, -1, -1, []*flow.Val{flow.Tup(flow.Str("a"), ev("given a", mt))}, func(st *flow.State) (bool, bool) {
						first, n := false, 0
						rels := []int{flow.LT, flow.EQ, flow.GT}
						if mt == qt && mt != tAny {
							may := st.Rel(flow.Root("given a", goT[mt]), flow.Root("wanted a", goT[mt]))
							rels = nil
							for _, b := range []int{flow.LT, flow.EQ, flow.GT} {
								if may&b != 0 {
									rels = append(rels, b)
								}
							}
						}
						for _, b := range rels {
							w := fits(cmp, r[0], r[1], qt, mt, b)
							if n > 0 && w != first {
								return false, false
							}
							first, n = w, n+1
						}
						return first, n > 0
					})
				}
			}
		}
	}
	// several keys, and the number of key values
	q.name = base + " (several keys)"
	q.ob("values")
	for _, c1 := range []string{"=", "!=", "<", ">="} {
		for _, c2 := range []string{"=", "!=", "<=", ">"} {
			vq := []*flow.Val{}
			for i, cmp := range []string{c1, c2} {
				vq = append(vq, q.structVal(q.vqT, map[string]*flow.Val{"Value": ev("wanted "+[]string{"a", "b"}[i], tInt), "Comparison": q.cmp(cmp), "TypeRestrictions": q.restrictions(tInt, tInt)}))
			}
			for mask := 0; mask < 4; mask++ {
				entries := []*flow.Val{flow.Tup(flow.Str("z"), ev("given z", tInt))}
				for i, k := range []string{"a", "b"} {
					if mask&(1<<i) != 0 {
						entries = append(entries, flow.Tup(flow.Str(k), ev("given "+k, tInt)))
					}
				}
				q.world = fmt.Sprintf("a %s and b %s, given %d", c1, c2, mask)
				run([]qkey{{"a", c1}, {"b", c2}}, vq, -1, -1, entries, func(st *flow.State) (bool, bool) {
					all, known := true, true
					for i, k := range []string{"a", "b"} {
						cmp := []string{c1, c2}[i]
						if mask&(1<<i) == 0 {
							if cmp != "!=" {
								return false, true
							}
							continue
						}
						may := st.Rel(flow.Root("given "+k, goT[tInt]), flow.Root("wanted "+k, goT[tInt]))
						yes, no := false, false
						for _, b := range []int{flow.LT, flow.EQ, flow.GT} {
							if may&b != 0 {
								if fits(cmp, tInt, tInt, tInt, tInt, b) {
									yes = true
								} else {
									no = true
								}
							}
						}
						if !yes {
							return false, true
						}
						if no {
							known = false
						}
						all = all && yes
					}
					return all, known
				})
			}
		}
	}
	q.name = base + " (number of key values)"
	q.ob("values")
	for n := 0; n <= 3; n++ {
		var entries []*flow.Val
		for i := 0; i < n; i++ {
			entries = append(entries, flow.Tup(flow.Str([]string{"a", "b", "z"}[i]), ev("given", tInt)))
		}
		for min := -1; min <= 3; min++ {
			for max := -1; max <= 3; max++ {
				q.world = fmt.Sprintf("%d key values, at least %d, at most %d", n, min, max)
				run(nil, nil, min, max, entries, func(*flow.State) (bool, bool) { return (min < 0 || n >= min) && (max < 0 || n <= max), true })
			}
		}
	}
	c.Done("values", q.e)
	return nil
}

// matchTags: a combined query judges key values as it judges stored items.
func (q *query) matchTags(combos []*qq) error {
	c := q.c
	fn, err := c.P.Method("pkg/models/api/common/v1/query_associated_action", "AssociatedActionQuery", "MatchTags")
	if err != nil {
		return err
	}
	q.newEngine()
	q.rule, q.items = "combined", nil
	base := c.fn(fn)
	run := func(d *qq) {
		st := flow.NewState()
		q.cmpOf = nil
		var root *flow.Val
		if d == nil {
			root = flow.NilOf(types.NewPointer(q.queryT))
			q.world = "no query at all"
			d = &qq{}
		} else {
			root = q.build(st, d, "q")
			q.world = "query " + d.String()
		}
		it := &qitem{id: "x", keys: map[string]string{"a": "in"}}
		kv := q.e.NewMap(st, "given", q.kvT, flow.Tup(flow.Str("a"), flow.Root("given a", q.evT)))
		w := d.describes(it, false)
		for _, x := range q.e.Analyze(fn, []*flow.Val{root, kv}, nil, st) {
			if x.Panic {
				q.fail("total", x.St, x.Pos, "the process stops")
				continue
			}
			if t := x.St.Truth(x.Res[0]); t < 0 || (t == 1) != w {
				q.fail("combined", x.St, x.Pos, "key values match: %v, but by the query they should: %v", t == 1, w)
			}
		}
	}
	// by how many key values there are, a part matches or not
	var conv func(d *qq) *qq
	conv = func(d *qq) *qq {
		n := &qq{empty: d.empty}
		if d.sel != nil {
			n.sel = &qsel{min: 5, max: -1}
			for _, i := range d.sel.ids {
				if i == "x" {
					n.sel.min = 0
				}
			}
		}
		for _, a := range d.and {
			n.and = append(n.and, conv(a))
		}
		for _, o := range d.or {
			n.or = append(n.or, conv(o))
		}
		return n
	}
	for _, part := range []string{"nothing", "selection and And", "Or only", "nested"} {
		q.name = base + " (" + part + ")"
		q.ob("combined")
	}
	q.name = base + " (nothing)"
	for _, d := range []*qq{nil, {}, {empty: true}, {and: []*qq{{}}}, {or: []*qq{{}}}} {
		run(d)
	}
	seen := map[string]bool{}
	for _, d := range combos {
		n := conv(d)
		if seen[n.String()] {
			continue
		}
		seen[n.String()] = true
		switch {
		case n.sel == nil && len(n.and) == 0:
			q.name = base + " (Or only)"
		case len(n.and) > 0 && len(n.and[0].and)+len(n.and[0].or) > 0:
			q.name = base + " (nested)"
		default:
			q.name = base + " (selection and And)"
		}
		run(n)
	}
	c.Done("combined", q.e)
	return nil
}

func matchCheck(c *Ctx) error {
	q := &query{c: c}
	if err := q.find(); err != nil {
		return err
	}
	fn, err := c.P.Method("internal/datastructures/btree_associated", q.a.tree.Obj().Name(), "MatchAction")
	if err != nil {
		return err
	}
	q.newEngine()
	base := c.fn(fn)
	tree := flow.Root("tree", types.NewPointer(q.a.tree))
	worlds := 0
	run := func(keys []string, min, max int, items []*qitem) {
		worlds++
		q.items, q.cmpOf = items, map[string]string{}
		st := flow.NewState()
		st.Restrict(tree, flow.NilOf(tree.T), flow.LT|flow.GT)
		q.layout(st)
		args := []*flow.Val{tree}
		given := map[string]bool{}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			p := fn.Signature.Params().At(i)
			if !types.Identical(deref(p.Type()), q.matchT) {
				q.cb = flow.Root("callback", p.Type())
				st.Restrict(q.cb, flow.NilOf(p.Type()), flow.LT|flow.GT)
				args = append(args, q.cb)
				continue
			}
			m := flow.Root("match", p.Type())
			st.Restrict(m, flow.NilOf(p.Type()), flow.LT|flow.GT)
			var en []*flow.Val
			for _, k := range keys {
				given[k] = true
				q.cmpOf[k] = "="
				en = append(en, flow.Tup(flow.Str(k), q.structVal(q.mvT, map[string]*flow.Val{"Value": flow.Root("value "+k, q.evT), "TypeRestrictions": flow.Root("restrictions "+k, q.trT)})))
			}
			kvF := fieldByName(q.matchT, "KeyValues")
			st.Store(flow.FieldAddr(m, kvF), q.e.NewMap(st, "keys", kvF.Type(), en...))
			for n, lim := range map[string]int{"MinNumberOfPermutationKeyValues": min, "MaxNumberOfPermutationKeyValues": max} {
				f := fieldByName(q.matchT, n)
				st.Store(flow.FieldAddr(m, f), q.limit(st, n, lim, f.Type()))
			}
			args = append(args, m)
		}
		var its []string
		for _, it := range items {
			its = append(its, it.String())
		}
		q.world = fmt.Sprintf("match of %s, at least %d, at most %d; stored %s", strings.Join(keys, ","), min, max, strings.Join(its, " "))
		want := func(it *qitem) bool {
			for k, side := range it.keys {
				if !given[k] || side != "in" {
					return false
				}
			}
			return (min < 0 || len(it.keys) >= min) && (max < 0 || len(it.keys) <= max)
		}
		q.judge(q.e.Analyze(fn, args, nil, st), fn, want, "selected", len(keys) > 0 && !(max >= 0 && min > max))
	}
	var xs []map[string]string
	for _, a := range []string{"", "in", "out"} {
		for _, b := range []string{"", "in", "out"} {
			for _, z := range []string{"", "in", "out"} {
				m := map[string]string{}
				for k, v := range map[string]string{"a": a, "b": b, "z": z} {
					if v != "" {
						m[k] = v
					}
				}
				if len(m) > 0 {
					xs = append(xs, m)
				}
			}
		}
	}
	limits := [][2]int{{-1, -1}, {1, -1}, {2, -1}, {3, -1}, {-1, 1}, {-1, 2}, {1, 2}, {2, 2}, {2, 3}, {-1, 0}, {0, -1}}
	for _, keys := range [][]string{{"a"}, {"a", "b"}, {"a", "b", "z"}} {
		q.name = fmt.Sprintf("%s (%d keys)", base, len(keys))
		q.ob("selected")
		q.ob("once")
		q.ob("released")
		q.ob("comparison")
		for _, x := range xs {
			for _, y := range []map[string]string{nil, {"a": "in"}, {"a": "in", "b": "in"}, {"b": "in", "z": "in"}, {"a": "out", "b": "in"}} {
				items := []*qitem{{"x", x}}
				if y != nil {
					items = append(items, &qitem{"y", y})
				}
				for i, l := range limits {
					if len(keys) == 3 && y != nil && !c.Thorough && i%3 != 0 {
						continue
					}
					run(keys, l[0], l[1], items)
				}
			}
		}
	}
	q.name = base + " (limits)"
	q.ob("total")
	run([]string{"a"}, 3, 1, []*qitem{{"x", map[string]string{"a": "in"}}})
	run(nil, -1, -1, []*qitem{{"x", map[string]string{"a": "in"}}})
	for _, mode := range []string{"stop", "concurrent"} {
		q.name = base + " (" + mode + ")"
		q.ob("total")
		q.stops, q.loose = mode == "stop", mode == "concurrent"
		for _, y := range []map[string]string{{"a": "in"}, {"b": "in"}, {"a": "in", "b": "in"}} {
			for _, x := range []map[string]string{{"a": "in"}, {"b": "in"}, {"a": "in", "b": "in"}} {
				run([]string{"a", "b"}, -1, -1, []*qitem{{"x", x}, {"y", y}})
			}
		}
	}
	c.Counts["worlds"] += worlds
	c.Done("total", q.e)
	return nil
}
