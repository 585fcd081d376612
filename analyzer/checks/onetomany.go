package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

// D09: the one-to-many tree is a tree of relations, each with an indexed tree of its own. Each operation is analysed
// on its own against the documented meaning of the two trees it is made of.

func init() {
	register("D09", "Relations are kept apart and their items handed over as they are", oneToMany)
}

type o2m struct {
	c    *Ctx
	e    *flow.Engine
	pkg  string
	op   string
	name string

	one, kv, id *flow.Val // what the operation is about
	other       *flow.Val // query or match
	made        *flow.Val // what the caller's create callback returns
	ikv, aid    *flow.Val // key values and id of an item of the indexed tree
	node        *flow.Val // what is stored for a relation
	stored      *flow.Val // what is stored for an item
	fields      map[*types.Var]*flow.Val
	storedT     types.Type
	cbs         []*flow.Val
	args        map[string]*flow.Val
}

func (o *o2m) fail(rule string, st *flow.State, pos token.Pos, f string, v ...any) {
	o.c.Fail(rule, o.name, o.c.P.Pos(pos), fmt.Sprintf(f, v...), o.e.Witness(st.Tr, 14)...)
}

func oneToMany(c *Ctx) error {
	c.Rule("keyed", "an operation of the one-to-many tree works on the indexed tree stored under the relation it names, and on no other", 6)
	c.Rule("same", "it does the same operation there, for the same key values, id, query or match", 6)
	c.Rule("item", "what is handed to the caller has the value, relation, id and key values the item was created with, at every moment it can be found", 6)
	c.Rule("verdict", "what the caller's callback answers is what the indexed tree is told; without a callback items are removed", 3)
	c.Rule("published", "an item that others can find is no longer written", 1)
	c.Rule("result", "success is reported if and only if the operation was carried out; a relation or item that is being destroyed is reported as such", 6)
	c.Rule("refused", "missing names, callbacks and invalid key values or queries are refused", 6)
	c.Rule("total", "no operation stops the process", 6)
	o := &o2m{c: c}
	var t *types.Named
	for _, p := range c.P.Pkgs {
		if strings.HasSuffix(p.PkgPath, pkgO2M) {
			o.pkg = p.PkgPath
		}
	}
	t, err := c.P.Named(strings.TrimPrefix(o.pkg, "github.com/DanLavine/willow/"), "BTreeOneToMany")
	if err != nil {
		return err
	}
	impls := c.P.Implementers(t.Underlying().(*types.Interface))
	if len(impls) == 0 {
		return fmt.Errorf("nothing implements %s", t)
	}
	for _, im := range impls {
		ms := types.NewMethodSet(types.NewPointer(deref(im)))
		it := t.Underlying().(*types.Interface)
		// the creation first: it tells how an item is stored
		var fns []*ssa.Function
		for i := 0; i < it.NumMethods(); i++ {
			sel := ms.Lookup(it.Method(i).Pkg(), it.Method(i).Name())
			if sel == nil {
				continue
			}
			fn := c.P.SSA.MethodValue(sel)
			if fn == nil || len(fn.Blocks) == 0 {
				continue
			}
			if it.Method(i).Name() == "CreateOrFind" {
				fns = append([]*ssa.Function{fn}, fns...)
			} else {
				fns = append(fns, fn)
			}
		}
		if len(fns) == 0 || strings.Contains(deref(im).String(), "fakes") {
			continue
		}
		for _, fn := range fns {
			o.method(fn)
			if fn.Name() == "CreateOrFind" {
				// once more, now that it is known what is found
				o.method(fn)
			}
		}
	}
	return nil
}

func (o *o2m) global(st *flow.State, pkg, name string) *flow.Val {
	for _, p := range o.c.P.SSA.AllPackages() {
		if strings.HasSuffix(p.Pkg.Path(), pkg) {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				at := func(g *ssa.Global) *flow.Val {
					return o.e.LoadAt(st, flow.Root("global "+g.String(), g.Type()), errType())
				}
				v := at(g)
				st.Restrict(v, nilErr(), flow.LT|flow.GT)
				// the package's errors are different ones
				for n, m := range p.Members {
					if h, ok := m.(*ssa.Global); ok && n != name && types.Identical(deref(h.Type()), errType()) {
						st.Restrict(v, at(h), flow.LT|flow.GT)
					}
				}
				return v
			}
		}
	}
	return nil
}

func (o *o2m) method(fn *ssa.Function) {
	c := o.c
	o.name = c.fn(fn)
	o.op = fn.Name()
	h := &flow.Hooks{}
	e := c.Engine(h)
	e.Maps, e.Unroll = true, 4
	e.MaxStates = 20000
	o.e = e
	anyT := types.NewInterfaceType(nil, nil)
	str := types.Typ[types.String]
	st := flow.NewState()
	o.one = flow.Root("the relation", str)
	o.aid = flow.Root("the id of the stored item", str)
	o.node = flow.Root("what is stored for the relation", anyT)
	o.made = flow.Root("what the caller made", anyT)
	o.id, o.kv, o.other, o.ikv = nil, nil, nil, nil
	o.cbs = nil
	o.args = map[string]*flow.Val{}
	for _, v := range []*flow.Val{o.made, o.node} {
		st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
	}
	mkKV := func(name string, t types.Type) *flow.Val {
		return e.NewMap(st, name, t, flow.Tup(flow.Str("a"), flow.Root("value of a", nil)), flow.Tup(flow.Str("b"), flow.Root("value of b", nil)))
	}
	args := []*flow.Val{flow.Root("tree", fn.Signature.Recv().Type())}
	st.Restrict(args[0], flow.NilOf(args[0].T), flow.LT|flow.GT)
	strs := 0
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		p := fn.Signature.Params().At(i)
		v := flow.Root("arg "+p.Name(), p.Type())
		switch {
		case isKeyValues(p.Type()):
			v = mkKV("the key values", p.Type())
			o.kv = v
		case types.Identical(p.Type(), str):
			if strs == 0 {
				v = o.one
			} else {
				v = o.id
				if v == nil {
					v = flow.Root("the id asked for", str)
					o.id = v
				}
			}
			strs++
		case sigOf(v) != nil:
			o.cbs = append(o.cbs, v)
		default:
			o.other = v
			st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
		}
		args = append(args, v)
	}
	o.ikv = mkKV("the item's key values", o.kvType())
	if o.storedT != nil && o.op != "CreateOrFind" || o.op == "CreateOrFind" && o.fields != nil {
		o.stored = flow.Root("what is stored for the item", o.storedT)
		st.Restrict(o.stored, flow.NilOf(o.storedT), flow.LT|flow.GT)
		for f, v := range o.fields {
			st.Store(flow.FieldAddr(o.stored, f), v)
		}
	} else {
		o.stored = nil
	}
	h.Call = o.call
	h.Store = func(e *flow.Engine, st *flow.State, addr, val *flow.Val, in ssa.Instruction) {
		p := st.MonV["published"]
		if p == nil {
			return
		}
		k := flow.Strip(p).Key()
		if flow.Contains(addr, func(x *flow.Val) bool { return x.Key() == k }) {
			o.fail("published", st, in.Pos(), "the item is written after it was stored, when others can already find it")
		}
	}
	for _, r := range []string{"keyed", "same", "item", "result", "refused", "total"} {
		c.Ob(r, o.name)
	}
	for _, x := range e.Analyze(fn, args, nil, st) {
		o.exit(x)
	}
	c.Done("total", e)
}

func (o *o2m) kvType() types.Type {
	for _, p := range o.c.P.Pkgs {
		if strings.HasSuffix(p.PkgPath, "/models/datatypes") {
			if t := p.Types.Scope().Lookup("KeyValues"); t != nil {
				return t.Type()
			}
		}
	}
	return types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
}

func (o *o2m) call(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
	one := func(s *flow.State, v ...*flow.Val) flow.Exit { return flow.Exit{St: s, Res: v, Pos: ci.Pos} }
	if kind, op, tree, args := treeKind(ci); kind != "" {
		if kind == "btree" {
			return o.outer(st, ci, op, tree, args), true
		}
		if kind == "assoc" {
			return o.inner(st, ci, op, tree, args), true
		}
	}
	if ci.FnVal != nil {
		for _, cb := range o.cbs {
			if cb.Key() == ci.FnVal.Key() {
				return o.callback(st, ci, cb), true
			}
		}
	}
	m := callee(ci)
	if m == nil {
		return nil, false
	}
	sig := m.Type().(*types.Signature)
	if m.Name() == "Validate" && sig.Recv() != nil && sig.Results().Len() == 1 {
		recv, _ := argsOf(ci)
		if recv != nil && (o.kv != nil && recv.Key() == o.kv.Key() || o.other != nil && recv.Key() == o.other.Key()) {
			bad := st.Clone()
			bad.Set("invalid", 1)
			bad.Note(ci.Pos, "the key values or query are not valid")
			st.Set("valid", 1)
			return []flow.Exit{one(st, flow.NilOf(sig.Results().At(0).Type())), one(bad, freshErrOf(e, bad, ci.Instr, sig.Results().At(0).Type()))}, true
		}
		return nil, false
	}
	if strings.HasSuffix(pkgPathOf(m), pkgAssoc) {
		if sig.Recv() == nil && sig.Results().Len() == 1 && sig.Params().Len() == 0 {
			v := e.Fresh(st, ci.Instr, "an empty indexed tree", sig.Results().At(0).Type())
			st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
			return []flow.Exit{one(st, v)}, true
		}
		if sig.Recv() != nil && recvTypeName(m) == "AssociatedKeyValues" {
			switch m.Name() {
			case "Value":
				if o.stored == nil {
					return []flow.Exit{one(st, flow.Root("the stored item", sig.Results().At(0).Type()))}, true
				}
				return []flow.Exit{one(st, flow.IfaceOf(o.stored, o.storedT))}, true
			case "AssociatedID":
				return []flow.Exit{one(st, o.aid)}, true
			case "KeyValues":
				return []flow.Exit{one(st, o.ikv)}, true
			}
		}
	}
	return nil, false
}

func freshErrOf(e *flow.Engine, st *flow.State, in ssa.Instruction, t types.Type) *flow.Val {
	v := e.Fresh(st, in, "invalid", t)
	st.Restrict(v, flow.NilOf(t), flow.LT|flow.GT)
	return v
}

// outer: an operation on the tree of relations
func (o *o2m) outer(st *flow.State, ci *flow.CallInfo, op string, tree *flow.Val, args []*flow.Val) []flow.Exit {
	fail := func(rule, f string, v ...any) { o.fail(rule, st, ci.Pos, f, v...) }
	if len(args) == 0 {
		return o.e.Unknown(st, ci)
	}
	o.refused(st, ci.Pos)
	key := args[0]
	if !flow.Contains(key, func(x *flow.Val) bool { return x.Key() == o.one.Key() }) {
		fail("keyed", "a relation is looked up by something else than its name: %s", key)
	}
	if st.Mon["outer"] > 0 {
		fail("keyed", "a relation is looked up twice: it can be another one the second time")
	}
	st.Inc("outer", 1)
	var out []flow.Exit
	ret := func(s *flow.State, v *flow.Val) {
		out = append(out, flow.Exit{St: s, Res: []*flow.Val{v}, Pos: ci.Pos})
	}
	busy := st.Clone()
	if err := o.global(busy, pkgBtree, "ErrorKeyDestroying"); err != nil {
		busy.Set("busy-one", 1)
		busy.Note(ci.Pos, "the relation is being destroyed")
		ret(busy, err)
	}
	run := func(s *flow.State, cb *flow.Val, a ...*flow.Val) []flow.Exit {
		var r []flow.Exit
		for _, x := range o.e.CallValue(s, cb, a, ci.Instr) {
			if x.Panic {
				out = append(out, x)
			} else {
				r = append(r, x)
			}
		}
		return r
	}
	absent := func() *flow.State {
		s := st.Clone()
		s.Set("absent", 1)
		s.Note(ci.Pos, "there is no such relation")
		return s
	}
	found := func() *flow.State {
		s := st.Clone()
		s.Set("relation", 1)
		s.Note(ci.Pos, "the relation exists")
		return s
	}
	keyV := flow.Root("the relation's key", nil)
	switch op {
	case "Find":
		ret(absent(), nilErr())
		if len(args) == 3 {
			for _, b := range []string{"MinDataType", "MaxDataType"} {
				n, ok := intOf(fieldVal(o.e, st, args[1], b))
				if !ok || n != tString {
					fail("keyed", "a relation is looked up with type restrictions that do not name it alone")
				}
			}
			for _, x := range run(found(), args[2], keyV, o.node) {
				ret(x.St, nilErr())
			}
		}
	case "CreateOrFind":
		s := absent()
		for _, x := range run(s, args[1]) {
			v := x.Res[0]
			o.own(x.St, v, ci.Pos)
			ret(x.St, nilErr())
		}
		for _, x := range run(found(), args[2], o.node) {
			ret(x.St, nilErr())
		}
	case "Destroy", "Delete":
		ret(absent(), nilErr())
		for _, x := range run(found(), args[1], keyV, o.node) {
			for _, gone := range []bool{true, false} {
				for _, s := range x.St.Clone().Assume(x.Res[0], gone) {
					if gone && s.Mon["kept"] > 0 {
						o.fail("verdict", s, ci.Pos, "the relation is removed although one of its items was to be kept")
					}
					if !gone && s.Mon["kept"] == 0 && o.op == "DestroyOne" {
						o.fail("verdict", s, ci.Pos, "the relation is kept although all its items were removed")
					}
					if gone && (s.Mon["inner"] == 0 || o.op != "DestroyOne") {
						o.fail("same", s, ci.Pos, "the relation is removed without its items having been destroyed")
					}
					ret(s, nilErr())
				}
			}
		}
	default:
		fail("same", "undecided: %s is not expected on the tree of relations", op)
		return o.e.Unknown(st, ci)
	}
	return out
}

// own: the tree an operation works on is the one that is stored for the relation
func (o *o2m) own(st *flow.State, v *flow.Val, pos token.Pos) {
	tr := st.MonV["tree"]
	if st.IsNil(v) == 1 || tr == nil {
		if tr != nil {
			o.fail("keyed", st, pos, "an item is created in an indexed tree that is not stored")
		}
		return
	}
	if s := structOf(deref(flow.Strip(v).T)); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if flow.Strip(o.e.LoadField(st, flow.Strip(v), s.Field(i))).Key() == flow.Strip(tr).Key() {
				return
			}
		}
	}
	if flow.Strip(v).Key() == flow.Strip(tr).Key() {
		return
	}
	o.fail("keyed", st, pos, "the item of a new relation is created in another indexed tree than the one stored for it")
}

func (o *o2m) refused(st *flow.State, pos token.Pos) {
	if st.Rel(o.one, flow.Str(""))&flow.EQ != 0 {
		o.fail("refused", st, pos, "the operation goes on without the name of a relation")
	}
	if st.Mon["invalid"] > 0 {
		o.fail("refused", st, pos, "the operation goes on although its key values or query were found invalid")
	}
	if (o.kv != nil || o.other != nil) && st.Mon["valid"] == 0 {
		o.fail("refused", st, pos, "the operation goes on without its key values or query having been validated")
	}
	if o.id != nil && st.Rel(o.id, flow.Str(""))&flow.EQ != 0 {
		o.fail("refused", st, pos, "the operation goes on without an id")
	}
	if o.op == "CreateOrFind" || o.op == "QueryAction" || o.op == "MatchAction" {
		for _, cb := range o.cbs {
			if st.IsNil(cb) != 0 {
				o.fail("refused", st, pos, "the operation goes on without a callback")
			}
		}
	}
}

// inner: an operation on an indexed tree
func (o *o2m) inner(st *flow.State, ci *flow.CallInfo, op string, tree *flow.Val, args []*flow.Val) []flow.Exit {
	fail := func(rule, f string, v ...any) { o.fail(rule, st, ci.Pos, f, v...) }
	want := map[string]string{"CreateOrFind": "CreateOrFind", "QueryAction": "QueryAction", "MatchAction": "MatchAction", "DestroyOne": "DestroyTree", "DestroyOneOfManyByID": "DestroyByAssociatedID", "DeleteOneOfManyByKeyValues": "Delete"}[o.op]
	if op != want {
		fail("same", "%s does %s on the relation's items", o.op, op)
		return o.e.Unknown(st, ci)
	}
	if st.Mon["inner"] > 0 {
		fail("same", "the relation's items are gone through twice")
	}
	st.Set("inner", 1)
	st.MonV["tree"] = tree
	if st.Mon["relation"] > 0 && !flow.Contains(tree, func(x *flow.Val) bool { return x.Key() == o.node.Key() }) {
		fail("keyed", "the items of something else than the relation found are used: %s", tree)
	}
	if len(args) == 2 {
		w := o.other
		if o.kv != nil {
			w = o.kv
		}
		if o.id != nil {
			w = o.id
		}
		if o.op != "CreateOrFind" && w != nil && args[0].Key() != w.Key() {
			fail("same", "the relation's items are asked for something else than the caller named: %s", args[0])
		}
	}
	if o.op == "CreateOrFind" && args[0].Key() != o.kv.Key() {
		fail("same", "the item is created with other key values than the caller gave: %s", args[0])
	}
	nres := ci.Res.Len()
	var out []flow.Exit
	ret := func(s *flow.State, id, err *flow.Val) {
		if nres == 2 {
			out = append(out, flow.Exit{St: s, Res: []*flow.Val{id, err}, Pos: ci.Pos})
		} else {
			out = append(out, flow.Exit{St: s, Res: []*flow.Val{err}, Pos: ci.Pos})
		}
	}
	item := o.e.Fresh(st, ci.Instr, "item", o.itemType())
	st.Restrict(item, flow.NilOf(item.T), flow.LT|flow.GT)
	run := func(s *flow.State, cb *flow.Val, a ...*flow.Val) []flow.Exit {
		var r []flow.Exit
		for _, x := range o.e.CallValue(s, cb, a, ci.Instr) {
			if x.Panic {
				out = append(out, x)
			} else {
				r = append(r, x)
			}
		}
		return r
	}
	busy := func() {
		s := st.Clone()
		if err := o.global(s, pkgAssoc, "ErrorTreeItemDestroying"); err != nil {
			s.Set("busy-many", 1)
			s.Note(ci.Pos, "the item is being destroyed")
			ret(s, flow.Str(""), err)
		}
	}
	cb := args[len(args)-1]
	switch op {
	case "CreateOrFind":
		if st.Mon["relation"] > 0 {
			busy()
		}
		for _, x := range run(st.Clone(), args[1]) {
			v := x.Res[0]
			s := x.St
			switch {
			case s.Mon["declined"] > 0:
				if s.IsNil(v) != 1 {
					o.fail("item", s, ci.Pos, "an item is stored although the caller made none")
				}
				ret(s, flow.Root("an unused id", types.Typ[types.String]), nilErr())
			case s.Mon["made"] == 0 || s.IsNil(v) != 0:
				o.fail("item", s, ci.Pos, "the item the caller made is not stored")
			default:
				s.Set("created", 1)
				s.MonV["published"] = v
				o.learn(s, v, ci.Pos)
				o.c.Ob("published", o.name)
				ret(s, o.aid, nilErr())
			}
		}
		if st.Mon["relation"] > 0 {
			s := st.Clone()
			s.Set("met", 1)
			s.Note(ci.Pos, "the item exists")
			for _, x := range run(s, args[2], item) {
				ret(x.St, o.aid, nilErr())
			}
		}
	case "QueryAction", "MatchAction":
		ret(st.Clone(), nil, nilErr())
		for _, x := range run(st.Clone(), cb, item) {
			o.told(x, ci.Pos)
			ret(x.St, nil, nilErr())
		}
	case "Delete", "DestroyByAssociatedID":
		busy()
		fallthrough
	case "DestroyTree":
		s := st.Clone()
		s.Set("no-item", 1)
		ret(s, nil, nilErr())
		if st.IsNil(cb) == 1 {
			fail("verdict", "the caller's callback is not asked")
			return out
		}
		rounds := 1
		if op == "DestroyTree" {
			rounds = 2
		}
		wl := []*flow.State{st.Clone()}
		o.c.Ob("verdict", o.name)
		for ; rounds > 0; rounds-- {
			var next []*flow.State
			for _, s := range wl {
				for _, x := range run(s, cb, item) {
					for _, y := range []bool{true, false} {
						for _, s := range x.St.Clone().Assume(x.Res[0], y) {
							asked := len(o.cbs) > 0 && s.IsNil(o.cbs[0]) != 1
							switch {
							case !asked && !y:
								o.fail("verdict", s, ci.Pos, "an item is kept although there is no callback to say so")
							case asked && s.Mon["asked"] == 0:
								o.fail("verdict", s, ci.Pos, "an item is decided about without asking the caller")
							case asked && y != (s.Mon["answer"] > 0):
								o.fail("verdict", s, ci.Pos, "the indexed tree is told something else than the caller answered")
							}
							if y {
								s.Set("asked", 0)
								next = append(next, s)
							} else {
								s.Set("kept", 1)
							}
							ret(s.Clone(), nil, nilErr())
						}
					}
				}
			}
			wl = next
		}
	default:
		return o.e.Unknown(st, ci)
	}
	return out
}

func (o *o2m) told(x flow.Exit, pos token.Pos) {
	for _, y := range []bool{true, false} {
		for _, s := range x.St.Clone().Assume(x.Res[0], y) {
			if s.Mon["asked"] == 0 {
				o.fail("item", s, pos, "an item that was found is not handed to the caller")
			} else if y != (s.Mon["answer"] > 0) {
				o.fail("verdict", s, pos, "the indexed tree is told something else than the caller answered")
			}
		}
	}
}

func (o *o2m) itemType() types.Type {
	for _, p := range o.c.P.Pkgs {
		if strings.HasSuffix(p.PkgPath, pkgAssoc) {
			if t := p.Types.Scope().Lookup("AssociatedKeyValues"); t != nil {
				return t.Type()
			}
		}
	}
	return types.NewInterfaceType(nil, nil)
}

// learn how an item is stored, at the moment it can be found
func (o *o2m) learn(st *flow.State, v *flow.Val, pos token.Pos) {
	v = flow.Strip(v)
	o.storedT = v.T
	o.fields = map[*types.Var]*flow.Val{}
	if s := structOf(deref(v.T)); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			x := o.e.LoadField(st, v, s.Field(i))
			if isKeyValues(s.Field(i).Type()) && o.sameEntries(st, x, o.kv) {
				x = o.ikv
			}
			o.fields[s.Field(i)] = x
		}
	}
}

// callback: the caller's own function is called
func (o *o2m) callback(st *flow.State, ci *flow.CallInfo, cb *flow.Val) []flow.Exit {
	var out []flow.Exit
	if st.IsNil(cb) != 0 && st.IsNil(cb) == 1 {
		return []flow.Exit{{St: st, Panic: true, Pos: ci.Pos}}
	}
	if len(ci.Args) == 0 { // create
		if st.Mon["made"]+st.Mon["declined"] > 0 {
			o.fail("item", st, ci.Pos, "the caller is asked twice to make the item")
		}
		no := st.Clone()
		no.Set("declined", 1)
		no.Note(ci.Pos, "the caller makes no item")
		st.Set("made", 1)
		return []flow.Exit{{St: st, Res: []*flow.Val{o.made}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{flow.NilOf(o.made.T)}, Pos: ci.Pos}}
	}
	if o.stored != nil {
		o.inspect(st, ci, ci.Args[0])
	}
	if st.Mon["asked"] > 0 {
		o.fail("item", st, ci.Pos, "an item is handed over twice")
	}
	st.Set("asked", 1)
	if ci.Res == nil || ci.Res.Len() == 0 {
		return []flow.Exit{{St: st, Pos: ci.Pos}}
	}
	for _, b := range []bool{true, false} {
		s := st.Clone()
		n := 0
		if b {
			n = 1
		}
		s.Set("answer", n)
		s.Note(ci.Pos, "the caller answers %v", b)
		out = append(out, flow.Exit{St: s, Res: []*flow.Val{flow.Bool(b)}, Pos: ci.Pos})
	}
	return out
}

// inspect asks the item that is handed over about itself
func (o *o2m) inspect(st *flow.State, ci *flow.CallInfo, arg *flow.Val) {
	it := flow.Strip(arg)
	if st.IsNil(arg) == 1 || it.T == nil {
		o.fail("item", st, ci.Pos, "the caller is handed nothing")
		return
	}
	get := func(m string) []flow.Exit {
		sel := types.NewMethodSet(it.T).Lookup(nil, m)
		if sel == nil {
			return nil
		}
		fn := o.c.P.SSA.MethodValue(sel)
		if fn == nil {
			return nil
		}
		s := st.Clone()
		return o.e.Call(s, &flow.CallInfo{Instr: ci.Instr, Pos: ci.Pos, Fn: fn, Args: []*flow.Val{it}, Res: fn.Signature.Results(), Caller: ci.Caller})
	}
	check := func(m, what string, ok func(x flow.Exit) bool) {
		ex := get(m)
		if len(ex) == 0 {
			o.fail("item", st, ci.Pos, "undecided: the item handed over is not understood: %s", it)
			return
		}
		for _, x := range ex {
			if x.Panic || len(x.Res) != 1 || !ok(x) {
				o.fail("item", x.St, ci.Pos, "the item handed over does not have %s", what)
				return
			}
		}
	}
	check("Value", "the value the caller made", func(x flow.Exit) bool { return flow.Strip(x.Res[0]).Key() == flow.Strip(o.made).Key() })
	check("OneID", "the name of its relation", func(x flow.Exit) bool { return x.Res[0].Key() == o.one.Key() })
	check("ManyID", "its id", func(x flow.Exit) bool { return x.Res[0].Key() == o.aid.Key() })
	check("ManyKeyValues", "its key values", func(x flow.Exit) bool {
		return o.sameEntries(x.St, x.Res[0], o.ikv)
	})
}

func (o *o2m) sameEntries(st *flow.State, v, w *flow.Val) bool {
	a, ok := o.e.Entries(st, v)
	b, ok2 := o.e.Entries(st, w)
	if !ok || !ok2 || len(a) != len(b) {
		return false
	}
	seen := map[string]bool{}
	for _, v := range b {
		seen[v.Key()] = true
	}
	for _, v := range a {
		if !seen[v.Key()] {
			return false
		}
	}
	return true
}

func (o *o2m) exit(x flow.Exit) {
	st := x.St
	if x.Panic {
		o.fail("total", st, x.Pos, "the process stops")
		return
	}
	bad := func(rule, f string, v ...any) { o.fail(rule, st, x.Pos, f, v...) }
	errNil := resNil(x, len(x.Res)-1)
	err := x.Res[len(x.Res)-1]
	is := func(names ...string) bool {
		for _, n := range names {
			if g := o.global(st, pkgO2M, n); g != nil && flow.Strip(g).Key() == flow.Strip(err).Key() {
				return true
			}
		}
		return false
	}
	switch {
	case st.Mon["busy-one"] > 0:
		if errNil != 0 || !is("ErrorOneIDDestroying") {
			bad("result", "a relation that is being destroyed is not reported as such")
		}
	case st.Mon["busy-many"] > 0:
		if errNil != 0 || !is("ErrorManyIDDestroying", "ErrorManyKeyValuesDestroying") {
			bad("result", "an item that is being destroyed is not reported as such")
		}
	case st.Mon["outer"] == 0:
		if errNil != 0 {
			bad("result", "success is reported although nothing was done")
		}
	default:
		if errNil != 1 {
			bad("result", "an error is reported although nothing failed")
		}
		if st.Mon["relation"] > 0 && st.Mon["inner"] == 0 {
			bad("result", "success is reported although the relation's items were not looked at")
		}
		if o.op == "CreateOrFind" {
			id := x.Res[0]
			if st.Mon["inner"] == 0 {
				bad("result", "success is reported although no item was created or found")
			}
			if (st.Mon["created"] > 0 || st.Mon["met"] > 0) && id.Key() != o.aid.Key() {
				bad("result", "another id is reported than the one of the item")
			}
			if st.Mon["met"] > 0 && st.Mon["asked"] == 0 {
				bad("item", "the item that exists is not handed to the caller")
			}
		}
	}
}
