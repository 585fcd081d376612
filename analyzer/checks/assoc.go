package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

func init() {
	register("D05", "Items are created and found by exactly their key values", func(c *Ctx) error {
		c.Rule("outcome", "creating ends in exactly one way: an error, the existing item handed over, a new item, or nothing because the caller declined", 4)
		c.Rule("unique", "a new item is only made while everything that indexes its key values is locked for writing and no item with the same key values exists", 4)
		c.Rule("stored", "a new item is stored under the id that is reported, with the value the caller made and the key values it was asked for", 4)
		c.Rule("indexed", "when an index entry is unlocked it lists exactly the items that are stored: the ones it listed before, plus a new one if and only if that was stored", 4)
		return assocCheck(c, "Create", "CreateOrFind")
	})
	register("D06", "Deleting removes exactly the item that was named", func(c *Ctx) error {
		c.Rule("removed", "the item named is asked about once and removed if and only if the caller agrees; what is reported is what happened", 8)
		c.Rule("same", "no other item than the named one is ever removed or handed to the caller", 8)
		c.Rule("indexed", "when an index entry is unlocked it lists exactly the items it listed before, less the one that was removed", 8)
		return assocCheck(c, "Delete", "DeleteByAssociatedID", "DestroyByAssociatedID", "DestroyTree")
	})
	register("D08", "Operations on the index of key values cannot block or break each other", func(c *Ctx) error {
		c.Rule("released", "every lock, registration and in-use count an operation takes is given back on each of its ways out", 12)
		c.Rule("order", "index entries are locked in the order of their keys, after the trees that lead to them and before the tree of items", 8)
		c.Rule("guarded", "an index entry is only read or changed while it is locked, and only by operations that a destroy of the whole tree waits for", 12)
		c.Rule("pinned", "an index entry is only taken out of the index while it is locked, empty and not in use by a create, and a key only when nothing is left under it", 6)
		c.Rule("total", "no operation stops the process, whatever it meets", 12)
		return assocCheck(c, "Create", "CreateOrFind", "Delete", "DeleteByAssociatedID", "DestroyByAssociatedID", "DestroyTree")
	})
}

// assoc analyses the tree that stores items by sets of key values. Its world has one or two key values; each index
// entry holds, when it is locked, one of a few lists of ids that cover the cases: too short, without the item in
// question, with it, with others, with longer and shorter sets.
type assoc struct {
	c *Ctx
	e *flow.Engine

	tree, node, item  *types.Named
	idsF, lockF       *types.Var
	creatingF         *types.Var
	itID, itKV, itVal *types.Var
	role              map[*types.Var]string // field of the tree -> "keys" or "items"

	n    int // number of key values
	op   string
	name string

	kv, tid, pid  *flow.Val
	keys, vals    []*flow.Val
	t, q          *flow.Val
	cbs           []*flow.Val
	errDestroying *flow.Val
	fail          func(rule string, st *flow.State, pos token.Pos, f string, a ...any)
}

func assocCheck(c *Ctx, ops ...string) error {
	a := &assoc{c: c, role: map[*types.Var]string{}}
	if err := a.find(); err != nil {
		return err
	}
	a.fail = func(rule string, st *flow.State, pos token.Pos, f string, v ...any) {
		if _, ok := c.Rules[rule]; ok {
			c.Fail(rule, a.name, c.P.Pos(pos), fmt.Sprintf(f, v...), a.e.Witness(st.Tr, 60)...)
		}
	}
	// the roles of the tree's parts are learned from how Create uses them
	learn := append([]string{"Create"}, ops...)
	for i, op := range learn {
		fn, err := c.P.Method("internal/datastructures/btree_associated", a.tree.Obj().Name(), op)
		if err != nil {
			return err
		}
		a.op, a.name = op, c.fn(fn)
		real := a.fail
		if i == 0 {
			a.fail = func(string, *flow.State, token.Pos, string, ...any) {}
		}
		ns := []int{1, 2}
		if i == 0 {
			ns = []int{1}
		}
		for _, n := range ns {
			a.n = n
			a.run(fn, i > 0)
		}
		a.fail = real
	}
	return nil
}

func (a *assoc) find() error {
	var pkg *types.Package
	for _, lp := range a.c.P.Pkgs {
		if lp.Types != nil && strings.HasSuffix(lp.Types.Path(), pkgAssoc) {
			pkg = lp.Types
		}
	}
	if pkg == nil {
		return fmt.Errorf("package %s not found", pkgAssoc)
	}
	iface := func(n string) *types.Interface {
		if o := pkg.Scope().Lookup(n); o != nil {
			i, _ := o.Type().Underlying().(*types.Interface)
			return i
		}
		return nil
	}
	treeI, itemI := iface("BTreeAssociated"), iface("AssociatedKeyValues")
	if treeI == nil || itemI == nil {
		return fmt.Errorf("the interfaces of the indexed tree were not found")
	}
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, _ := tn.Type().(*types.Named)
		if nt == nil {
			continue
		}
		s, _ := nt.Underlying().(*types.Struct)
		if s == nil {
			continue
		}
		p := types.NewPointer(nt)
		switch {
		case types.Implements(p, treeI):
			a.tree = nt
		case types.Implements(p, itemI):
			a.item = nt
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				switch {
				case isKeyValues(f.Type()):
					a.itKV = f
				case f.Type() == types.Typ[types.String]:
					a.itID = f
				case types.IsInterface(f.Type()):
					a.itVal = f
				}
			}
		default:
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if f.Type().String() == "[][]string" {
					a.node, a.idsF = nt, f
				}
			}
		}
	}
	if a.tree == nil || a.item == nil || a.node == nil || a.itKV == nil || a.itID == nil || a.itVal == nil {
		return fmt.Errorf("the parts of the indexed tree were not found")
	}
	s := a.node.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch d := deref(f.Type()).String(); {
		case d == "sync.RWMutex" || d == "sync.Mutex":
			a.lockF = f
		case strings.HasPrefix(d, "sync/atomic.Int") || strings.HasPrefix(d, "sync/atomic.Uint"):
			a.creatingF = f
		}
	}
	if a.lockF == nil || a.creatingF == nil {
		return fmt.Errorf("the lock and the in-use count of an index entry were not found")
	}
	return nil
}

func (a *assoc) btreeErr(st *flow.State, name string) *flow.Val {
	for _, p := range a.c.P.SSA.AllPackages() {
		if strings.HasSuffix(p.Pkg.Path(), pkgBtree) {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				return a.e.LoadAt(st, flow.Root("global "+g.String(), g.Type()), errType())
			}
		}
	}
	return nil
}

// ---- identities ----

// keyIndex: which of the key values a value is about (-1: none)
func (a *assoc) keyIndex(v *flow.Val) int {
	for i := range a.keys {
		ki, vi := a.keys[i].Key(), a.vals[i].Key()
		if flow.Contains(v, func(x *flow.Val) bool { return x.Key() == ki || x.Key() == vi }) {
			return i
		}
	}
	return -1
}

// treeRole: "keys", "values" or "items"
func (a *assoc) treeRole(tree, key *flow.Val) string {
	if ad := flow.LoadAddr(tree); ad != nil && ad.K == flow.KAddr && ad.Field != nil && typeIs(deref(ad.Args[0].T), pkgAssoc, a.tree.Obj().Name()) {
		if r := a.role[ad.Field]; r != "" {
			return r
		}
		r := "items"
		if a.keyIndex(key) >= 0 {
			r = "keys"
		}
		a.role[ad.Field] = r
		return r
	}
	return "values"
}

// field finds the object a (loaded or freshly made) part belongs to.
func (a *assoc) owner(st *flow.State, part *flow.Val, f *types.Var) *flow.Val {
	if part.K == flow.KAddr && part.Field == f {
		return part.Args[0]
	}
	if ad := flow.LoadAddr(part); ad != nil {
		if ad.K == flow.KAddr && ad.Field == f {
			return ad.Args[0]
		}
		return nil
	}
	for _, ad := range st.Owners(part) {
		if ad.K == flow.KAddr && ad.Field == f {
			return ad.Args[0]
		}
	}
	return nil
}

func (a *assoc) nodeIndex(st *flow.State, node *flow.Val) int {
	if i := a.keyIndex(node); i >= 0 {
		return i
	}
	for i := 0; i < a.n; i++ {
		if v := st.MonV[fmt.Sprint("new:", i)]; v != nil && v.Key() == node.Key() {
			return i
		}
	}
	if i := st.Mon["ctx"]; i > 0 {
		st.MonV[fmt.Sprint("new:", i-1)] = node
		return i - 1
	}
	return -1
}

// ---- index entries ----

func (a *assoc) shapes(i int) [][][]string {
	x, aa, b := fmt.Sprint("x", i), fmt.Sprint("a", i), fmt.Sprint("b", i)
	if a.n == 1 {
		return [][][]string{{}, {{"t"}}, {{"t"}, {b}}, {{}, {b}}}
	}
	out := [][][]string{{}, {{aa}}, {{}, {x}}, {{}, {"t"}}, {{aa}, {x, "t"}}, {{}, {"t", x}}, {{}, {"t"}, {b}}}
	if a.c.Thorough {
		out = append(out, [][]string{{}, {}, {b}}, [][]string{{aa}, {"t", x}, {b}})
	}
	return out
}

// leftovers: what an entry may list when it is looked at again after it was let go.
func (a *assoc) leftovers(i int) [][][]string {
	if strings.HasPrefix(a.op, "Destroy") || a.c.Thorough {
		return a.shapes(i)
	}
	x, b := fmt.Sprint("x", i), fmt.Sprint("b", i)
	if a.n == 1 {
		return [][][]string{{}, {{"t"}, {b}}}
	}
	return [][][]string{{}, {{}, {x}}, {{}, {"t", x}}}
}

func (a *assoc) unread() *flow.Val { return flow.Root("unread ids", a.idsF.Type()) }

func (a *assoc) id(n string) *flow.Val {
	if n == "t" {
		return a.tid
	}
	return flow.Root("id "+n, types.Typ[types.String])
}

func (a *assoc) ids(st *flow.State, node *flow.Val) ([][]*flow.Val, bool) {
	lists, ok := a.e.Elems(st, a.e.LoadField(st, node, a.idsF))
	if !ok {
		return nil, false
	}
	out := make([][]*flow.Val, len(lists))
	for i, l := range lists {
		if out[i], ok = a.e.Elems(st, l); !ok {
			return nil, false
		}
	}
	return out, true
}

// arrays are the backing arrays fill may have used.
func (a *assoc) arrays(i int) []*flow.Val {
	var out []*flow.Val
	str := types.Typ[types.String]
	for j := 0; j < 3; j++ {
		for n := 0; n < 3; n++ {
			out = append(out, flow.Root(fmt.Sprintf("list%d.%d.%d", i, j, n), types.NewPointer(types.NewArray(str, int64(n)))))
		}
	}
	for n := 0; n < 4; n++ {
		out = append(out, flow.Root(fmt.Sprintf("lists%d.%d", i, n), types.NewPointer(types.NewArray(types.NewSlice(str), int64(n)))))
	}
	return out
}

func (a *assoc) fill(st *flow.State, node *flow.Val, i int, shape [][]string) {
	str := types.Typ[types.String]
	lt := types.NewSlice(str)
	mk := func(name string, et types.Type, el []*flow.Val) *flow.Val {
		arr := flow.Root(name, types.NewPointer(types.NewArray(et, int64(len(el)))))
		st.Drop(arr)
		for j, v := range el {
			st.Store(flow.IndexAddr(arr, flow.Int(int64(j)), et), v)
		}
		return flow.Term("mslice", types.NewSlice(et), arr)
	}
	var lists, pre []*flow.Val
	for j, l := range shape {
		var el []*flow.Val
		for _, n := range l {
			el = append(el, a.id(n))
		}
		lists = append(lists, mk(fmt.Sprintf("list%d.%d.%d", i, j, len(el)), str, el))
		pre = append(pre, flow.Tup(el...))
	}
	st.Store(flow.FieldAddr(node, a.idsF), mk(fmt.Sprintf("lists%d.%d", i, len(shape)), lt, lists))
	st.MonV[fmt.Sprint("pre:", i)] = flow.Tup(pre...)
}

func hasID(l []*flow.Val, id *flow.Val) bool {
	for _, v := range l {
		if v.Key() == id.Key() {
			return true
		}
	}
	return false
}

func (a *assoc) listed(st *flow.State, i int, id *flow.Val) bool {
	pre := st.MonV[fmt.Sprint("pre:", i)]
	return pre != nil && len(pre.Args) >= a.n && hasID(pre.Args[a.n-1].Args, id)
}

func heldKey(i int) string { return fmt.Sprint("held:", i) }

func (a *assoc) lock(st *flow.State, l *flow.Val, mode int, pos token.Pos) []flow.Exit {
	node := a.owner(st, l, a.lockF)
	if node == nil {
		a.fail("released", st, pos, "undecided: a lock is taken that does not belong to an index entry")
		return []flow.Exit{{St: st, Pos: pos}}
	}
	i := a.nodeIndex(st, node)
	if i < 0 {
		a.fail("released", st, pos, "undecided: an index entry is locked that belongs to no known key")
		return []flow.Exit{{St: st, Pos: pos}}
	}
	st.Note(pos, "locks the index entry of key %d", i+1)
	if st.Mon[heldKey(i)] != 0 {
		a.fail("order", st, pos, "an index entry is locked a second time by the same operation")
	}
	for j := i + 1; j < a.n; j++ {
		if st.Mon[heldKey(j)] != 0 {
			a.fail("order", st, pos, "the index entry of an earlier key is locked while that of a later key is held")
		}
	}
	if st.Mon["in:items"] > 0 && st.Mon["exclusive"] == 0 {
		a.fail("order", st, pos, "an index entry is locked while the tree of items is held: creating and deleting lock them the other way round")
	}
	if st.Mon["guard"] == 0 && st.Mon["exclusive"] == 0 {
		a.fail("guarded", st, pos, "an index entry is reached by an operation that a destroy of the whole tree would not wait for")
	}
	st.Set(heldKey(i), mode)
	st.Set("emptied", 0)
	delete(st.MonV, "inuse")
	st.MonV[fmt.Sprint("node:", i)] = node
	if node.Alloc && st.Mon["creating-node"] > 0 {
		st.MonV[fmt.Sprint("pre:", i)] = flow.Tup()
		a.common(st)
		return []flow.Exit{{St: st, Pos: pos}}
	}
	if st.Mon["brief"] > 0 {
		// reached on the way: what it lists is of no interest
		st.Store(flow.FieldAddr(node, a.idsF), a.unread())
		return []flow.Exit{{St: st, Pos: pos}}
	}
	shapes := a.shapes(i)
	if st.Mon["leaving"] > 0 {
		shapes = a.leftovers(i)
	}
	var out []flow.Exit
	for _, sh := range shapes {
		s := st.Clone()
		a.fill(s, node, i, sh)
		if a.listed(s, i, a.tid) && st.Mon[fmt.Sprint("stripped:", i)] > 0 {
			continue // ids are not used again
		}
		if !a.listed(s, i, a.tid) && st.Mon["exclusive"] > 0 && st.Mon[fmt.Sprint("stripped:", i)] == 0 {
			continue // nobody else can have removed it
		}
		if !a.listed(s, i, a.tid) && st.Mon["leaving"] == 0 {
			s.Set("missing", 1)
		}
		s.Note(pos, "it lists %v", sh)
		a.common(s)
		out = append(out, flow.Exit{St: s, Pos: pos})
	}
	return out
}

// common notes, when everything that indexes the key values is locked, whether an item with them exists.
func (a *assoc) common(st *flow.State) {
	if st.Mon["leaving"] > 0 || st.Mon["brief"] > 0 {
		return
	}
	all := true
	for i := 0; i < a.n; i++ {
		if st.Mon[heldKey(i)] == 0 {
			return
		}
		all = all && a.listed(st, i, a.tid)
	}
	if all {
		st.Set("common", 1)
		st.Set("missing", 0)
	} else {
		st.Set("common", 2)
	}
}

func (a *assoc) unlock(st *flow.State, l *flow.Val, mode int, pos token.Pos) {
	node := a.owner(st, l, a.lockF)
	if node == nil {
		a.fail("released", st, pos, "undecided: a lock is released that does not belong to an index entry")
		return
	}
	i := a.nodeIndex(st, node)
	if i < 0 || st.Mon[heldKey(i)] != mode {
		a.fail("released", st, pos, "an index entry is unlocked that is not locked that way")
		return
	}
	st.Note(pos, "unlocks the index entry of key %d", i+1)
	if a.e.LoadField(st, node, a.idsF).Key() != a.unread().Key() {
		a.settle(st, node, i, pos)
	}
	st.Set(heldKey(i), 0)
	delete(st.MonV, fmt.Sprint("pre:", i))
	delete(st.MonV, fmt.Sprint("node:", i))
	for _, n := range a.arrays(i) {
		st.Drop(n)
	}
	st.Drop(flow.FieldAddr(node, a.idsF))
	st.Store(flow.FieldAddr(node, a.idsF), flow.Root("unlocked ids", a.idsF.Type()))
}

// settle checks what an index entry lists when it becomes visible to others.
func (a *assoc) settle(st *flow.State, node *flow.Val, i int, pos token.Pos) {
	pre := st.MonV[fmt.Sprint("pre:", i)]
	lists, ok := a.ids(st, node)
	if !ok || pre == nil {
		a.fail("indexed", st, pos, "undecided: what an index entry lists could not be followed")
		return
	}
	newID := st.MonV["newid"]
	stripped := true
	for j := 0; j < len(lists) || j < len(pre.Args); j++ {
		var was, is []*flow.Val
		if j < len(lists) {
			is = lists[j]
		}
		if j < len(pre.Args) {
			was = pre.Args[j].Args
		}
		seen := map[string]bool{}
		for _, v := range is {
			if seen[v.Key()] {
				a.fail("indexed", st, pos, "an index entry lists an item twice")
			}
			seen[v.Key()] = true
			switch {
			case hasID(was, v):
			case newID != nil && v.Key() == newID.Key() && j == a.n-1:
				if st.Mon["stored"] == 0 {
					a.fail("indexed", st, pos, "others can see the id of an item that was not stored")
				}
			default:
				a.fail("indexed", st, pos, "an index entry lists an item it should not")
			}
		}
		for _, v := range was {
			if v.Key() == a.tid.Key() && j == a.n-1 {
				if seen[v.Key()] {
					stripped = false
					if st.Mon["removed"] > 0 {
						a.fail("indexed", st, pos, "an index entry still lists an item that was removed")
					}
				} else if st.Mon["removed"] == 0 && st.Mon["gone"] == 0 && !a.consent(st) {
					a.fail("indexed", st, pos, "an index entry no longer lists an item that still exists")
				}
				continue
			}
			if !seen[v.Key()] {
				a.fail("indexed", st, pos, "an index entry no longer lists another item")
			}
		}
		if newID != nil && j == a.n-1 && st.Mon["stored"] > 0 && !seen[newID.Key()] {
			a.fail("indexed", st, pos, "an index entry does not list the item that was stored")
		}
	}
	if newID != nil && st.Mon["stored"] > 0 && len(lists) < a.n {
		a.fail("indexed", st, pos, "an index entry does not list the item that was stored")
	}
	if stripped {
		st.Set(fmt.Sprint("stripped:", i), 1)
	}
	empty := 1
	for _, l := range lists {
		if len(l) > 0 {
			empty = 0
		}
	}
	st.Set("emptied", empty)
}

// ---- calls ----

func (a *assoc) hooks() *flow.Hooks {
	h := &flow.Hooks{}
	tm := &TreeModel{Once: true}
	level := map[string]int{"keys": 1, "values": 2, "items": 3}
	tm.Err = func(tree *flow.Val, op string) bool {
		return a.treeRole(tree, flow.Tup()) == "items" && (strings.HasSuffix(op, ".Find") || strings.HasSuffix(op, ".Delete") || strings.HasSuffix(op, ".Destroy"))
	}
	tm.Errs = func(e *flow.Engine, st *flow.State, tree *flow.Val, op string) []*flow.Val {
		return []*flow.Val{a.errDestroying}
	}
	tm.Present = func(e *flow.Engine, st *flow.State, tree, key *flow.Val, op string) int {
		role := a.treeRole(tree, key)
		if role == "values" && flow.LoadAddr(tree) == nil {
			return 0 // a tree made just now
		}
		if role != "items" && st.Mon["exclusive"] > 0 {
			if i := a.keyIndex(key); i >= 0 && st.Mon[fmt.Sprint("stripped:", i)] == 0 {
				return 1 // nobody else can have removed it
			}
		}
		return -1
	}
	tm.Item = func(e *flow.Engine, st *flow.State, tree, key *flow.Val, op string, t types.Type) *flow.Val {
		if a.treeRole(tree, key) != "items" {
			return nil
		}
		it := a.t
		if flow.Contains(key, func(x *flow.Val) bool { return x.Key() == a.pid.Key() }) {
			it = a.q
		}
		return flow.IfaceOf(it, it.T)
	}
	tm.OnEnter = func(e *flow.Engine, st *flow.State, op string, tree, key, item *flow.Val, in ssa.Instruction) {
		r := a.treeRole(tree, key)
		st.Inc("in:"+r, 1)
		if r == "values" {
			if strings.HasSuffix(op, ".Delete") || strings.HasSuffix(op, ".Destroy") {
				st.Set("leaving", 1)
			} else {
				st.Set("brief", 1)
			}
			if i := a.keyIndex(key); i >= 0 {
				st.Set("ctx", i+1)
				if item == nil {
					st.Set("creating-node", 1)
				}
			}
		}
		if r == "items" && strings.HasSuffix(op, "DestroyAll") {
			for _, k := range []string{"removed", "gone", "agreed", "refused-item", "asked"} {
				st.Set(k, 0)
			}
			for i := 0; i < a.n; i++ {
				st.Set(fmt.Sprint("stripped:", i), 0)
				st.Set(fmt.Sprint("noentry:", i), 0)
			}
		}
	}
	tm.OnLeave = func(e *flow.Engine, st *flow.State, op string, tree, key, item *flow.Val, cont int, in ssa.Instruction) {
		r := a.treeRole(tree, key)
		st.Inc("in:"+r, -1)
		if r == "values" {
			st.Set("ctx", 0)
			st.Set("creating-node", 0)
			st.Set("leaving", 0)
			st.Set("brief", 0)
		}
		if r == "items" && strings.HasSuffix(op, "DestroyAll") {
			if cont == 1 {
				st.Set("removed", 1)
				a.afterRemoval(st, in.Pos())
			}
			a.agrees(st, cont, in.Pos())
		}
		if r == "keys" && cont == 1 && strings.HasSuffix(op, ".Delete") {
			a.ob("pinned")
			v, of := st.MonV["empty"], st.MonV["emptyof"]
			if v == nil || st.Truth(v) != 1 || !flow.Contains(of, func(x *flow.Val) bool { return x.Key() == flow.Strip(item).Key() }) {
				a.fail("pinned", st, in.Pos(), "a key is taken out of the index although there may be entries left under it")
			}
		}
		if r == "values" && cont == 1 && strings.HasSuffix(op, ".Delete") {
			a.dropped(st, item, in.Pos())
		}
	}
	tm.OnOp = func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
		r := a.treeRole(tree, key)
		switch outcome {
		case "absent":
			if r == "items" {
				st.Set("gone", 1)
			} else {
				st.Set("missing", 1)
			}
			if i := a.keyIndex(key); i >= 0 {
				st.Set(fmt.Sprint("noentry:", i), 1)
			}
		case "error":
			st.Set("busy", 1)
		case "removed":
			if r == "items" {
				st.Set("removed", 1)
				a.agrees(st, 1, in.Pos())
			}
		case "kept":
			if r == "items" {
				a.agrees(st, 0, in.Pos())
			}
		}
	}
	tm.OnCreate = func(e *flow.Engine, st *flow.State, tree, key, val *flow.Val, in ssa.Instruction) {
		if a.treeRole(tree, key) == "items" {
			a.store(st, key, val, in.Pos())
		}
	}
	h.Deref = func(e *flow.Engine, st *flow.State, ptr *flow.Val, in ssa.Instruction) {
		fa, ok := in.(*ssa.FieldAddr)
		if !ok || structOf(fa.X.Type()) == nil || structOf(fa.X.Type()).Field(fa.Field) != a.idsF {
			return
		}
		if ptr.Alloc && st.Mon["creating-node"] > 0 {
			return
		}
		i := a.nodeIndex(st, ptr)
		if i < 0 || st.Mon[heldKey(i)] == 0 {
			if ptr.Alloc && i < 0 {
				return
			}
			a.fail("guarded", st, in.Pos(), "an index entry is reached while it is not locked")
		} else if st.Mon[heldKey(i)] == 1 {
			for _, r := range *fa.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == fa {
					a.fail("guarded", st, in.Pos(), "an index entry is changed while it is only locked for reading")
				}
			}
		}
	}
	h.Resolve = func(m *types.Func, recv *flow.Val) types.Type {
		if m.Pkg() != nil && strings.HasSuffix(m.Pkg().Path(), pkgAssoc) && recvTypeName(m) == "AssociatedKeyValues" {
			return types.NewPointer(a.item)
		}
		return nil
	}
	h.Call = func(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
		ret := func(v ...*flow.Val) ([]flow.Exit, bool) { return []flow.Exit{{St: st, Res: v, Pos: ci.Pos}}, true }
		m := callee(ci)
		if m == nil {
			if ci.FnVal != nil && ci.FnVal.K == flow.KSym && ci.FnVal.Root {
				return a.callback(st, ci), true
			}
			return nil, false
		}
		recv, args := argsOf(ci)
		switch m.FullName() {
		case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock":
			return a.lock(st, recv, 2, ci.Pos), true
		case "(*sync.RWMutex).RLock":
			return a.lock(st, recv, 1, ci.Pos), true
		case "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock":
			a.unlock(st, recv, 2, ci.Pos)
			return ret()
		case "(*sync.RWMutex).RUnlock":
			a.unlock(st, recv, 1, ci.Pos)
			return ret()
		case "fmt.Errorf", "errors.New":
			v := freshErr(e, st, ci.Instr, "ferr")
			return ret(v)
		}
		if m.Pkg() != nil && strings.HasPrefix(m.FullName(), "(*sync/atomic.") {
			if node := a.owner(st, recv, a.creatingF); node != nil {
				return a.count(st, ci, m.Name(), node, args), true
			}
		}
		if m.Pkg() != nil && strings.HasSuffix(m.Pkg().Path(), "/async") {
			switch m.Name() {
			case "GuardOperation":
				no := st.Clone()
				st.Inc("guard", 1)
				no.Set("refused", 1)
				no.Note(ci.Pos, "the tree is being destroyed")
				return []flow.Exit{{St: st, Res: []*flow.Val{flow.Bool(true)}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{flow.Bool(false)}, Pos: ci.Pos}}, true
			case "ClearOperation":
				if st.Mon["guard"] <= 0 {
					a.fail("released", st, ci.Pos, "an operation signs off that never registered")
				}
				st.Inc("guard", -1)
				return ret()
			case "WaitDestroy":
				no := st.Clone()
				if st.Mon["guard"] > 0 {
					a.fail("order", st, ci.Pos, "an operation waits for itself to end before destroying the tree")
				}
				st.Inc("exclusive", 1)
				no.Set("refused", 1)
				return []flow.Exit{{St: st, Res: []*flow.Val{flow.Bool(true)}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{flow.Bool(false)}, Pos: ci.Pos}}, true
			case "ClearDestroy":
				if st.Mon["exclusive"] <= 0 {
					a.fail("released", st, ci.Pos, "the tree is opened again although it was not shut")
				}
				st.Inc("exclusive", -1)
				return ret()
			}
		}
		if isNewID(ci) {
			v := e.Fresh(st, ci.Instr, "newid", types.Typ[types.String])
			st.MonV["newid"] = v
			for _, o := range a.allIDs() {
				st.Restrict(v, o, flow.LT|flow.GT)
			}
			st.Restrict(v, flow.Str(""), flow.LT|flow.GT)
			return ret(v)
		}
		if ci.Fn != nil && strings.HasSuffix(pkgPathOf(m), pkgBtree) && m.Type().(*types.Signature).Recv() == nil && strings.HasPrefix(m.Name(), "New") {
			v := e.FreshAlloc(st, ci.Instr, ci.Res.At(0).Type())
			if ci.Res.Len() == 2 {
				return ret(v, nilErr())
			}
			return ret(v)
		}
		if recv != nil && isKeyValues(recv.T) {
			switch m.Name() {
			case "Validate":
				no := st.Clone()
				no.Set("invalid", 1)
				return []flow.Exit{{St: st, Res: []*flow.Val{nilErr()}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{freshErr(e, no, ci.Instr, "invalid")}, Pos: ci.Pos}}, true
			case "SortedKeys", "Keys":
				ks := a.mapKeys(st, recv)
				if ks == nil {
					return nil, false
				}
				if m.Name() == "Keys" {
					for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
						ks[i], ks[j] = ks[j], ks[i]
					}
				}
				return ret(e.NewSlice(st, ci.Instr, ci.Res.At(0).Type(), ks...))
			}
		}
		if p := pkgPathOf(m); p == "sort" && m.Name() == "Strings" || p == "slices" && strings.HasPrefix(m.Name(), "Sort") {
			sl := flow.Strip(args[0])
			if el, ok := e.Elems(st, sl); ok && sl.K == flow.KTerm {
				el = append([]*flow.Val{}, el...)
				sort.Slice(el, func(i, j int) bool { return a.keyIndex(el[i]) < a.keyIndex(el[j]) })
				for i, v := range el {
					st.Store(flow.IndexAddr(sl.Args[0], flow.Int(int64(i)), v.T), v)
				}
			}
			return ret()
		}
		if strings.HasSuffix(pkgPathOf(m), "/query_associated_action") {
			switch {
			case m.Name() == "KeyValuesToExactAssociatedActionQuery":
				return ret(flow.Term("exact", ci.Res.At(0).Type(), args[0]))
			case m.Name() == "StringToAssociatedActionQuery":
				return ret(flow.Term("byID", ci.Res.At(0).Type(), args[0]))
			case m.Name() == "Validate":
				no := st.Clone()
				no.Set("invalid", 1)
				return []flow.Exit{{St: st, Res: []*flow.Val{nilErr()}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{freshErr(e, no, ci.Instr, "invalid")}, Pos: ci.Pos}}, true
			}
		}
		kind, op, tree, targs := treeKind(ci)
		if kind == "assoc" && op == "QueryAction" && a.op != "QueryAction" {
			return a.query(st, ci, targs), true
		}
		if kind == "btree" {
			if op == "Empty" {
				v := e.Fresh(st, ci.Instr, "empty", types.Typ[types.Bool])
				st.MonV["empty"], st.MonV["emptyof"] = v, tree
				return ret(v)
			}
			delete(st.MonV, "empty")
			delete(st.MonV, "emptyof")
			var key *flow.Val = flow.Tup()
			if len(targs) > 0 {
				key = targs[0]
			}
			r := a.treeRole(tree, key)
			if st.Mon["guard"] == 0 && st.Mon["exclusive"] == 0 {
				a.fail("guarded", st, ci.Pos, "the tree is reached by an operation that a destroy of the whole tree would not wait for")
			}
			for l, n := range level {
				if st.Mon["in:"+l] > 0 && n >= level[r] && !(st.Mon["exclusive"] > 0 && l == "items") {
					a.fail("order", st, ci.Pos, "a tree of %s is entered from within a tree of %s", r, l)
				}
			}
			if r != "items" {
				for i := 0; i < a.n; i++ {
					if st.Mon[heldKey(i)] != 0 {
						a.fail("order", st, ci.Pos, "the trees that lead to the index entries are entered while an index entry is locked: others lock them the other way round")
					}
				}
			}
			if ex, ok := tm.Call(e, st, ci); ok {
				return ex, true
			}
		}
		return nil, false
	}
	return h
}

func pkgPathOf(m *types.Func) string {
	if m == nil || m.Pkg() == nil {
		return ""
	}
	return m.Pkg().Path()
}

func (a *assoc) allIDs() []*flow.Val {
	out := []*flow.Val{a.tid}
	for i := 0; i < a.n; i++ {
		for _, p := range []string{"x", "a", "b"} {
			out = append(out, a.id(fmt.Sprint(p, i)))
		}
	}
	return out
}

// mapKeys lists the keys of key values, in order, whether they were given or copied.
func (a *assoc) mapKeys(st *flow.State, m *flow.Val) []*flow.Val {
	var out []*flow.Val
	if m.Key() == a.kv.Key() {
		return append(out, a.keys...)
	}
	es, ok := a.e.Entries(st, m)
	if !ok {
		return nil
	}
	for _, en := range es {
		out = append(out, en.Args[0])
	}
	sort.SliceStable(out, func(i, j int) bool { return a.keyIndex(out[i]) < a.keyIndex(out[j]) })
	return out
}

// count follows the number of creates that use an index entry.
func (a *assoc) count(st *flow.State, ci *flow.CallInfo, name string, node *flow.Val, args []*flow.Val) []flow.Exit {
	i := a.nodeIndex(st, node)
	t := types.Typ[types.Int64]
	if ci.Res != nil && ci.Res.Len() == 1 {
		t, _ = ci.Res.At(0).Type().(*types.Basic)
	}
	switch name {
	case "Add":
		d, ok := atomicDelta(args[0])
		if !ok {
			a.fail("released", st, ci.Pos, "undecided: the in-use count changes by an unknown amount")
		}
		if d > 0 && st.Mon["in:values"] == 0 {
			a.fail("pinned", st, ci.Pos, "an index entry is marked as in use when it may already have been taken out of the index")
		}
		st.Inc(fmt.Sprint("pins:", i), d)
		if st.Mon[fmt.Sprint("pins:", i)] < 0 {
			a.fail("released", st, ci.Pos, "an in-use count is taken back that was not given")
		}
		return []flow.Exit{{St: st, Res: []*flow.Val{a.e.Fresh(st, ci.Instr, "cnt", t)}, Pos: ci.Pos}}
	case "Load":
		v := a.e.Fresh(st, ci.Instr, "cnt", t)
		if st.Mon[heldKey(i)] != 0 {
			st.MonV["inuse"] = v
		}
		return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}}
	}
	a.fail("released", st, ci.Pos, "undecided: the in-use count is changed by %s", name)
	return a.e.Unknown(st, ci)
}

// dropped: an index entry is taken out of the index, by a callback that agreed.
func (a *assoc) dropped(st *flow.State, item *flow.Val, pos token.Pos) {
	a.ob("pinned")
	in := st.MonV["inuse"]
	if st.Mon["emptied"] == 0 || in == nil || st.Rel(in, int64c(0)) != flow.EQ {
		a.fail("pinned", st, pos, "an index entry is taken out of the index that may not be empty, or may be in use")
	}
	st.Set("emptied", 0)
	delete(st.MonV, "inuse")
}

func (a *assoc) ob(rule string) {
	if _, ok := a.c.Rules[rule]; ok {
		a.c.Ob(rule, fmt.Sprintf("%s with %d key values", a.name, a.n))
	}
}

// query applies the tree's own query: it calls back with the items selected.
func (a *assoc) query(st *flow.State, ci *flow.CallInfo, args []*flow.Val) []flow.Exit {
	q := flow.Strip(args[0])
	e := a.e
	var it *flow.Val
	switch {
	case st.Written(q) && q.K == flow.KTerm:
		// not what the constructor gave: nothing is known about what it selects
	case q.K == flow.KTerm && q.S == "exact" && q.Args[0].Key() == a.kv.Key():
		it = a.t
	case q.K == flow.KTerm && q.S == "byID" && q.Args[0].Key() == a.pid.Key():
		it = a.q
	default:
		if ids := selectedIDs(e, st, q); len(ids) == 1 && ids[0].Key() == a.pid.Key() {
			it = a.q
		}
	}
	var out []flow.Exit
	bad := st.Clone()
	bad.Set("refused", 1)
	bad.Note(ci.Pos, "the query fails")
	out = append(out, flow.Exit{St: bad, Res: []*flow.Val{freshErr(e, bad, ci.Instr, "qerr")}, Pos: ci.Pos})
	if it == nil {
		a.fail("same", st, ci.Pos, "something else is looked up than the item that was named")
		a.fail("outcome", st, ci.Pos, "something else is looked up than the item that was named")
		return out
	}
	none := st.Clone()
	none.Set("unseen", 1)
	none.Note(ci.Pos, "the query finds nothing")
	out = append(out, flow.Exit{St: none, Res: []*flow.Val{nilErr()}, Pos: ci.Pos})
	st.Note(ci.Pos, "the query finds the item")
	st.Inc("in:items", 1)
	for _, x := range e.CallValue(st, args[1], []*flow.Val{flow.IfaceOf(it, it.T)}, ci.Instr) {
		if !x.Panic {
			x.St.Inc("in:items", -1)
			x.Res = []*flow.Val{nilErr()}
		}
		out = append(out, x)
	}
	return out
}

// callback: the caller's own functions.
func (a *assoc) callback(st *flow.State, ci *flow.CallInfo) []flow.Exit {
	if st.IsNil(ci.FnVal) == 1 {
		return []flow.Exit{{St: st, Panic: true, Pos: ci.Pos}}
	}
	if st.IsNil(ci.FnVal) != 0 {
		a.fail("total", st, ci.Pos, "a callback is called that may not have been given")
	}
	sig := sigOf(ci.FnVal)
	if sig.Params().Len() == 0 {
		st.Note(ci.Pos, "the caller is asked to create the item")
		st.Inc("creates", 1)
		a.ob("unique")
		for i := 0; i < a.n; i++ {
			if st.Mon[heldKey(i)] != 2 {
				a.fail("unique", st, ci.Pos, "an item is created while an index entry of its key values is not locked for writing: another create could do the same")
			}
		}
		if st.Mon["common"] == 1 {
			a.fail("unique", st, ci.Pos, "an item is created although one with the same key values exists")
		}
		t := sig.Results().At(0).Type()
		v := flow.Root("made", t)
		no := st.Clone()
		st.Restrict(v, flow.NilOf(t), flow.LT|flow.GT)
		no.Set("declined", 1)
		no.Note(ci.Pos, "the caller declines")
		return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{flow.NilOf(t)}, Pos: ci.Pos}}
	}
	it := flow.Strip(ci.Args[len(ci.Args)-1])
	if sig.Results().Len() == 0 {
		st.Note(ci.Pos, "the caller is handed the item")
		st.Inc("finds", 1)
		if it.Key() != a.t.Key() {
			a.fail("outcome", st, ci.Pos, "the caller is handed another item than the one with its key values")
		}
		return []flow.Exit{{St: st, Pos: ci.Pos}}
	}
	st.Note(ci.Pos, "the caller is asked about the item")
	st.Inc("asked", 1)
	a.ob("same")
	want := a.t
	if it.Key() != want.Key() && it.Key() != a.q.Key() {
		a.fail("same", st, ci.Pos, "the caller is asked about another item than the one named")
	}
	if a.byID() && it.Key() == a.t.Key() && st.Rel(a.tid, a.pid) != flow.EQ {
		a.fail("same", st, ci.Pos, "the caller may be asked about an item with another id: it can have taken the named item's place in between")
	}
	no := st.Clone()
	st.Set("agreed", 1)
	no.Set("refused-item", 1)
	no.Note(ci.Pos, "the caller refuses")
	return []flow.Exit{{St: st, Res: []*flow.Val{flow.Bool(true)}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{flow.Bool(false)}, Pos: ci.Pos}}
}

func (a *assoc) byID() bool { return a.op == "DeleteByAssociatedID" || a.op == "DestroyByAssociatedID" }

// agrees: an item is removed iff the caller agreed.
func (a *assoc) agrees(st *flow.State, removed int, pos token.Pos) {
	a.ob("removed")
	optional := true
	for _, cb := range a.cbs {
		if st.IsNil(cb) != 1 {
			optional = false
		}
	}
	switch {
	case removed == 1 && !optional && (st.Mon["asked"] != 1 || st.Mon["refused-item"] > 0):
		a.fail("removed", st, pos, "an item is removed without the caller having agreed to it")
	case removed == 0 && st.Mon["refused-item"] == 0 && !(a.op == "DeleteByAssociatedID" && st.Rel(a.tid, a.pid)&flow.EQ == 0):
		a.fail("removed", st, pos, "an item is kept although the caller did not object")
	}
	if removed == 1 && a.byID() {
		a.ob("same")
		if st.Mon["queried"] == 0 && a.op == "DeleteByAssociatedID" && st.Rel(a.tid, a.pid) != flow.EQ {
			a.fail("same", st, pos, "an item with another id may be removed: it can have taken the named item's place in between")
		}
	}
}

// consent: the caller agreed to the removal, or has no condition.
func (a *assoc) consent(st *flow.State) bool {
	for _, cb := range a.cbs {
		if st.IsNil(cb) == 1 && (a.op == "DestroyTree" || strings.Contains(a.op, "Delete")) {
			return true
		}
	}
	return st.Mon["agreed"] > 0
}

// afterRemoval: what was removed is no longer listed anywhere.
func (a *assoc) afterRemoval(st *flow.State, pos token.Pos) {
	a.ob("indexed")
	for i := 0; i < a.n; i++ {
		if st.Mon[fmt.Sprint("stripped:", i)] == 0 && st.Mon[fmt.Sprint("noentry:", i)] == 0 {
			a.fail("indexed", st, pos, "an item is removed, but the index entry of one of its key values still lists it")
		}
	}
}

// store: an item is put in the tree of items.
func (a *assoc) store(st *flow.State, key, val *flow.Val, pos token.Pos) {
	a.ob("stored")
	st.Inc("stored", 1)
	st.Note(pos, "the item is stored")
	newID := st.MonV["newid"]
	it := flow.Strip(val)
	e := a.e
	if newID == nil || !flow.Contains(key, func(x *flow.Val) bool { return x.Key() == newID.Key() }) {
		a.fail("stored", st, pos, "an item is not stored under a new id")
		return
	}
	if it.T == nil || !types.Identical(it.T, types.NewPointer(a.item)) {
		a.fail("stored", st, pos, "undecided: what is stored could not be followed")
		return
	}
	if id := e.LoadField(st, it, a.itID); id.Key() != newID.Key() {
		a.fail("stored", st, pos, "an item is stored with another id than the one it is stored under")
	}
	if v := flow.Strip(e.LoadField(st, it, a.itVal)); v.Key() != "" && v.Key() != flow.Root("made", nil).Key() {
		a.fail("stored", st, pos, "what is stored is not what the caller made")
	}
	kv := e.LoadField(st, it, a.itKV)
	if kv.Key() != a.kv.Key() {
		es, ok := e.Entries(st, kv)
		good := ok && len(es) == a.n
		for _, en := range es {
			i := a.keyIndex(en.Args[0])
			if i < 0 || en.Args[1].Key() != a.vals[i].Key() {
				good = false
			}
		}
		if !good {
			a.fail("stored", st, pos, "an item is stored with other key values than it was created for")
		}
	}
	a.ob("unique")
	for i := 0; i < a.n; i++ {
		if st.Mon[heldKey(i)] != 2 {
			a.fail("unique", st, pos, "an item is stored while an index entry of its key values is not locked for writing")
		}
	}
	if st.Mon["common"] != 2 {
		a.fail("unique", st, pos, "an item is stored although one with the same key values exists")
	}
}

// ---- the operations ----

func (a *assoc) run(fn *ssa.Function, report bool) {
	c := a.c
	a.e = c.Engine(a.hooks())
	e := a.e
	e.Unroll, e.Maps, e.MaxStates = 4, true, 2000000
	st := flow.NewState()
	str := types.Typ[types.String]
	tree := flow.Root("tree", types.NewPointer(a.tree))
	st.Restrict(tree, flow.NilOf(tree.T), flow.LT|flow.GT)
	a.kv = flow.Root("kv", a.itKV.Type())
	a.tid, a.pid = flow.Root("tid", str), flow.Root("pid", str)
	a.t, a.q = flow.Root("item t", types.NewPointer(a.item)), flow.Root("item q", types.NewPointer(a.item))
	a.keys, a.vals = nil, nil
	mt := a.itKV.Type().Underlying().(*types.Map)
	for i := 0; i < a.n; i++ {
		k, v := flow.MapKey(a.kv, i, str), flow.Root(fmt.Sprint("val", i), mt.Elem())
		a.keys, a.vals = append(a.keys, k), append(a.vals, v)
		st.Store(flow.IndexAddr(a.kv, k, mt.Elem()), v)
	}
	if a.n == 2 {
		st.Restrict(a.keys[0], a.keys[1], flow.LT)
	}
	st.Restrict(flow.Term("len", types.Typ[types.Int], a.kv), flow.Int(int64(a.n)), flow.EQ)
	ids := a.allIDs()
	for i, x := range ids {
		st.Restrict(x, flow.Str(""), flow.LT|flow.GT)
		for _, y := range ids[:i] {
			st.Restrict(x, y, flow.LT|flow.GT)
		}
	}
	st.Restrict(a.kv, flow.NilOf(a.kv.T), flow.LT|flow.GT)
	for _, it := range []*flow.Val{a.t, a.q} {
		st.Restrict(it, flow.NilOf(it.T), flow.LT|flow.GT)
		st.Store(flow.FieldAddr(it, a.itKV), a.kv)
	}
	st.Store(flow.FieldAddr(a.t, a.itID), a.tid)
	st.Store(flow.FieldAddr(a.q, a.itID), a.pid)
	if a.op == "DestroyByAssociatedID" {
		// the item stored under the id is the one in question
		a.tid = a.pid
		st.Store(flow.FieldAddr(a.t, a.itID), a.tid)
		a.q = a.t
		ids = a.allIDs()
		for i, x := range ids {
			for _, y := range ids[:i] {
				st.Restrict(x, y, flow.LT|flow.GT)
			}
		}
	}
	a.errDestroying = a.btreeErr(st, "ErrorKeyDestroying")
	if a.errDestroying == nil {
		a.fail("total", st, fn.Pos(), "undecided: the error for a key that is being destroyed was not found")
		return
	}
	st.Restrict(a.errDestroying, flow.NilOf(errType()), flow.LT|flow.GT)
	args := []*flow.Val{tree}
	a.cbs = nil
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		p := fn.Signature.Params().At(i)
		v := flow.Root(fmt.Sprint("arg", i), p.Type())
		switch {
		case isKeyValues(p.Type()):
			v = a.kv
		case p.Type() == str:
			v = a.pid
		case sigOf(v) != nil:
			a.cbs = append(a.cbs, v)
		}
		args = append(args, v)
	}
	if report {
		for _, r := range []string{"released", "order", "guarded", "total", "outcome", "indexed", "removed", "same"} {
			a.ob(r)
		}
	}
	for _, x := range e.Analyze(fn, args, nil, st) {
		a.exit(x)
	}
	if report {
		rule := "total"
		for _, r := range []string{"outcome", "removed"} {
			if _, ok := c.Rules[r]; ok {
				rule = r
			}
		}
		c.Done(rule, e)
	}
}

func (a *assoc) exit(x flow.Exit) {
	st, m := x.St, x.St.Mon
	if x.Panic {
		a.fail("total", st, x.Pos, "the process can be stopped here")
		a.fail("outcome", st, x.Pos, "the process can be stopped here")
		a.fail("removed", st, x.Pos, "the process can be stopped here")
		return
	}
	for i := 0; i < a.n; i++ {
		if m[heldKey(i)] != 0 {
			a.fail("released", st, x.Pos, "an index entry is left locked")
		}
		if m[fmt.Sprint("pins:", i)] != 0 {
			a.fail("released", st, x.Pos, "an index entry is left marked as in use")
		}
	}
	if m["guard"] != 0 || m["exclusive"] != 0 {
		a.fail("released", st, x.Pos, "the operation stays registered after it ended: the tree can never be destroyed, or never be used again")
	}
	errNil := resNil(x, len(x.Res)-1)
	bad := func(rule, f string, v ...any) { a.fail(rule, st, x.Pos, f, v...) }
	nilcb := false
	for _, cb := range a.cbs {
		if st.IsNil(cb) == 1 {
			nilcb = true
		}
	}
	excused := m["invalid"] > 0 || m["refused"] > 0 || m["busy"] > 0 || m["gone"] > 0
	switch a.op {
	case "Create", "CreateOrFind":
		id := x.Res[0]
		switch {
		case m["creates"] > 1 || m["finds"] > 1 || m["creates"] > 0 && m["finds"] > 0 || m["stored"] > 1:
			bad("outcome", "more than one item is created or handed over")
		case m["stored"] > 0:
			if errNil != 1 {
				bad("outcome", "an error is reported although the item was created")
			} else if id.Key() != st.MonV["newid"].Key() {
				bad("stored", "another id is reported than the one the item was stored under")
			}
		case m["declined"] > 0:
		case m["creates"] > 0:
			bad("outcome", "the item the caller made is not stored")
		case m["finds"] > 0:
			if errNil != 1 {
				bad("outcome", "an error is reported although the item was handed over")
			} else if id.Key() != a.tid.Key() {
				bad("outcome", "another id is reported than that of the item handed over")
			}
		case errNil != 0:
			bad("outcome", "success is reported although the caller was neither asked to create an item nor handed one")
		case !excused && !nilcb && m["common"] != 1:
			bad("outcome", "an error is reported although nothing stands in the way of creating the item")
		}
	case "Delete", "DeleteByAssociatedID", "DestroyByAssociatedID":
		if m["removed"] > 0 {
			a.afterRemoval(st, x.Pos)
			if errNil != 1 {
				bad("removed", "an error is reported although the item was removed")
			}
			return
		}
		if m["refused-item"] > 0 {
			if errNil != 1 {
				bad("removed", "an error is reported although the caller kept the item")
			}
			return
		}
		emptyID := a.byID() && st.Rel(a.pid, flow.Str(""))&(flow.LT|flow.GT) == 0
		other := a.op == "DeleteByAssociatedID" && st.Rel(a.tid, a.pid)&flow.EQ == 0
		if errNil == 1 && m["missing"] == 0 && m["gone"] == 0 && m["unseen"] == 0 && !other {
			bad("removed", "success is reported although the item was neither removed nor missing")
		}
		if errNil != 1 && !excused && !emptyID {
			bad("removed", "an error is reported although nothing stands in the way of removing the item")
		}
		if m["busy"] > 0 && errNil != 0 {
			bad("removed", "success is reported although the item is being destroyed by someone else")
		}
		if m["refused"] > 0 && errNil != 0 {
			bad("removed", "success is reported although the tree is being destroyed")
		}
	case "DestroyTree":
		if m["refused"] > 0 && errNil != 0 {
			bad("removed", "success is reported although the tree is being destroyed by someone else")
		}
	}
}
