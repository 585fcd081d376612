package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

const typeAny = 1024

func init() {
	register("D01", "The trees cannot be left locked", func(c *Ctx) error {
		c.Rule("released", "every lock an operation takes is released on each of its ways out, whatever the shape of the nodes it meets and wherever the caller stops it, and only locks that are held are released", 20)
		c.Rule("order", "locks are taken from the root down and from left to right, and never a second time", 20)
		c.Rule("guarded", "a node is only changed while it is locked for writing, and after an operation let its ancestors go it asks nothing more of them", 8)
		return btreeCheck(c)
	})
	register("D02", "A range over a tree offers exactly the entries it should", func(c *Ctx) error {
		c.Rule("members", "an entry is offered exactly when its key and type match what was asked, and no subtree that may hold such an entry is passed over", 6)
		c.Rule("stops", "once the caller has asked to stop, no further entry is offered", 6)
		return btreeCheck(c)
	})
	register("D03", "Trees change exactly as their callers agree to", func(c *Ctx) error {
		c.Rule("content", "after creating, declining to create, deleting or refusing to delete, a node and its children hold exactly the entries they should, in order, however they were split, rotated or merged", 30)
		c.Rule("callbacks", "a create calls one callback once and is told about the right entry; a delete asks about the entry it deletes", 4)
		c.Rule("empty", "a tree says that it is empty exactly when it holds nothing", 1)
		return btreeCheck(c)
	})
	register("D04", "A key or tree that is being destroyed accepts nothing else", func(c *Ctx) error {
		c.Rule("refused", "no operation touches the tree unless it is registered, the tree is not being destroyed, and the key it names is not being destroyed", 9)
		c.Rule("drained", "destroying a whole tree first shuts out new operations, then waits for those under way, and opens the tree again", 1)
		c.Rule("recorded", "a key is recorded as being destroyed for as long as it takes to delete it, once, and no longer", 1)
		c.Rule("validated", "an operation that is given an invalid key, invalid restrictions or no callback where one is needed says so and touches nothing", 9)
		return btreeCheck(c)
	})
}

type btContract struct {
	mode string // how it finds its own lock: "R", "W" (and releases it), or "" (unlocked before and after)
	kind string // query, create, remove, swap, sweep
}

type bt struct {
	c                             *Ctx
	e                             *flow.Engine
	tree, node                    *types.Named
	kv                            *types.Struct
	nVals, nKids, nKV, nCh, nLock *types.Var
	kvKey, kvVal                  *types.Var
	tRoot, tLock, tKeysLock       *types.Var
	tKeys, tSize                  *types.Var
	evType                        *types.Var
	ev                            types.Type
	contracts                     map[*ssa.Function]*btContract
	pos                           map[string]int
	label                         map[string]string
	shaped                        map[string]bool // nodes whose content is spelled out
	name                          string
	public                        bool
	infer                         string
	inferred                      map[string]bool
	size                          int
	op                            string
	query                         bool
	cbs                           []*flow.Val
	swapFirst                     bool
	start                         int
	keysLockKey, treeLockKey      string
	kvs                           []*flow.Val // entries of the shape, in order
	fail                          func(rule string, st *flow.State, pos token.Pos, f string, a ...any)
}

func (b *bt) find() error {
	for _, lp := range b.c.P.Pkgs {
		p := lp.Types
		if p == nil || !strings.HasSuffix(p.Path(), pkgBtree) {
			continue
		}
		for _, n := range p.Scope().Names() {
			tn, ok := p.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, _ := tn.Type().(*types.Named)
			if nt == nil {
				continue
			}
			s, _ := nt.Underlying().(*types.Struct)
			if s == nil {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if sl, ok := s.Field(i).Type().(*types.Slice); ok && types.Identical(sl.Elem(), types.NewPointer(nt)) {
					b.node = nt
				}
			}
		}
		for _, n := range p.Scope().Names() {
			tn, ok := p.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, _ := tn.Type().(*types.Named)
			if nt == nil || b.node == nil {
				continue
			}
			if s, _ := nt.Underlying().(*types.Struct); s != nil && nt != b.node {
				for i := 0; i < s.NumFields(); i++ {
					if types.Identical(s.Field(i).Type(), types.NewPointer(b.node)) {
						b.tree = nt
					}
				}
			}
		}
	}
	if b.node == nil || b.tree == nil {
		return fmt.Errorf("the tree and node types were not found")
	}
	s := b.node.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch t := f.Type().Underlying().(type) {
		case *types.Slice:
			if types.Identical(deref(t.Elem()), b.node) {
				b.nCh = f
			} else {
				b.nKV = f
				b.kv, _ = deref(t.Elem()).Underlying().(*types.Struct)
			}
		case *types.Basic:
			if strings.Contains(strings.ToLower(f.Name()), "child") {
				b.nKids = f
			} else {
				b.nVals = f
			}
		case *types.Pointer:
			b.nLock = f
		}
	}
	if b.kv == nil || b.nKids == nil || b.nVals == nil || b.nLock == nil {
		return fmt.Errorf("the node type is not understood")
	}
	for i := 0; i < b.kv.NumFields(); i++ {
		f := b.kv.Field(i)
		if st, ok := f.Type().Underlying().(*types.Struct); ok {
			b.kvKey, b.ev = f, f.Type()
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == "Type" {
					b.evType = st.Field(j)
				}
			}
		} else {
			b.kvVal = f
		}
	}
	s = b.tree.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch t := f.Type().Underlying().(type) {
		case *types.Slice:
			b.tKeys = f
		case *types.Basic:
			b.tSize = f
		case *types.Pointer:
			switch {
			case types.Identical(t.Elem(), b.node):
				b.tRoot = f
			case typeIs(t, "sync", "RWMutex"), typeIs(t, "sync", "Mutex"):
				if strings.Contains(strings.ToLower(f.Name()), "key") {
					b.tKeysLock = f
				} else {
					b.tLock = f
				}
			}
		}
	}
	if b.tRoot == nil || b.tLock == nil || b.tKeys == nil || b.tKeysLock == nil || b.tSize == nil || b.evType == nil || b.kvVal == nil {
		return fmt.Errorf("the tree type is not understood")
	}
	return nil
}

// ---- abstract keys and nodes ----

func (b *bt) rank(k *flow.Val) *flow.Val { return flow.Term("rank", types.Typ[types.Int], k) }
func (b *bt) typ(k *flow.Val) *flow.Val  { return flow.Project(k, b.evType) }

func (b *bt) newKV(st *flow.State, name string) *flow.Val {
	kv := flow.Root("kv"+name, types.NewPointer(deref(b.nKV.Type().(*types.Slice).Elem())))
	st.Restrict(kv, flow.NilOf(kv.T), flow.LT|flow.GT)
	k := flow.Root("k"+name, b.ev)
	st.Store(flow.FieldAddr(kv, b.kvKey), k)
	v := flow.Root("v"+name, b.kvVal.Type())
	st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
	st.Store(flow.FieldAddr(kv, b.kvVal), v)
	return kv
}

func (b *bt) nodeRoot(st *flow.State, name string) *flow.Val {
	n := flow.Root(name, types.NewPointer(b.node))
	st.Restrict(n, flow.NilOf(n.T), flow.LT|flow.GT)
	return n
}

// fill gives a node its content.
func (b *bt) fill(st *flow.State, n *flow.Val, kvs, kids []*flow.Val) {
	pad := func(in []*flow.Val, n int, t types.Type) []*flow.Val {
		out := append([]*flow.Val{}, in...)
		for len(out) < n {
			out = append(out, flow.NilOf(t))
		}
		return out
	}
	st.Store(flow.FieldAddr(n, b.nVals), flow.Int(int64(len(kvs))))
	st.Store(flow.FieldAddr(n, b.nKids), flow.Int(int64(len(kids))))
	st.Store(flow.FieldAddr(n, b.nKV), b.e.NewSlice(st, "kv/"+n.Key(), b.nKV.Type(), pad(kvs, b.size+1, b.nKV.Type().(*types.Slice).Elem())...))
	st.Store(flow.FieldAddr(n, b.nCh), b.e.NewSlice(st, "ch/"+n.Key(), b.nCh.Type(), pad(kids, b.size+2, b.nCh.Type().(*types.Slice).Elem())...))
}

type btShape struct {
	vals int   // -1: no node
	kids []int // values of each child; nil for a leaf
	deep bool  // the children have children
	bare bool  // the children's content is not spelled out
}

func (s btShape) String() string {
	switch {
	case s.vals < 0:
		return "no node"
	case s.kids == nil:
		return fmt.Sprintf("a leaf of %d", s.vals)
	case s.bare:
		return fmt.Sprintf("a node of %d", s.vals)
	case s.deep:
		return fmt.Sprintf("a node of %d over nodes of %v", s.vals, s.kids)
	}
	return fmt.Sprintf("a node of %d over leaves of %v", s.vals, s.kids)
}

// build lays out a shape; the entries' order is recorded as facts.
func (b *bt) build(st *flow.State, s btShape) *flow.Val {
	b.kvs, b.shaped = nil, map[string]bool{}
	b.pos, b.label = map[string]int{}, map[string]string{}
	root := b.nodeRoot(st, "root")
	n := 0
	mark := func(v *flow.Val, name string) {
		n++
		k := b.e.LoadField(st, v, b.nLock).Key()
		b.pos[k], b.label[k] = n, name
	}
	mark(root, "the node")
	var kvs, kids []*flow.Val
	if s.kids == nil {
		for i := 0; i < s.vals; i++ {
			kvs = append(kvs, b.newKV(st, fmt.Sprint(i)))
		}
		b.kvs = kvs
	} else {
		for j := range s.kids {
			c := b.nodeRoot(st, fmt.Sprintf("c%d", j))
			kids = append(kids, c)
			mark(c, fmt.Sprintf("child %d", j))
		}
		for j, v := range s.kids {
			if !s.bare {
				var ckv, ckid []*flow.Val
				for i := 0; i < v; i++ {
					ckv = append(ckv, b.newKV(st, fmt.Sprintf("%d_%d", j, i)))
				}
				if s.deep {
					for i := 0; i <= v; i++ {
						g := b.nodeRoot(st, fmt.Sprintf("g%d_%d", j, i))
						mark(g, fmt.Sprintf("grandchild %d.%d", j, i))
						ckid = append(ckid, g)
					}
				}
				b.fill(st, kids[j], ckv, ckid)
				b.shaped[kids[j].Key()] = true
				b.kvs = append(b.kvs, ckv...)
			}
			if j < s.vals {
				kv := b.newKV(st, fmt.Sprint(j))
				st.Restrict(b.typ(b.keyOf(st, kv)), flow.Int(typeAny), flow.LT)
				kvs = append(kvs, kv)
				b.kvs = append(b.kvs, kv)
			}
		}
	}
	b.fill(st, root, kvs, kids)
	b.shaped[root.Key()] = true
	for i := 1; i < len(b.kvs); i++ {
		st.Restrict(b.rank(b.keyOf(st, b.kvs[i-1])), b.rank(b.keyOf(st, b.kvs[i])), flow.LT)
		// a key of type any comes last
		st.Restrict(b.typ(b.keyOf(st, b.kvs[i-1])), flow.Int(typeAny), flow.LT)
	}
	st.MonV["seq"] = flow.Term("seq", nil, b.flatten(st, root)...)
	return root
}

func (b *bt) keyOf(st *flow.State, kv *flow.Val) *flow.Val { return b.e.LoadField(st, kv, b.kvKey) }
func (b *bt) valOf(st *flow.State, kv *flow.Val) *flow.Val { return b.e.LoadField(st, kv, b.kvVal) }

func (b *bt) counts(st *flow.State, n *flow.Val) (int, int, bool) {
	v, ok1 := flow.IntVal(b.e.LoadField(st, n, b.nVals))
	k, ok2 := flow.IntVal(b.e.LoadField(st, n, b.nKids))
	return int(v), int(k), ok1 && ok2
}

func (b *bt) items(st *flow.State, n *flow.Val) (kvs, kids []*flow.Val) {
	kvs, _ = b.e.Elems(st, b.e.LoadField(st, n, b.nKV))
	kids, _ = b.e.Elems(st, b.e.LoadField(st, n, b.nCh))
	return
}

// flatten lists a node's entries and unexplored subtrees in order.
func (b *bt) flatten(st *flow.State, n *flow.Val) []*flow.Val {
	v, k, ok := b.counts(st, n)
	if !ok {
		return []*flow.Val{n}
	}
	kvs, kids := b.items(st, n)
	var out []*flow.Val
	for i := 0; i < v || i < k; i++ {
		if i < k {
			if i < len(kids) {
				out = append(out, b.flatten(st, kids[i])...)
			} else {
				out = append(out, flow.Root("missing child", nil))
			}
		}
		if i < v {
			if i < len(kvs) && st.IsNil(kvs[i]) != 1 {
				out = append(out, flow.Term("entry", nil, b.keyOf(st, kvs[i]), b.valOf(st, kvs[i])))
			} else {
				out = append(out, flow.Root("missing entry", nil))
			}
		}
	}
	return out
}

func seqKey(vs []*flow.Val) string {
	var s []string
	for _, v := range vs {
		s = append(s, v.Key())
	}
	return strings.Join(s, " ")
}

// replaceRun substitutes a run of tokens in the expected sequence.
func (b *bt) replaceRun(st *flow.State, old, new []*flow.Val) {
	seq := st.MonV["seq"]
	if seq == nil {
		return
	}
	o := seqKey(old)
	for i := 0; i+len(old) <= len(seq.Args); i++ {
		if seqKey(seq.Args[i:i+len(old)]) == o {
			var out []*flow.Val
			out = append(out, seq.Args[:i]...)
			out = append(out, new...)
			out = append(out, seq.Args[i+len(old):]...)
			st.MonV["seq"] = flow.Term("seq", nil, out...)
			return
		}
	}
	st.MonV["seq"] = flow.Term("seq", nil, flow.Root("a subtree that is not where it was", nil))
}

// ---- what a path knows about order ----

func (b *bt) order(st *flow.State, keys ...*flow.Val) *order {
	o := &order{at: map[string]int{}, typ: map[int]int{}}
	any := flow.Int(typeAny)
	o.id(any)
	add := func(v *flow.Val) {
		i := o.id(v)
		if v.K == flow.KTerm && v.S == "rank" {
			o.typ[i] = o.id(b.typ(v.Args[0]))
		}
	}
	for _, k := range keys {
		add(b.rank(k))
	}
	isOrd := func(v *flow.Val) bool {
		if v.K == flow.KTerm && v.S == "rank" {
			return true
		}
		if _, ok := flow.IntVal(v); ok {
			return true
		}
		return typeIs(v.T, "/datatypes", "DataType")
	}
	st.Facts(func(x, y *flow.Val, bits int) {
		if isOrd(x) && isOrd(y) && !(x.K == flow.KConst && y.K == flow.KConst) && (x.K == flow.KTerm || y.K == flow.KTerm) {
			if strings.HasPrefix(x.S, "len") || strings.HasPrefix(y.S, "len") {
				return
			}
			add(x)
			add(y)
			o.restrict(x, y, bits)
		}
	})
	return o
}

type atom struct {
	x, y *flow.Val
	bits int
}

// possible: can all the atoms hold on this path?
func (b *bt) possible(st *flow.State, keys []*flow.Val, as ...atom) bool {
	o := b.order(st, keys...)
	for _, a := range as {
		for _, v := range []*flow.Val{a.x, a.y} {
			i := o.id(v)
			if v.K == flow.KTerm && v.S == "rank" {
				o.typ[i] = o.id(b.typ(v.Args[0]))
			}
		}
		o.restrict(a.x, a.y, a.bits)
	}
	return o.consistent()
}

// dnf is a disjunction of conjunctions.
type dnf [][]atom

func negations(d dnf) dnf {
	out := dnf{{}}
	for _, conj := range d {
		var next dnf
		for _, part := range out {
			for _, a := range conj {
				next = append(next, append(append([]atom{}, part...), atom{a.x, a.y, allRel &^ a.bits}))
			}
		}
		out = next
	}
	return out
}

func (b *bt) possibleAny(st *flow.State, keys []*flow.Val, d dnf, more ...atom) bool {
	for _, conj := range d {
		if b.possible(st, keys, append(append([]atom{}, conj...), more...)...) {
			return true
		}
	}
	return false
}

// ---- locks ----

func (b *bt) lockName(k string) string {
	if l := b.label[k]; l != "" {
		return l
	}
	return "another node"
}

func (b *bt) held(st *flow.State) []string {
	var out []string
	for k := range st.Mon {
		if strings.HasPrefix(k, "W:") || strings.HasPrefix(k, "R:") {
			out = append(out, b.lockName(k[2:]))
		}
	}
	sort.Strings(out)
	return out
}

func (b *bt) acquire(st *flow.State, l *flow.Val, mode string, pos token.Pos) {
	k := l.Key()
	b.touch(st, k, pos)
	if st.Mon["W:"+k] > 0 || st.Mon["R:"+k] > 0 {
		b.fail("order", st, pos, "%s is locked while this goroutine holds it already", b.lockName(k))
	}
	if p := b.pos[k]; p > 0 {
		for h := range st.Mon {
			if (strings.HasPrefix(h, "W:") || strings.HasPrefix(h, "R:")) && b.pos[h[2:]] > p {
				b.fail("order", st, pos, "%s is locked while %s is held, which others lock the other way round", b.lockName(k), b.lockName(h[2:]))
			}
		}
	}
	if b.infer == k && st.Mon["inferred"] == 0 {
		st.Set("inferred", 1)
		b.inferred[""] = true
	}
	st.Set(mode+":"+k, 1)
	st.Note(pos, "locks %s", b.lockName(k))
}

func (b *bt) release(st *flow.State, l *flow.Val, mode string, pos token.Pos) {
	k := l.Key()
	if b.infer == k && st.Mon["inferred"] == 0 {
		st.Set("inferred", 1)
		b.inferred[mode] = true
		return
	}
	if st.Mon[mode+":"+k] == 0 && b.infer == "" {
		b.fail("released", st, pos, "%s is unlocked, but it is not held that way", b.lockName(k))
	}
	st.Set(mode+":"+k, 0)
	st.Note(pos, "unlocks %s", b.lockName(k))
}

// touch checks, before the tree's content is reached for the first time, that the operation may do so.
func (b *bt) touch(st *flow.State, k string, pos token.Pos) {
	if !b.public || st.Mon["touched"] > 0 || k == b.keysLock() {
		return
	}
	st.Set("touched", 1)
	destroying := flow.Root("destroying", types.Typ[types.Bool])
	op := b.op
	switch {
	case op == "Empty":
		return
	case op == "DestroyAll":
		if st.Mon["cas"] == 0 || st.Mon["waited"] == 0 {
			b.fail("drained", st, pos, "the tree is reached before new operations are shut out and running ones waited for")
		}
		return
	}
	if st.Mon["wg"] < 1 {
		b.fail("refused", st, pos, "the tree is reached by an operation that a destroy would not wait for")
	}
	if st.Truth(destroying) != 0 {
		b.fail("refused", st, pos, "the tree is reached although it may be being destroyed")
	}
	if b.invalid(st) {
		b.fail("validated", st, pos, "the tree is reached with arguments that were not validated")
	}
	key := st.MonV["key"]
	cur, ok := b.e.Elems(st, b.e.LoadField(st, b.treeRoot(), b.tKeys))
	switch op {
	case "Create", "CreateOrFind", "Find", "Delete":
		for _, d := range st.MonV["destroyed"].Args {
			if st.Rel(d, key)&flow.EQ != 0 {
				b.fail("refused", st, pos, "the tree is reached although the key may be being destroyed")
			}
		}
	case "Destroy":
		n := 0
		for _, d := range cur {
			if st.Rel(d, key) == flow.EQ {
				n++
			} else if st.Rel(d, key)&flow.EQ != 0 {
				n += 2
			}
		}
		if !ok || n != 1 {
			b.fail("recorded", st, pos, "the key is deleted without being recorded, exactly once, as being destroyed")
		}
	}
}

func (b *bt) invalid(st *flow.State) bool { return len(b.missing(st)) > 0 }

func (b *bt) missing(st *flow.State) []string {
	var out []string
	if st.MonV["key"] != nil && st.Mon["keyok"] == 0 {
		out = append(out, "key")
	}
	if st.MonV["restr"] != nil && st.Mon["restrok"] == 0 {
		out = append(out, "restrictions")
	}
	for _, p := range b.cbs {
		if b.optional(p) {
			continue
		}
		if st.IsNil(p) != 0 {
			out = append(out, "callback")
		}
	}
	return out
}

// optional: a delete may be given no condition.
func (b *bt) optional(p *flow.Val) bool {
	return strings.HasPrefix(b.op, "De") // Delete, Destroy, DestroyAll
}

func (b *bt) treeRoot() *flow.Val { return flow.Root("tree", types.NewPointer(b.tree)) }
func (b *bt) keysLock() string    { return b.keysLockKey }

func (b *bt) isNode(t types.Type) bool { return t != nil && types.Identical(deref(t), b.node) }

func sigOf(v *flow.Val) *types.Signature {
	if v == nil || v.T == nil {
		return nil
	}
	s, _ := v.T.Underlying().(*types.Signature)
	return s
}

// roles of a node method's parameters
func (b *bt) kindOf(fn *ssa.Function) string {
	hasRelease, hasNode := false, false
	p := fn.Signature.Params()
	for i := 0; i < p.Len(); i++ {
		if s, ok := p.At(i).Type().Underlying().(*types.Signature); ok && s.Params().Len() == 0 && s.Results().Len() == 0 {
			hasRelease = true
		}
		if b.isNode(p.At(i).Type()) {
			hasNode = true
		}
	}
	r := fn.Signature.Results()
	if !hasRelease {
		takesKey := false
		for i := 0; i < p.Len(); i++ {
			if types.Identical(p.At(i).Type(), b.ev) || typeIs(p.At(i).Type(), "/common/v1", "TypeRestrictions") {
				takesKey = true
			}
		}
		if takesKey {
			return "query"
		}
		return "sweep"
	}
	for i := 0; i < r.Len(); i++ {
		if b.isNode(r.At(i).Type()) {
			return "create"
		}
	}
	if hasNode {
		return "swap"
	}
	return "remove"
}

// recursive node methods reached from the tree's operations: of the functions that call each other in a circle,
// those that are called from outside of it
func (b *bt) recursive() []*ssa.Function {
	callees := map[*ssa.Function]map[*ssa.Function]bool{}
	locks := map[*ssa.Function]bool{}
	for _, fn := range b.c.P.AllFuncs {
		if fn.Parent() != nil || len(fn.Blocks) == 0 || fn.Pkg == nil || fn.Pkg.Pkg != b.node.Obj().Pkg() {
			continue
		}
		callees[fn] = map[*ssa.Function]bool{}
		var scan func(f *ssa.Function)
		scan = func(f *ssa.Function) {
			for _, bl := range f.Blocks {
				for _, in := range bl.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if cal := ci.Common().StaticCallee(); cal != nil {
							callees[fn][cal] = true
							if strings.HasPrefix(cal.String(), "(*sync.") {
								locks[fn] = true
							}
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				scan(a)
			}
		}
		scan(fn)
	}
	reach := func(from *ssa.Function, stop map[*ssa.Function]bool) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		todo := []*ssa.Function{from}
		for len(todo) > 0 {
			f := todo[0]
			todo = todo[1:]
			for g := range callees[f] {
				if callees[g] != nil && !seen[g] && !stop[g] {
					seen[g] = true
					todo = append(todo, g)
				}
			}
		}
		return seen
	}
	isMethod := func(fn *ssa.Function) bool {
		return fn.Signature.Recv() != nil && b.isNode(fn.Signature.Recv().Type())
	}
	all := map[*ssa.Function]map[*ssa.Function]bool{}
	for fn := range callees {
		all[fn] = reach(fn, nil)
	}
	entry := map[*ssa.Function]bool{}
	for fn := range callees {
		if !isMethod(fn) || !all[fn][fn] {
			continue
		}
		for g := range callees {
			if callees[g][fn] && g != fn && !(all[fn][g] && all[g][fn]) {
				entry[fn] = true
			}
		}
	}
	// a circle that none of these is part of is cut at its methods
	for fn := range callees {
		if isMethod(fn) && !entry[fn] && all[fn][fn] && reach(fn, entry)[fn] {
			entry[fn] = true
		}
	}
	var out []*ssa.Function
	for fn := range entry {
		l := locks[fn]
		for g := range all[fn] {
			l = l || locks[g]
		}
		if l {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func (b *bt) hooks() *flow.Hooks {
	h := &flow.Hooks{}
	h.Feasible = func(e *flow.Engine, st *flow.State) bool { return b.order(st).consistent() }
	h.Lookup = func(e *flow.Engine, st *flow.State, m, k *flow.Val, in *ssa.Lookup) *flow.Val {
		if in.CommaOk {
			return nil
		}
		switch {
		case strings.Contains(m.Key(), ".AnyDataType"):
			return flow.Term("cmp:==", types.Typ[types.Bool], k, flow.Int(typeAny))
		case strings.Contains(m.Key(), ".GeneralDataTypes"):
			return flow.Term("cmp:!=", types.Typ[types.Bool], k, flow.Int(typeAny))
		}
		return nil
	}
	h.Store = func(e *flow.Engine, st *flow.State, addr, val *flow.Val, in ssa.Instruction) {
		if addr.K != flow.KAddr {
			return
		}
		base := addr.Args[0]
		switch {
		case addr.Field == b.tKeys || b.tKeys != nil && base.Key() == b.treeRoot().Key() && addr.Field == b.tKeys:
			if st.Mon["W:"+b.keysLockKey] == 0 {
				b.fail("recorded", st, in.Pos(), "the list of keys being destroyed is changed without its lock")
			}
		case addr.Field == b.tRoot:
			if st.Mon["W:"+b.treeLockKey] == 0 {
				b.fail("guarded", st, in.Pos(), "the tree's root is replaced without holding the tree's lock for writing")
			}
		case addr.Field == b.nVals || addr.Field == b.nKids:
			b.guard(st, base, in.Pos())
		case addr.Field == nil:
			// an element of a node's list
			for _, n := range b.nodes(st) {
				for _, f := range []*types.Var{b.nKV, b.nCh} {
					if l := b.e.LoadField(st, n, f); l.K == flow.KTerm && l.S == "mslice" && l.Args[0].Key() == base.Key() {
						b.guard(st, n, in.Pos())
					}
				}
			}
		}
	}
	h.Call = b.call
	return h
}

func (b *bt) nodes(st *flow.State) []*flow.Val {
	var out []*flow.Val
	var keys []string
	for k := range b.shaped {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		out = append(out, flow.Root(strings.TrimSuffix(strings.TrimPrefix(k, "$"), ";"), types.NewPointer(b.node)))
	}
	return out
}

func (b *bt) guard(st *flow.State, n *flow.Val, pos token.Pos) {
	if !b.shaped[n.Key()] {
		return
	}
	k := b.e.LoadField(st, n, b.nLock).Key()
	b.c.Ob("guarded", b.name)
	if st.Mon["W:"+k] == 0 && b.infer == "" {
		b.fail("guarded", st, pos, "%s is changed while it is not locked for writing", b.lockName(k))
	}
}

func (b *bt) call(e *flow.Engine, st *flow.State, ci *flow.CallInfo) ([]flow.Exit, bool) {
	ret := func(v ...*flow.Val) ([]flow.Exit, bool) { return []flow.Exit{{St: st, Res: v, Pos: ci.Pos}}, true }
	if ci.Go {
		return ret()
	}
	m := callee(ci)
	if m == nil {
		if ci.FnVal != nil && ci.FnVal.K == flow.KSym && ci.FnVal.Root {
			return b.callback(st, ci), true
		}
		return nil, false
	}
	recv, args := argsOf(ci)
	switch m.FullName() {
	case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock":
		b.acquire(st, recv, "W", ci.Pos)
		return ret()
	case "(*sync.RWMutex).RLock":
		b.acquire(st, recv, "R", ci.Pos)
		return ret()
	case "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock":
		b.release(st, recv, "W", ci.Pos)
		return ret()
	case "(*sync.RWMutex).RUnlock":
		b.release(st, recv, "R", ci.Pos)
		return ret()
	case "(*sync.Once).Do":
		k := "once:" + recv.Key()
		if st.Mon[k] > 0 {
			return ret()
		}
		st.Set(k, 1)
		out := e.CallValue(st, args[0], nil, ci.Instr)
		for i := range out {
			out[i].Res = nil
		}
		return out, true
	case "(*sync.WaitGroup).Add":
		n, ok := flow.IntVal(args[0])
		if !ok {
			b.fail("refused", st, ci.Pos, "the number of running operations changes by an unknown amount")
		}
		st.Inc("wg", int(n))
		return ret()
	case "(*sync.WaitGroup).Done":
		st.Inc("wg", -1)
		return ret()
	case "(*sync.WaitGroup).Wait":
		if st.Mon["cas"] == 0 {
			b.fail("drained", st, ci.Pos, "running operations are waited for before new ones are shut out")
		}
		st.Set("waited", 1)
		return ret()
	case "(*sync/atomic.Bool).Load":
		if st.Mon["wg"] < 1 {
			b.fail("refused", st, ci.Pos, "whether the tree is being destroyed is asked before the operation is registered")
		}
		return ret(flow.Root("destroying", types.Typ[types.Bool]))
	case "(*sync/atomic.Bool).CompareAndSwap":
		if !flow.IsFalse(args[0]) || !flow.IsTrue(args[1]) {
			break
		}
		lost := st.Clone()
		st.Set("cas", 1)
		lost.Set("lost", 1)
		return []flow.Exit{{St: st, Res: []*flow.Val{flow.Bool(true)}, Pos: ci.Pos}, {St: lost, Res: []*flow.Val{flow.Bool(false)}, Pos: ci.Pos}}, true
	case "(*sync/atomic.Bool).Store":
		if flow.IsFalse(args[0]) && st.Mon["cas"] > 0 {
			st.Set("cas", 0)
			st.Set("reopened", 1)
		}
		return ret()
	}
	if recv != nil && m.Pkg() != nil && strings.HasSuffix(m.Pkg().Path(), "/datatypes") && typeIs(recv.T, "/datatypes", "EncapsulatedValue") {
		boolT := types.Typ[types.Bool]
		switch m.Name() {
		case "LessMatchType":
			return ret(flow.Term("cmp:<", boolT, b.rank(recv), b.rank(args[0])))
		case "Less":
			lt := flow.Term("cmp:<", boolT, b.rank(recv), b.rank(args[0]))
			return ret(flow.Term("and", boolT, lt, flow.Term("cmp:<", boolT, b.typ(args[0]), flow.Int(typeAny))))
		case "Validate":
			bad := st.Clone()
			st.Restrict(b.typ(recv), args[0], flow.GT|flow.EQ)
			st.Restrict(b.typ(recv), args[1], flow.LT|flow.EQ)
			if k := st.MonV["key"]; k != nil && k.Key() == recv.Key() {
				st.Set("keyok", 1)
				bad.Set("badarg", 1)
			}
			t := ci.Res.At(0).Type()
			v := e.Fresh(bad, ci.Instr, "invalid", t)
			bad.Restrict(v, flow.NilOf(t), flow.LT|flow.GT)
			return []flow.Exit{{St: st, Res: []*flow.Val{flow.NilOf(t)}, Pos: ci.Pos}, {St: bad, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
		}
		return e.Unknown(st, ci), true
	}
	if recv != nil && typeIs(recv.T, "/common/v1", "TypeRestrictions") && m.Name() == "Validate" {
		bad := st.Clone()
		lo, hi := b.restr(recv)
		st.Restrict(lo, hi, flow.LT|flow.EQ)
		st.Restrict(hi, flow.Int(typeAny), flow.LT|flow.EQ)
		st.Restrict(lo, flow.Int(1), flow.GT|flow.EQ)
		if k := st.MonV["restr"]; k != nil && k.Key() == recv.Key() {
			st.Set("restrok", 1)
			bad.Set("badarg", 1)
		}
		t := ci.Res.At(0).Type()
		v := e.Fresh(bad, ci.Instr, "invalid", t)
		bad.Restrict(v, flow.NilOf(t), flow.LT|flow.GT)
		return []flow.Exit{{St: st, Res: []*flow.Val{flow.NilOf(t)}, Pos: ci.Pos}, {St: bad, Res: []*flow.Val{v}, Pos: ci.Pos}}, true
	}
	if m.Pkg() != nil && strings.HasSuffix(m.Pkg().Path(), "/datatypes") && m.Name() == "Any" && len(args) == 0 {
		k := flow.Root("Any", b.ev)
		st.Restrict(b.typ(k), flow.Int(typeAny), flow.EQ)
		return ret(k)
	}
	if ci.Fn != nil {
		if ct := b.contracts[ci.Fn]; ct != nil && recv != nil {
			if !b.shaped[recv.Key()] || recv.Key() != "$root;" || b.public && ct.kind != "query" && ct.kind != "sweep" {
				if recv.Key() == "$root;" || b.isNodeVal(recv) {
					return b.contract(st, ci, ct, recv, args), true
				}
			} else if b.public && ct.kind == "query" {
				n := st.Mon["inv"] + 1
				st.Set("inv", n)
				st.MonV[fmt.Sprintf("inv%d", n)] = flow.Tup(args...)
			}
		}
	}
	return nil, false
}

func (b *bt) isNodeVal(v *flow.Val) bool { return v.K == flow.KSym || v.K == flow.KTerm }

func (b *bt) restr(v *flow.Val) (lo, hi *flow.Val) {
	return flow.Project(v, fieldNamed(v.T, "MinDataType")), flow.Project(v, fieldNamed(v.T, "MaxDataType"))
}

// callback is a call of something the caller of the tree gave.
func (b *bt) callback(st *flow.State, ci *flow.CallInfo) []flow.Exit {
	sig := sigOf(ci.FnVal)
	if st.IsNil(ci.FnVal) == 1 {
		return []flow.Exit{{St: st, Panic: true, Pos: ci.Pos}}
	}
	if st.IsNil(ci.FnVal) != 0 {
		b.fail("validated", st, ci.Pos, "a callback is called that may not have been given")
	}
	st.Note(ci.Pos, "calls back")
	var item, key *flow.Val
	for _, a := range ci.Args {
		if types.Identical(a.T, b.ev) {
			key = a
		} else {
			item = flow.Strip(a)
		}
	}
	var kv *flow.Val
	for _, x := range b.kvs {
		if item != nil && flow.Strip(b.valOf(st, x)).Key() == item.Key() {
			kv = x
		}
	}
	if item != nil && kv != nil && key != nil {
		if b.possible(st, nil, atom{b.rank(key), b.rank(b.keyOf(st, kv)), flow.LT | flow.GT}) {
			b.fail("callbacks", st, ci.Pos, "an entry is handed over with another entry's key")
		}
	}
	res := sig.Results()
	if res.Len() == 0 {
		if len(ci.Args) == 0 { // release
			st.Set("released", 1)
			return []flow.Exit{{St: st, Pos: ci.Pos}}
		}
		b.calledWith(st, ci, "find", kv)
		return []flow.Exit{{St: st, Pos: ci.Pos}}
	}
	t := res.At(0).Type()
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
		b.calledWith(st, ci, "ask", kv)
		no := st.Clone()
		no.Set("stopped", 1)
		return []flow.Exit{{St: st, Res: []*flow.Val{flow.Bool(true)}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{flow.Bool(false)}, Pos: ci.Pos}}
	}
	b.calledWith(st, ci, "create", nil)
	v := flow.Root("created", t)
	no := st.Clone()
	st.Restrict(v, flow.NilOf(t), flow.LT|flow.GT)
	st.Set("agreed", 1)
	no.Set("declined", 1)
	return []flow.Exit{{St: st, Res: []*flow.Val{v}, Pos: ci.Pos}, {St: no, Res: []*flow.Val{flow.NilOf(t)}, Pos: ci.Pos}}
}

func (b *bt) calledWith(st *flow.State, ci *flow.CallInfo, what string, kv *flow.Val) {
	if st.Mon["stopped"] > 0 && b.query {
		b.fail("stops", st, ci.Pos, "an entry is offered after the caller asked to stop")
	}
	st.Inc("called:"+what, 1)
	if b.query {
		if kv != nil {
			st.Inc(fmt.Sprintf("visit:%d:%s", st.Mon["inv"], kv.Key()), 1)
		}
		return
	}
	key := st.MonV["key"]
	if key == nil || kv == nil || b.infer != "" {
		return
	}
	b.c.Ob("callbacks", b.name)
	st.MonV["hit"] = kv
	if b.possible(st, []*flow.Val{key}, atom{b.rank(key), b.rank(b.keyOf(st, kv)), flow.LT | flow.GT}) {
		b.fail("callbacks", st, ci.Pos, "the caller is asked about an entry with another key")
	}
}

// keyBelow stands for the keys of a subtree.
func (b *bt) keyBelow(n *flow.Val) *flow.Val { return flow.Root("below "+n.Key(), b.ev) }

// answered: what the tree answers for its caller is what the caller answered.
func (b *bt) answered(st *flow.State, remove bool, pos token.Pos) {
	if !b.public || len(b.cbs) != 1 {
		return
	}
	refused := st.Mon["stopped"] > 0
	if st.IsNil(b.cbs[0]) != 1 && st.Mon["called:ask"] == 0 {
		b.fail("callbacks", st, pos, "an entry is deleted, or kept, without the caller being asked")
	} else if refused == remove {
		b.fail("callbacks", st, pos, "an entry is deleted although the caller refused, or kept although the caller agreed")
	}
}

// contract applies what was established about a recursive node method to a call of it on another node.
func (b *bt) contract(st *flow.State, ci *flow.CallInfo, ct *btContract, recv *flow.Val, args []*flow.Val) []flow.Exit {
	e := b.e
	if st.IsNil(recv) == 1 {
		return []flow.Exit{{St: st, Panic: true, Pos: ci.Pos}}
	}
	lock := e.LoadField(st, recv, b.nLock)
	lk := lock.Key()
	if ct.mode != "" {
		if st.Mon[ct.mode+":"+lk] == 0 {
			b.fail("released", st, ci.Pos, "%s is handed on without the lock that will be released there", b.lockName(lk))
		}
		st.Set("R:"+lk, 0)
		st.Set("W:"+lk, 0)
	} else if st.Mon["R:"+lk]+st.Mon["W:"+lk] > 0 {
		b.fail("order", st, ci.Pos, "%s is locked again while this goroutine holds it", b.lockName(lk))
	}
	st.Note(ci.Pos, "%s on %s", ci.Fn.Name(), b.lockName(lk))
	var exits []flow.Exit
	results := func(s *flow.State, v *flow.Val) {
		var res []*flow.Val
		if ci.Res != nil {
			for i := 0; i < ci.Res.Len(); i++ {
				t := ci.Res.At(i).Type()
				switch {
				case types.Identical(t, errType()):
					res = append(res, nilErr())
				case v != nil:
					res = append(res, v)
				default:
					res = append(res, flow.ZeroOf(t))
				}
			}
		}
		exits = append(exits, flow.Exit{St: s, Res: res, Pos: ci.Pos})
	}
	var release *flow.Val
	var cbs []*flow.Val
	for _, a := range args {
		if s := sigOf(a); s != nil {
			if s.Params().Len() == 0 && s.Results().Len() == 0 {
				release = a
			} else {
				cbs = append(cbs, a)
			}
		}
	}
	after := func(s *flow.State, released bool) []*flow.State {
		if !released || release == nil {
			return []*flow.State{s}
		}
		var out []*flow.State
		for _, x := range e.CallValue(s, release, nil, ci.Instr) {
			if !x.Panic {
				out = append(out, x.St)
			}
		}
		return out
	}
	switch ct.kind {
	case "query":
		inv := st.Mon["inv"]
		if inv > 0 && recv.Key() != "$root;" {
			st.Set(fmt.Sprintf("rec:%d:%s", inv, recv.Key()), 1)
			if was := st.MonV[fmt.Sprintf("inv%d", inv)]; was != nil && was.Key() != flow.Tup(args...).Key() {
				b.fail("members", st, ci.Pos, "a subtree is asked something else than its parent")
			}
		}
		boolRes := ci.Res != nil && ci.Res.Len() == 1
		none := st.Clone()
		if boolRes {
			results(none, flow.Bool(true))
		} else {
			results(none, nil)
		}
		for _, cb := range cbs {
			a := []*flow.Val{}
			sig := sigOf(cb)
			for i := 0; i < sig.Params().Len(); i++ {
				a = append(a, flow.Root(fmt.Sprintf("below%d", i), sig.Params().At(i).Type()))
			}
			s := st.Clone()
			if flow.Strip(cb).K == flow.KSym && s.IsNil(cb) == 1 {
				continue
			}
			for _, x := range e.CallValue(s, cb, a, ci.Instr) {
				if x.Panic {
					continue
				}
				if boolRes && len(x.Res) == 1 {
					if x.St.Truth(x.Res[0]) != 0 {
						for _, y := range x.St.Assume(x.Res[0], true) {
							results(y, flow.Bool(true))
						}
					}
					for _, y := range x.St.Assume(x.Res[0], false) {
						results(y, flow.Bool(false))
					}
				} else if boolRes {
					results(x.St, flow.Bool(true))
				} else {
					results(x.St, nil)
				}
			}
		}
	case "sweep":
		ss := []*flow.State{st}
		if b.public {
			for _, cb := range cbs {
				var next []*flow.State
				for _, s := range ss {
					for _, x := range e.CallValue(s, cb, []*flow.Val{b.keyBelow(recv)}, ci.Instr) {
						if !x.Panic {
							next = append(next, x.St)
						}
					}
				}
				ss = next
			}
		}
		for _, s := range ss {
			results(s, nil)
		}
	case "create":
		var onCreate, onFind *flow.Val
		for _, cb := range cbs {
			if sigOf(cb).Results().Len() == 1 {
				onCreate = cb
			} else {
				onFind = cb
			}
		}
		old := b.flatten(st, recv)
		for _, released := range []bool{false, true} {
			// found
			s := st.Clone()
			if onFind != nil {
				for _, x := range e.CallValue(s, onFind, []*flow.Val{flow.Root("below", sigOf(onFind).Params().At(0).Type())}, ci.Instr) {
					for _, y := range after(x.St, released) {
						results(y, nil)
					}
				}
			} else {
				for _, y := range after(s, released) {
					n := len(exits)
					results(y, nil)
					for i, v := range exits[n].Res {
						if types.Identical(ci.Res.At(i).Type(), errType()) {
							exits[n].Res[i] = freshErr(e, y, ci.Instr, "exists")
						}
						_ = v
					}
				}
			}
			if onCreate == nil {
				continue
			}
			for _, x := range e.CallValue(st.Clone(), onCreate, nil, ci.Instr) {
				if x.Panic {
					exits = append(exits, x)
					continue
				}
				x.St.Set("below", 1)
				for _, y := range after(x.St, released) {
					if v, k, known := b.counts(y, recv); !released && y.Mon["agreed"] > 0 && !(known && v+k == 0) {
						z := y.Clone()
						p := b.nodeRoot(z, "P")
						kv := b.newKV(z, "P")
						p0, p1 := b.nodeRoot(z, "P0"), b.nodeRoot(z, "P1")
						b.fill(z, p, []*flow.Val{kv}, []*flow.Val{p0, p1})
						z.Restrict(b.typ(b.keyOf(z, kv)), flow.Int(typeAny), flow.LT)
						b.between(z, recv, kv)
						b.replaceRun(z, old, b.flatten(z, p))
						results(z, p)
					}
					results(y, nil)
				}
			}
		}
	case "remove", "swap":
		v, kids, known := b.counts(st, recv)
		min := (b.size+2)/2 - 1
		for _, a := range args {
			if ct.kind == "remove" && types.Identical(a.T, b.ev) {
				st.Set("rm:"+a.Key(), 1)
			}
		}
		if b.public && b.op == "DestroyAll" && st.Mon["stopped"] > 0 {
			b.fail("callbacks", st, ci.Pos, "destroying goes on after the caller refused an entry")
		}
		// nothing removed
		if ct.kind == "remove" {
			for _, released := range []bool{false, true} {
				s := st.Clone()
				ss := []*flow.State{s}
				if len(cbs) == 1 && s.IsNil(cbs[0]) != 1 {
					ss = append(ss, s.Clone())
					ss[1].Restrict(cbs[0], flow.NilOf(cbs[0].T), flow.LT|flow.GT)
					for _, x := range e.CallValue(ss[1], cbs[0], b.below(cbs[0]), ci.Instr) {
						if !x.Panic && len(x.Res) == 1 && x.St.Truth(x.Res[0]) != 1 {
							b.answered(x.St, false, ci.Pos)
							for _, y := range after(x.St, released) {
								results(y, flow.Bool(false))
							}
						}
					}
				}
				for _, y := range after(s, released) {
					results(y, flow.Bool(false))
				}
			}
		}
		if known && v == 0 && kids == 0 {
			break
		}
		for _, released := range []bool{false, true} {
			s := st.Clone()
			ss := []*flow.State{s}
			if ct.kind == "remove" && len(cbs) == 1 && s.IsNil(cbs[0]) != 1 {
				ss = nil
				if s.IsNil(cbs[0]) < 0 {
					n := s.Clone()
					n.Restrict(cbs[0], flow.NilOf(cbs[0].T), flow.EQ)
					ss = append(ss, n)
					s.Restrict(cbs[0], flow.NilOf(cbs[0].T), flow.LT|flow.GT)
				}
				for _, x := range e.CallValue(s, cbs[0], b.below(cbs[0]), ci.Instr) {
					if !x.Panic && len(x.Res) == 1 {
						for _, y := range x.St.Assume(x.Res[0], true) {
							b.answered(y, true, ci.Pos)
							ss = append(ss, y)
						}
					}
				}
			}
			for _, s := range ss {
				s = s.Clone()
				if !known {
					for _, y := range after(s, released) {
						if !released {
							z := y.Clone()
							results(z, flow.Bool(true))
							z.Store(flow.FieldAddr(recv, b.nVals), e.Fresh(z, ci.Instr, "vals "+recv.Key(), types.Typ[types.Int]))
						}
						results(y, flow.Bool(false))
					}
					continue
				}
				old := b.flatten(s, recv)
				kvs, ch := b.items(s, recv)
				var moved *flow.Val
				keepKV, keepCh := append([]*flow.Val{}, kvs[:v]...), append([]*flow.Val{}, ch[:kids]...)
				var swapKV *flow.Val
				var swapAddr *flow.Val
				if ct.kind == "swap" {
					swapKV, swapAddr = b.swapTarget(s, args)
					if swapKV == nil {
						b.fail("content", s, ci.Pos, "the entry to swap with is not understood")
						continue
					}
				}
				first := swapKV != nil && v > 0 && !b.possible(s, nil, atom{b.rank(b.keyOf(s, kvs[0])), b.rank(b.keyOf(s, swapKV)), flow.LT})
				if kids == 0 {
					if first {
						moved, keepKV = keepKV[0], keepKV[1:]
					} else {
						moved, keepKV = keepKV[v-1], keepKV[:v-1]
					}
				} else {
					keepKV, keepCh = keepKV[:v-1], keepCh[:kids-1]
					if swapKV != nil {
						moved = b.newKV(s, "far")
						b.between(s, recv, moved)
					}
				}
				b.fill(s, recv, keepKV, keepCh)
				// a merge below may or may not have happened; when it has not, the node keeps its counts
				short := len(keepKV) < min
				new := b.flatten(s, recv)
				if swapKV != nil {
					gone := flow.Term("entry", nil, b.keyOf(s, swapKV), b.valOf(s, swapKV))
					tok := flow.Term("entry", nil, b.keyOf(s, moved), b.valOf(s, moved))
					if first {
						b.replaceRun(s, append([]*flow.Val{gone}, old...), append([]*flow.Val{tok}, new...))
					} else {
						b.replaceRun(s, append(append([]*flow.Val{}, old...), gone), append(append([]*flow.Val{}, new...), tok))
					}
					s.Store(swapAddr, moved)
					s.Set("swapped", 1)
				} else {
					b.replaceRun(s, old, new)
				}
				for _, y := range after(s, released) {
					if short && !released {
						results(y, flow.Bool(true))
					} else if !short {
						results(y, flow.Bool(false))
					}
				}
			}
			if known && kids > 0 {
				// removed below without this node losing an entry
				for _, s := range ss {
					s = s.Clone()
					if ct.kind == "swap" {
						continue
					}
					for _, y := range after(s, released) {
						results(y, flow.Bool(false))
					}
				}
			}
		}
	}
	return exits
}

func (b *bt) below(cb *flow.Val) []*flow.Val {
	var a []*flow.Val
	sig := sigOf(cb)
	for i := 0; i < sig.Params().Len(); i++ {
		a = append(a, flow.Root(fmt.Sprintf("below%d", i), sig.Params().At(i).Type()))
	}
	return a
}

// between: the entry lies where the child's entries lie.
func (b *bt) between(st *flow.State, child, kv *flow.Val) {
	root := b.nodeRoot(st, "root")
	kvs, kids := b.items(st, root)
	v, n, ok := b.counts(st, root)
	if !ok {
		return
	}
	r := b.rank(b.keyOf(st, kv))
	for j := 0; j < n && j < len(kids); j++ {
		if kids[j].Key() != child.Key() {
			continue
		}
		if j > 0 {
			st.Restrict(b.rank(b.keyOf(st, kvs[j-1])), r, flow.LT)
		}
		if j < v {
			st.Restrict(r, b.rank(b.keyOf(st, kvs[j])), flow.LT)
		}
	}
}

// swapTarget is the entry a swap replaces, and where it is kept.
func (b *bt) swapTarget(st *flow.State, args []*flow.Val) (kv, addr *flow.Val) {
	var n *flow.Val
	idx := -1
	for _, a := range args {
		if b.isNode(a.T) {
			n = a
		} else if i, ok := flow.IntVal(a); ok {
			idx = int(i)
		}
	}
	if n == nil || idx < 0 {
		return nil, nil
	}
	l := b.e.LoadField(st, n, b.nKV)
	el, ok := b.e.Elems(st, l)
	if !ok || idx >= len(el) || st.IsNil(el[idx]) == 1 {
		return nil, nil
	}
	return el[idx], flow.IndexAddr(l.Args[0], flow.Int(int64(idx)), b.nKV.Type().(*types.Slice).Elem())
}

// ---- driving ----

func btreeCheck(c *Ctx) error {
	sizes := []int{2}
	if c.Thorough {
		sizes = append(sizes, 3)
	}
	for _, size := range sizes {
		b := &bt{c: c, size: size}
		if err := b.find(); err != nil {
			return err
		}
		b.fail = func(rule string, st *flow.State, pos token.Pos, f string, a ...any) {
			if _, ok := c.Rules[rule]; ok {
				c.Fail(rule, b.name, c.P.Pos(pos), fmt.Sprintf(f, a...), b.e.Witness(st.Tr, 40)...)
			}
		}
		b.run()
	}
	return nil
}

func (b *bt) ob(rule string) {
	if _, ok := b.c.Rules[rule]; ok {
		b.c.Ob(rule, b.name)
	}
}

func (b *bt) engine() {
	b.e = b.c.Engine(b.hooks())
	b.e.Unroll = b.size + 3
	b.e.MaxStates = 3000000
}

func (b *bt) shapes(bare bool) []btShape {
	out := []btShape{{vals: 0}}
	for n := 1; n <= b.size; n++ {
		out = append(out, btShape{vals: n})
	}
	min := (b.size+2)/2 - 1
	for n := 1; n <= b.size; n++ {
		if bare {
			out = append(out, btShape{vals: n, kids: make([]int, n+1), bare: true})
			continue
		}
		var rec func(kids []int)
		rec = func(kids []int) {
			if len(kids) == n+1 {
				for _, deep := range []bool{false, true} {
					out = append(out, btShape{vals: n, kids: append([]int{}, kids...), deep: deep})
				}
				return
			}
			for v := min; v <= b.size; v++ {
				rec(append(append([]int{}, kids...), v))
			}
		}
		rec(nil)
	}
	return out
}

func (b *bt) run() {
	c := b.c
	b.contracts = map[*ssa.Function]*btContract{}
	rec := b.recursive()
	// how each recursive method finds its own lock
	for _, fn := range rec {
		b.name = c.fn(fn)
		b.inferred = map[string]bool{}
		for n := 0; n <= b.size; n++ {
			b.engine()
			st := flow.NewState()
			root := b.build(st, btShape{vals: n})
			b.infer = b.e.LoadField(st, root, b.nLock).Key()
			b.node1(fn, st, root)
		}
		b.infer = ""
		if len(b.inferred) != 1 {
			b.fail("released", flow.NewState(), fn.Pos(), "its own lock is not treated the same way on every path")
		}
		ct := &btContract{kind: b.kindOf(fn)}
		for m := range b.inferred {
			if ct.mode == "" {
				ct.mode = m
			}
		}
		b.contracts[fn] = ct
	}
	// the recursive methods that change or sweep nodes, by themselves
	for _, fn := range rec {
		ct := b.contracts[fn]
		if ct.kind == "query" {
			continue
		}
		for _, sh := range b.shapes(ct.kind == "sweep") {
			b.name = c.fn(fn) + " on " + sh.String()
			for _, swapFirst := range []bool{false, true} {
				if swapFirst && ct.kind != "swap" || ct.kind == "swap" && sh.vals == 0 {
					continue
				}
				b.engine()
				st := flow.NewState()
				root := b.build(st, sh)
				if ct.mode != "" {
					st.Set(ct.mode+":"+b.e.LoadField(st, root, b.nLock).Key(), 1)
				}
				b.swapFirst, b.start = swapFirst, sh.vals
				b.standalone(fn, ct, st, root)
				c.Done("released", b.e)
			}
		}
	}
	b.publics()
}

// node1 runs a node method from a state.
func (b *bt) node1(fn *ssa.Function, st *flow.State, root *flow.Val) []flow.Exit {
	b.public, b.query = false, false
	b.kvsNote(st)
	args := []*flow.Val{root}
	sig := fn.Signature
	b.cbs = nil
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		v := flow.Root(fmt.Sprintf("arg%d", i), p.Type())
		switch t := p.Type().Underlying().(type) {
		case *types.Signature:
			if t.Params().Len() == 0 && t.Results().Len() == 0 || b.kindOf(fn) != "remove" {
				st.Restrict(v, flow.NilOf(v.T), flow.LT|flow.GT)
			}
			if t.Params().Len() > 0 || t.Results().Len() > 0 {
				b.cbs = append(b.cbs, v)
			}
		case *types.Pointer:
			if b.isNode(p.Type()) {
				v = b.swapNode(st)
			}
		case *types.Basic:
			if t.Info()&types.IsInteger != 0 {
				v = flow.Int(0) // where the swapped entry is kept; or the tree's node size
				if !b.takesNode(fn) {
					v = flow.Int(int64(b.size))
				}
			}
		case *types.Struct:
			if types.Identical(p.Type(), b.ev) {
				st.MonV["key"] = v
			}
		}
		args = append(args, v)
	}
	return b.e.Analyze(fn, args, nil, st)
}

func (b *bt) kvsNote(st *flow.State) {}

func (b *bt) takesNode(fn *ssa.Function) bool {
	p := fn.Signature.Params()
	for i := 0; i < p.Len(); i++ {
		if b.isNode(p.At(i).Type()) {
			return true
		}
	}
	return false
}

// swapNode is an inner node further up whose entry is being deleted.
func (b *bt) swapNode(st *flow.State) *flow.Val {
	n := b.nodeRoot(st, "upper")
	kv := b.newKV(st, "upper")
	k := b.keyOf(st, kv)
	st.Restrict(b.typ(k), flow.Int(typeAny), flow.LT)
	if len(b.kvs) > 0 {
		if b.swapFirst {
			st.Restrict(b.rank(k), b.rank(b.keyOf(st, b.kvs[0])), flow.LT)
		} else {
			st.Restrict(b.rank(b.keyOf(st, b.kvs[len(b.kvs)-1])), b.rank(k), flow.LT)
		}
	}
	b.fill(st, n, []*flow.Val{kv}, nil)
	b.shaped[n.Key()] = true
	lk := b.e.LoadField(st, n, b.nLock).Key()
	b.pos[lk], b.label[lk] = 0, "the node whose entry is deleted"
	st.Set("W:"+lk, 1)
	tok := flow.Term("entry", nil, k, b.valOf(st, kv))
	seq := st.MonV["seq"].Args
	if b.swapFirst {
		st.MonV["seq"] = flow.Term("seq", nil, append([]*flow.Val{tok}, seq...)...)
	} else {
		st.MonV["seq"] = flow.Term("seq", nil, append(append([]*flow.Val{}, seq...), tok)...)
	}
	return n
}

func (b *bt) standalone(fn *ssa.Function, ct *btContract, st *flow.State, root *flow.Val) {
	b.ob("released")
	b.ob("order")
	if ct.kind != "sweep" {
		b.ob("guarded")
		b.ob("content")
	}
	key := flow.Root("none", b.ev)
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if p := fn.Signature.Params().At(i); types.Identical(p.Type(), b.ev) {
			key = flow.Root(fmt.Sprintf("arg%d", i), p.Type())
		}
	}
	exits := b.node1(fn, st, root)
	upper := flow.Root("upper", types.NewPointer(b.node))
	rootLock := b.e.LoadField(st, root, b.nLock).Key()
	for _, x := range exits {
		s := x.St
		if x.Panic {
			b.fail("released", s, x.Pos, "this path ends in a crash")
			continue
		}
		for k := range s.Mon {
			if !strings.HasPrefix(k, "W:") && !strings.HasPrefix(k, "R:") {
				continue
			}
			if ct.kind == "swap" && k[2:] == b.e.LoadField(s, upper, b.nLock).Key() {
				continue
			}
			if k[2:] == rootLock && ct.mode == "" {
				b.fail("released", s, x.Pos, "it comes back with its own lock still held")
				continue
			}
			b.fail("released", s, x.Pos, "it comes back with %s still locked", b.lockName(k[2:]))
		}
		var asks *flow.Val
		var newRoot *flow.Val
		for _, r := range x.Res {
			if b.isNode(r.T) && s.IsNil(r) != 1 {
				newRoot = r
			}
			if bt, ok := r.T.Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
				asks = r
			}
		}
		if s.Mon["released"] > 0 && (newRoot != nil || asks != nil && s.Truth(asks) != 0) {
			b.fail("guarded", s, x.Pos, "its ancestors are asked for a change after their locks were released")
		}
		if ct.kind == "sweep" {
			continue
		}
		want := s.MonV["seq"].Args
		if newRoot != nil {
			if got := b.flatten(s, newRoot); !b.sameCreate(s, key, want, got) {
				b.fail("content", s, x.Pos, "the split node holds %s, but should hold %s", describeSeq(got), describeSeq(want))
			}
			continue
		}
		got := b.flatten(s, root)
		switch ct.kind {
		case "create":
			if !b.sameCreate(s, key, want, got) {
				b.fail("content", s, x.Pos, "the node holds %s, but should hold %s (new: %v, declined: %v)", describeSeq(got), describeSeq(want), s.Mon["agreed"] > 0, s.Mon["declined"] > 0)
			}
			v, _, ok := b.counts(s, root)
			if ok && v > b.size {
				b.fail("content", s, x.Pos, "the node is left with more entries than fit, unsplit")
			}
		case "remove", "swap":
			if ct.kind == "swap" {
				kvs, _ := b.items(s, upper)
				t := flow.Term("entry", nil, b.keyOf(s, kvs[0]), b.valOf(s, kvs[0]))
				if b.swapFirst {
					got = append([]*flow.Val{t}, got...)
				} else {
					got = append(append([]*flow.Val{}, got...), t)
				}
				gone := flow.Root("kupper", b.ev).Key()
				want = without(want, gone)
			}
			if !b.sameRemove(s, ct, key, want, got) {
				b.fail("content", s, x.Pos, "what is left is %s, but should be %s", describeSeq(got), describeSeq(want))
			}
			v, _, ok := b.counts(s, root)
			min := (b.size+2)/2 - 1
			if ok && asks != nil && b.start > min-1 {
				if t := s.Truth(asks); t == 1 && v >= min {
					b.fail("content", s, x.Pos, "the node asks to be refilled although it has enough entries")
				} else if t == 0 && v < min {
					b.fail("content", s, x.Pos, "the node is left with too few entries and does not say so")
				}
			}
		}
	}
}

func without(seq []*flow.Val, key string) []*flow.Val {
	var out []*flow.Val
	for _, t := range seq {
		if len(t.Args) > 0 && t.Args[0].Key() == key {
			continue
		}
		out = append(out, t)
	}
	return out
}

// sameCreate: the entries are the expected ones, plus a new one in its place if the caller made one at this level.
func (b *bt) sameCreate(s *flow.State, key *flow.Val, want, got []*flow.Val) bool {
	if seqKey(want) == seqKey(got) {
		return s.Mon["agreed"] == 0 || s.Mon["below"] > 0
	}
	if s.Mon["agreed"] == 0 || len(got) != len(want)+1 {
		return false
	}
	for i, t := range got {
		if len(t.Args) == 2 && t.Args[0].Key() == key.Key() && flow.Strip(t.Args[1]).Key() == "$created;" {
			rest := append(append([]*flow.Val{}, got[:i]...), got[i+1:]...)
			if seqKey(rest) != seqKey(want) {
				return false
			}
			var as []atom
			if i > 0 && len(got[i-1].Args) == 2 {
				as = append(as, atom{b.rank(got[i-1].Args[0]), b.rank(key), flow.LT})
			}
			if i+1 < len(got) && len(got[i+1].Args) == 2 {
				as = append(as, atom{b.rank(key), b.rank(got[i+1].Args[0]), flow.LT})
			}
			for _, a := range as {
				if b.possible(s, []*flow.Val{key}, atom{a.x, a.y, allRel &^ a.bits}) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// sameRemove: nothing is missing but the entry the caller agreed to delete.
func (b *bt) sameRemove(s *flow.State, ct *btContract, key *flow.Val, want, got []*flow.Val) bool {
	if ct.kind == "swap" {
		return seqKey(want) == seqKey(got)
	}
	hit := s.MonV["hit"]
	var cb *flow.Val
	if len(b.cbs) == 1 {
		cb = b.cbs[0]
	}
	// which entry of this node is the one to delete
	goneKey := ""
	for _, kv := range b.kvs {
		k := b.keyOf(s, kv)
		if !b.possible(s, []*flow.Val{key}, atom{b.rank(k), b.rank(key), flow.LT | flow.GT}) {
			goneKey = k.Key()
		}
	}
	if goneKey == "" || s.Mon["stopped"] > 0 || cb != nil && hit == nil && s.IsNil(cb) == 0 {
		return seqKey(want) == seqKey(got)
	}
	return seqKey(without(want, goneKey)) == seqKey(got)
}

func describeSeq(vs []*flow.Val) string {
	var out []string
	for _, v := range vs {
		if v.S == "entry" {
			out = append(out, strings.Trim(v.Args[0].Key(), "$;"))
		} else {
			out = append(out, "["+strings.Trim(v.Key(), "$;")+"]")
		}
	}
	return strings.Join(out, " ")
}

func (b *bt) publics() {
	c := b.c
	for _, name := range []string{"Create", "CreateOrFind", "Find", "FindNotEqual", "FindLessThan", "FindLessThanOrEqual", "FindGreaterThan", "FindGreaterThanOrEqual", "Delete", "Destroy", "DestroyAll", "Empty"} {
		fn, err := c.P.Method("internal/datastructures/btree", b.tree.Obj().Name(), name)
		if err != nil {
			b.name = name
			b.fail("released", flow.NewState(), token.NoPos, "%v", err)
			continue
		}
		b.op = name
		shapes := append([]btShape{{vals: -1}}, b.shapes(true)...)
		for _, sh := range shapes {
			keys := []int{0}
			if sh.vals == 1 && sh.kids == nil {
				keys = []int{0, 1, 2}
			}
			for _, nk := range keys {
				b.name = c.fn(fn)
				b.engine()
				b.public = true
				b.query = strings.HasPrefix(name, "Find")
				st := flow.NewState()
				b.publicRun(fn, st, sh, nk)
				c.Done("released", b.e)
			}
		}
	}
}

func (b *bt) publicRun(fn *ssa.Function, st *flow.State, sh btShape, nk int) {
	c := b.c
	tree := b.treeRoot()
	st.Restrict(tree, flow.NilOf(tree.T), flow.LT|flow.GT)
	var root *flow.Val
	if sh.vals >= 0 {
		root = b.build(st, sh)
		st.Store(flow.FieldAddr(tree, b.tRoot), root)
	} else {
		b.build(st, btShape{vals: 0})
		b.kvs, b.shaped = nil, map[string]bool{}
		delete(st.MonV, "seq")
		st.Store(flow.FieldAddr(tree, b.tRoot), flow.NilOf(b.tRoot.Type()))
	}
	st.Store(flow.FieldAddr(tree, b.tSize), flow.Int(int64(b.size)))
	b.treeLockKey = b.e.LoadField(st, tree, b.tLock).Key()
	b.keysLockKey = b.e.LoadField(st, tree, b.tKeysLock).Key()
	b.label[b.treeLockKey], b.label[b.keysLockKey] = "the tree", "the list of keys being destroyed"
	for k := range b.pos {
		b.pos[k] += 1
	}
	b.pos[b.treeLockKey] = 1
	var ds []*flow.Val
	for i := 0; i < nk; i++ {
		ds = append(ds, flow.Root(fmt.Sprintf("destroyed%d", i), b.ev))
	}
	st.MonV["destroyed"] = flow.Tup(ds...)
	if nk == 2 {
		st.Restrict(ds[0], ds[1], flow.LT|flow.GT)
	}
	st.Store(flow.FieldAddr(tree, b.tKeys), b.e.NewSlice(st, "destroying", b.tKeys.Type(), ds...))
	args := []*flow.Val{tree}
	b.cbs = nil
	var key, restr *flow.Val
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		p := fn.Signature.Params().At(i)
		v := flow.Root(fmt.Sprintf("arg%d", i), p.Type())
		switch {
		case types.Identical(p.Type(), b.ev):
			key = v
			st.MonV["key"] = v
		case typeIs(p.Type(), "/common/v1", "TypeRestrictions"):
			restr = v
			st.MonV["restr"] = v
		case sigOf(v) != nil:
			b.cbs = append(b.cbs, v)
		}
		args = append(args, v)
	}
	for _, r := range []string{"released", "order", "refused"} {
		b.ob(r)
	}
	if key != nil || len(b.cbs) > 0 {
		b.ob("validated")
	}
	switch b.op {
	case "DestroyAll":
		b.ob("drained")
	case "Destroy":
		b.ob("recorded")
	case "Empty":
		b.ob("empty")
	case "Create", "CreateOrFind":
		b.ob("callbacks")
	}
	for _, x := range b.e.Analyze(fn, args, nil, st) {
		s := x.St
		if x.Panic {
			b.fail("released", s, x.Pos, "on %s this path ends in a crash", sh)
			continue
		}
		if h := b.held(s); len(h) > 0 {
			b.fail("released", s, x.Pos, "on %s it comes back with %s still locked", sh, strings.Join(h, " and "))
		}
		if s.Mon["wg"] != 0 {
			b.fail("refused", s, x.Pos, "an operation is not signed off (or signed off twice), so a destroy would wait forever or not at all")
		}
		if b.op == "Empty" {
			v, _, ok := 0, 0, true
			if root != nil {
				v, _, ok = b.counts(s, root)
			}
			if t := s.Truth(x.Res[0]); !ok || t < 0 || (t == 1) != (v == 0) {
				b.fail("empty", s, x.Pos, "on %s it answers %v", sh, t == 1)
			}
			continue
		}
		failed := len(x.Res) > 0 && s.IsNil(x.Res[len(x.Res)-1]) != 1
		ok := len(x.Res) > 0 && s.IsNil(x.Res[len(x.Res)-1]) != 0
		if ok && b.op != "DestroyAll" {
			if m := b.missing(s); len(m) > 0 {
				b.fail("validated", s, x.Pos, "success is answered although the %s was not valid", strings.Join(m, ", "))
			}
			if s.Mon["touched"] == 0 {
				b.fail("refused", s, x.Pos, "success is answered without the tree being asked")
			}
		}
		if failed && s.Mon["touched"] > 0 && b.op != "Create" {
			b.fail("refused", s, x.Pos, "an error is answered after the tree was reached")
		}
		if !b.query {
			now := b.e.LoadField(s, tree, b.tRoot)
			for {
				// the only child of a node without entries holds all that the node held
				at := flow.LoadAddr(now)
				if at == nil || at.K != flow.KAddr || at.Field != nil {
					break
				}
				arr := flow.LoadAddr(at.Args[0])
				if arr != nil && arr.K == flow.KAddr {
				}
				if arr == nil || arr.K != flow.KAddr || arr.Field == nil || !b.isNode(arr.Args[0].T) || s.Rel(b.e.LoadField(s, arr.Args[0], b.nVals), int64c(0)) != flow.EQ {
					break
				}
				now = arr.Args[0]
			}
			var got []*flow.Val
			if s.IsNil(now) != 1 {
				got = b.flatten(s, now)
				if v, k, known := b.counts(s, now); known && v == 0 && k > 0 {
					b.fail("content", s, x.Pos, "on %s the root is left with children but no entries", sh)
				}
			}
			var want []*flow.Val
			if q := s.MonV["seq"]; q != nil {
				want = q.Args
			}
			b.ob("content")
			k := key
			if k == nil {
				k = flow.Root("none", b.ev)
			}
			if !b.sameCreate(s, k, want, got) {
				b.fail("content", s, x.Pos, "on %s the tree is left with %s, but should hold %s", sh, describeSeq(got), describeSeq(want))
			}
			if b.op == "DestroyAll" && ok && s.Mon["stopped"] == 0 && root != nil {
				for _, kv := range b.kvs {
					if s.Mon["rm:"+b.keyOf(s, kv).Key()] == 0 {
						b.fail("content", s, x.Pos, "on %s an entry is not destroyed", sh)
					}
				}
				for j := range sh.kids {
					if s.Mon["rm:"+b.keyBelow(flow.Root(fmt.Sprintf("c%d", j), root.T)).Key()] == 0 {
						b.fail("content", s, x.Pos, "on %s the entries below a child are not destroyed", sh)
					}
				}
			}
		}
		switch b.op {
		case "Find", "FindNotEqual", "FindLessThan", "FindLessThanOrEqual", "FindGreaterThan", "FindGreaterThanOrEqual":
			if ok && s.Mon["stopped"] == 0 {
				b.coverage(s, x.Pos, sh, key, restr)
			}
			b.ob("members")
			b.ob("stops")
		case "DestroyAll":
			if s.Mon["cas"] > 0 {
				b.fail("drained", s, x.Pos, "the tree stays closed after it was destroyed")
			}
			if ok && s.Mon["lost"] > 0 {
				b.fail("drained", s, x.Pos, "success is answered although someone else is destroying the tree")
			}
		case "Destroy":
			cur, known := b.e.Elems(s, b.e.LoadField(s, tree, b.tKeys))
			if !known || !sameSet(cur, ds) {
				b.fail("recorded", s, x.Pos, "the keys recorded as being destroyed are not what they were before")
			}
		case "Create":
			n := s.Mon["called:create"]
			if ok && n != 1 || failed && n != 0 {
				b.fail("callbacks", s, x.Pos, "on %s the create callback runs %d times", sh, n)
			}
		case "CreateOrFind":
			if n := s.Mon["called:create"] + s.Mon["called:find"]; ok && n != 1 || failed && n != 0 {
				b.fail("callbacks", s, x.Pos, "on %s the callbacks run %d times", sh, n)
			}
		}
	}
	_ = c
}

func sameSet(a, b []*flow.Val) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[string]int{}
	for _, v := range a {
		m[v.Key()]++
	}
	for _, v := range b {
		m[v.Key()]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

// spec is what a range operation should offer of a key x.
func (b *bt) spec(op string, x, key, restr *flow.Val) dnf {
	lo, hi := b.restr(restr)
	tx, rx, rk := b.typ(x), b.rank(x), b.rank(key)
	any := flow.Int(typeAny)
	in := []atom{{lo, tx, flow.LT | flow.EQ}, {tx, hi, flow.LT | flow.EQ}}
	with := func(bits int) []atom { return append([]atom{{rx, rk, bits}}, in...) }
	anyPart := []atom{{tx, any, flow.EQ}, {hi, any, flow.EQ}}
	switch op {
	case "Find":
		tk := b.typ(key)
		return dnf{
			append([]atom{{tk, any, flow.LT}}, with(flow.EQ)...),
			append([]atom{{tk, any, flow.LT}}, anyPart...),
			append([]atom{{tk, any, flow.EQ}}, in...),
		}
	case "FindNotEqual":
		return dnf{with(flow.LT | flow.GT)}
	case "FindLessThan":
		return dnf{with(flow.LT), anyPart}
	case "FindLessThanOrEqual":
		return dnf{with(flow.LT | flow.EQ), anyPart}
	case "FindGreaterThan":
		return dnf{with(flow.GT)}
	case "FindGreaterThanOrEqual":
		return dnf{with(flow.GT | flow.EQ)}
	}
	return nil
}

// coverage compares what was offered with what should have been, per visit of the tree and overall.
func (b *bt) coverage(s *flow.State, pos token.Pos, sh btShape, key, restr *flow.Val) {
	spec := func(x *flow.Val) dnf { return b.spec(b.op, x, key, restr) }
	n := s.Mon["inv"]
	part := func(i int, x *flow.Val) dnf {
		a := s.MonV[fmt.Sprintf("inv%d", i)]
		for _, v := range a.Args {
			if typeIs(v.T, "/common/v1", "TypeRestrictions") {
				if b.op == "Find" {
					lo, hi := b.restr(v)
					return dnf{{{lo, b.typ(x), flow.LT | flow.EQ}, {b.typ(x), hi, flow.LT | flow.EQ}}}
				}
				return dnf{spec(x)[0]}
			}
		}
		for _, v := range a.Args {
			if types.Identical(v.T, b.ev) {
				return dnf{{{b.rank(x), b.rank(v), flow.EQ}}}
			}
		}
		return nil
	}
	x := flow.Root("x", b.ev)
	if sh.vals >= 0 {
		// overall: the visits together ask for exactly what should be offered, once
		for _, conj := range spec(x) {
			negs := dnf{{}}
			for i := 1; i <= n; i++ {
				var next dnf
				for _, p := range negs {
					for _, q := range negations(part(i, x)) {
						next = append(next, append(append([]atom{}, p...), q...))
					}
				}
				negs = next
			}
			if b.possibleAny(s, []*flow.Val{x, key}, negs, conj...) {
				b.fail("members", s, pos, "an entry that matches may not be asked for")
			}
		}
		for i := 1; i <= n; i++ {
			for _, conj := range part(i, x) {
				if b.possibleAny(s, []*flow.Val{x, key}, negations(spec(x)), conj...) {
					b.fail("members", s, pos, "entries that do not match may be offered")
				}
				for j := 1; j < i; j++ {
					if b.possibleAny(s, []*flow.Val{x, key}, part(j, x), conj...) {
						b.fail("members", s, pos, "an entry may be offered twice")
					}
				}
			}
		}
	}
	root := b.nodeRoot(s, "root")
	if sh.vals < 0 {
		return
	}
	kvs, kids := b.items(s, root)
	v, k, ok := b.counts(s, root)
	if !ok {
		return
	}
	for i := 1; i <= n; i++ {
		for p := 0; p < v; p++ {
			kk := b.keyOf(s, kvs[p])
			times := s.Mon[fmt.Sprintf("visit:%d:%s", i, kvs[p].Key())]
			if times > 1 {
				b.fail("members", s, pos, "on %s an entry is offered twice", sh)
			}
			if times > 0 {
				if b.possibleAny(s, []*flow.Val{kk, key}, negations(part(i, kk))) {
					b.fail("members", s, pos, "on %s entry %d is offered although it may not match", sh, p)
				}
			} else if b.possibleAny(s, []*flow.Val{kk, key}, part(i, kk)) {
				b.fail("members", s, pos, "on %s entry %d is not offered although it may match", sh, p)
			}
		}
		for j := 0; j < k; j++ {
			if s.Mon[fmt.Sprintf("rec:%d:%s", i, kids[j].Key())] > 0 {
				continue
			}
			var as []atom
			if j > 0 {
				as = append(as, atom{b.rank(b.keyOf(s, kvs[j-1])), b.rank(x), flow.LT})
			}
			if j < v {
				as = append(as, atom{b.rank(x), b.rank(b.keyOf(s, kvs[j])), flow.LT})
			}
			if b.possibleAny(s, []*flow.Val{x, key}, part(i, x), as...) {
				b.fail("members", s, pos, "on %s child %d is passed over although it may hold an entry that matches", sh, j)
			}
		}
	}
}
