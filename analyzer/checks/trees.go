package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
)

// TreeModel gives the three tree packages their documented meaning, so that the code using them can be analysed
// without entering the trees (which have their own rules):
//   - create-or-find calls exactly one of its callbacks, or fails without calling any
//   - a keyed lookup or delete calls its callback at most once; the entry goes iff the callback agrees
//   - an iteration calls its callback any number of times and stops when it returns false
type TreeModel struct {
	// Present: 1 the key must exist, 0 it cannot, -1 unknown
	Present func(e *flow.Engine, st *flow.State, tree, key *flow.Val, op string) int
	// Err: may the operation fail with an error?
	Err func(tree *flow.Val, op string) bool

	// Errs lists the errors an operation can fail with (default: an unknown one)
	Errs func(e *flow.Engine, st *flow.State, tree *flow.Val, op string) []*flow.Val
	// Item names the entry stored under a key (nil: an unknown one)
	Item func(e *flow.Engine, st *flow.State, tree, key *flow.Val, op string, t types.Type) *flow.Val

	// IterKey makes the key of an entry met in an iteration (nil: the key searched for)
	IterKey func(e *flow.Engine, st *flow.State, t types.Type, in ssa.Instruction) *flow.Val

	OnCreate func(e *flow.Engine, st *flow.State, tree, key, val *flow.Val, in ssa.Instruction)
	OnRemove func(e *flow.Engine, st *flow.State, tree, key, item *flow.Val, in ssa.Instruction)
	// Once limits an iteration to one entry
	Once bool
	// OnEnter/OnLeave bracket each callback
	OnEnter func(e *flow.Engine, st *flow.State, op string, tree, key, item *flow.Val, in ssa.Instruction)
	OnLeave func(e *flow.Engine, st *flow.State, op string, tree, key, item *flow.Val, cont int, in ssa.Instruction)
	// OnOp is told about each outcome of an operation: "error", "absent", "called", "created", "found", "removed", "kept", "done"
	OnOp func(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction)
}

const (
	pkgBtree = "/datastructures/btree"
	pkgAssoc = "/datastructures/btree_associated"
	pkgO2M   = "/datastructures/btree_one_to_many"
)

// treeKind tells which tree interface (or implementation) a callee belongs to, and the operation.
func treeKind(c *flow.CallInfo) (kind, op string, recv *flow.Val, args []*flow.Val) {
	var m *types.Func
	if c.Method != nil {
		m, recv, args = c.Method, c.Recv, c.Args
	} else if c.Fn != nil && c.Fn.Signature.Recv() != nil && len(c.Args) > 0 {
		m, _ = c.Fn.Object().(*types.Func)
		recv, args = c.Args[0], c.Args[1:]
	}
	if m == nil || m.Pkg() == nil || !m.Exported() {
		return
	}
	switch {
	case strings.HasSuffix(m.Pkg().Path(), pkgBtree):
		if n := recvTypeName(m); n == "BTree" || n == "threadSafeBTree" {
			return "btree", m.Name(), recv, args
		}
	case strings.HasSuffix(m.Pkg().Path(), pkgAssoc):
		if n := recvTypeName(m); n == "BTreeAssociated" || n == "threadsafeAssociatedTree" {
			return "assoc", m.Name(), recv, args
		}
	case strings.HasSuffix(m.Pkg().Path(), pkgO2M):
		if n := recvTypeName(m); n == "BTreeOneToMany" || n == "threadsafeOneToManyTree" {
			return "o2m", m.Name(), recv, args
		}
	}
	return "", "", nil, nil
}

func errType() types.Type { return types.Universe.Lookup("error").Type() }

func nilErr() *flow.Val { return flow.NilOf(errType()) }

func freshErr(e *flow.Engine, st *flow.State, in ssa.Instruction, tag string) *flow.Val {
	v := e.Fresh(st, in, tag, errType())
	st.Restrict(v, nilErr(), flow.LT|flow.GT)
	return v
}

func (m *TreeModel) present(e *flow.Engine, st *flow.State, tree, key *flow.Val, op string) int {
	if m.Present == nil {
		return -1
	}
	return m.Present(e, st, tree, key, op)
}
func (m *TreeModel) op(e *flow.Engine, st *flow.State, op, outcome string, tree, key *flow.Val, in ssa.Instruction) {
	if m.OnOp != nil {
		m.OnOp(e, st, op, outcome, tree, key, in)
	}
}

// Call models one operation; ok=false if the callee is no tree operation.
func (m *TreeModel) Call(e *flow.Engine, st *flow.State, c *flow.CallInfo) ([]flow.Exit, bool) {
	kind, op, tree, args := treeKind(c)
	if kind == "" {
		return nil, false
	}
	in := c.Instr
	name := kind + "." + op
	var out []flow.Exit
	nres := 0
	if c.Res != nil {
		nres = c.Res.Len()
	}
	ret := func(s *flow.State, vals ...*flow.Val) { out = append(out, flow.Exit{St: s, Res: vals, Pos: c.Pos}) }
	withErr := func(s *flow.State, id, err *flow.Val) {
		if nres == 2 {
			ret(s, id, err)
		} else {
			ret(s, err)
		}
	}
	canErr := m.Err == nil || m.Err(tree, name)
	anyT := types.NewInterfaceType(nil, nil)

	mkKey := func(n int) *flow.Val {
		if n == 0 {
			return flow.Str("")
		}
		return flow.Tup(args[:n]...)
	}
	errExit := func(key *flow.Val) {
		if !canErr {
			return
		}
		if m.Errs != nil {
			for _, v := range m.Errs(e, st, tree, name) {
				s := st.Clone()
				m.op(e, s, name, "error", tree, key, in)
				s.Note(c.Pos, "%s fails", name)
				withErr(s, flow.Str(""), v)
			}
			return
		}
		s := st.Clone()
		m.op(e, s, name, "error", tree, key, in)
		s.Note(c.Pos, "%s fails", name)
		withErr(s, flow.Str(""), freshErr(e, s, in, "err"))
	}
	itemOf := func(s *flow.State, key *flow.Val, t types.Type, fresh bool) *flow.Val {
		var v *flow.Val
		if m.Item != nil {
			if v = m.Item(e, s, tree, key, name, t); v != nil {
				return v
			}
		}
		if fresh {
			v = e.Fresh(s, in, "item", t)
		} else {
			v = flow.Term("item", t, treeIdent(tree), key)
		}
		s.Restrict(v, flow.NilOf(t), flow.LT|flow.GT)
		return v
	}
	call := func(s *flow.State, cb *flow.Val, a []*flow.Val, key, item *flow.Val) []flow.Exit {
		if m.OnEnter != nil {
			m.OnEnter(e, s, name, tree, key, item, in)
		}
		ex := e.CallValue(s, cb, a, in)
		var r []flow.Exit
		for _, x := range ex {
			if x.Panic {
				out = append(out, x)
				continue
			}
			r = append(r, x)
		}
		return r
	}
	// split on a boolean result
	split := func(x flow.Exit) (yes, no []*flow.State) {
		if len(x.Res) == 0 {
			return []*flow.State{x.St}, nil
		}
		return x.St.Assume(x.Res[0], true), x.St.Assume(x.Res[0], false)
	}
	leave := func(s *flow.State, key, item *flow.Val, cont int) {
		if m.OnLeave != nil {
			m.OnLeave(e, s, name, tree, key, item, cont, in)
		}
	}
	sigParam := func(cb *flow.Val, i int) types.Type {
		if cb.T != nil {
			if sg, ok := cb.T.Underlying().(*types.Signature); ok && i < sg.Params().Len() {
				return sg.Params().At(i).Type()
			}
		}
		return anyT
	}
	idOf := func(s *flow.State) *flow.Val { return e.Fresh(s, in, "id", types.Typ[types.String]) }

	create := func(s *flow.State, cb, key *flow.Val) {
		for _, x := range call(s, cb, nil, key, nil) {
			v := flow.NilOf(anyT)
			if len(x.Res) > 0 {
				v = x.Res[0]
			}
			for _, bits := range []int{flow.EQ, flow.LT | flow.GT} {
				n := x.St.Clone()
				if !n.Restrict(v, flow.NilOf(v.T), bits) {
					continue
				}
				leave(n, key, v, 1)
				if bits == flow.EQ {
					m.op(e, n, name, "declined", tree, key, in)
				} else {
					if m.OnCreate != nil {
						m.OnCreate(e, n, tree, key, v, in)
					}
					m.op(e, n, name, "created", tree, key, in)
				}
				withErr(n, idOf(n), nilErr())
			}
		}
	}
	cbArgs := func(cb, key, item *flow.Val) []*flow.Val {
		if kind == "btree" && cb.T != nil {
			if sg, ok := flow.Strip(cb).T.Underlying().(*types.Signature); ok && sg.Params().Len() == 2 {
				k := key
				if key.K == flow.KTuple && len(key.Args) > 0 {
					k = key.Args[0]
				}
				return []*flow.Val{k, item}
			}
		}
		return []*flow.Val{item}
	}
	iterate := func(cb, key *flow.Val) {
		seen := map[string]bool{}
		wl := []*flow.State{st.Clone()}
		emit := func(s *flow.State) {
			f := s.Clone()
			m.op(e, f, name, "done", tree, key, in)
			withErr(f, flow.Str(""), nilErr())
		}
		for len(wl) > 0 {
			s := wl[len(wl)-1]
			wl = wl[:len(wl)-1]
			k := s.Key()
			if seen[k] {
				continue
			}
			seen[k] = true
			emit(s)
			n := s.Clone()
			it := itemOf(n, key, sigParam(flow.Strip(cb), len(cbArgs(cb, key, nil))-1), true)
			n.Note(c.Pos, "%s calls back", name)
			as := cbArgs(cb, key, it)
			if m.IterKey != nil && len(as) == 2 {
				as[0] = m.IterKey(e, n, as[0].T, in)
				n.MonV["iterkey"] = as[0]
			}
			for _, x := range call(n, cb, as, key, it) {
				yes, no := split(x)
				for _, y := range yes {
					leave(y, key, it, 1)
					if m.Once {
						emit(y)
						continue
					}
					wl = append(wl, y)
				}
				for _, y := range no {
					leave(y, key, it, 0)
					emit(y)
				}
			}
		}
	}
	remove := func(cb, key *flow.Val) {
		p := m.present(e, st, tree, key, name)
		if p != 1 {
			s := st.Clone()
			s.Note(c.Pos, "%s: nothing under the key", name)
			m.op(e, s, name, "absent", tree, key, in)
			withErr(s, flow.Str(""), nilErr())
		}
		if p != 0 {
			s := st.Clone()
			s.Note(c.Pos, "%s: entry present", name)
			t := anyT.Underlying()
			var item *flow.Val
			if cb.K == flow.KNil {
				item = itemOf(s, key, t, false)
				if m.OnRemove != nil {
					m.OnRemove(e, s, tree, key, item, in)
				}
				m.op(e, s, name, "removed", tree, key, in)
				withErr(s, flow.Str(""), nilErr())
				return
			}
			item = itemOf(s, key, sigParam(flow.Strip(cb), len(cbArgs(cb, key, nil))-1), false)
			for _, x := range call(s, cb, cbArgs(cb, key, item), key, item) {
				yes, no := split(x)
				for _, y := range yes {
					leave(y, key, item, 1)
					if m.OnRemove != nil {
						m.OnRemove(e, y, tree, key, item, in)
					}
					m.op(e, y, name, "removed", tree, key, in)
					withErr(y, flow.Str(""), nilErr())
				}
				for _, y := range no {
					leave(y, key, item, 0)
					m.op(e, y, name, "kept", tree, key, in)
					withErr(y, flow.Str(""), nilErr())
				}
			}
		}
	}
	find := func(s0 *flow.State, cb, key *flow.Val, outcome string) {
		s := s0.Clone()
		s.Note(c.Pos, "%s: entry found", name)
		item := itemOf(s, key, sigParam(flow.Strip(cb), len(cbArgs(cb, key, nil))-1), false)
		for _, x := range call(s, cb, cbArgs(cb, key, item), key, item) {
			leave(x.St, key, item, 1)
			m.op(e, x.St, name, outcome, tree, key, in)
			withErr(x.St, idOf(x.St), nilErr())
		}
	}

	switch name {
	case "btree.Empty":
		return nil, false
	case "btree.Create", "assoc.Create":
		key := mkKey(1)
		errExit(key)
		create(st.Clone(), args[1], key)
	case "btree.CreateOrFind", "assoc.CreateOrFind", "o2m.CreateOrFind":
		n := 1
		if kind == "o2m" {
			n = 2
		}
		key := mkKey(n)
		errExit(key)
		p := m.present(e, st, tree, key, name)
		if p != 1 {
			s := st.Clone()
			s.Note(c.Pos, "%s: creating", name)
			create(s, args[n], key)
		}
		if p != 0 {
			find(st, args[n+1], key, "found")
		}
	case "btree.Find":
		key := mkKey(1)
		errExit(key)
		p := m.present(e, st, tree, key, name)
		// a key of any type finds every entry, another one only within the type restrictions
		kt, lo, hi := typeConst(e, st, args[0], "Type"), typeConst(e, st, args[1], "MinDataType"), typeConst(e, st, args[1], "MaxDataType")
		if kt == typeAny {
			iterate(args[2], key)
			break
		}
		if kt > 0 && lo > 0 && hi > 0 && hi < typeAny && (kt < lo || kt > hi) {
			p = 0
		}
		if p != 1 {
			s := st.Clone()
			s.Note(c.Pos, "%s: nothing under the key", name)
			m.op(e, s, name, "absent", tree, key, in)
			withErr(s, flow.Str(""), nilErr())
		}
		if p != 0 {
			find(st, args[2], key, "found")
		}
	case "btree.FindNotEqual", "btree.FindLessThan", "btree.FindLessThanOrEqual", "btree.FindGreaterThan", "btree.FindGreaterThanOrEqual":
		errExit(mkKey(1))
		iterate(args[2], mkKey(1))
	case "assoc.QueryAction", "assoc.MatchAction":
		errExit(mkKey(1))
		iterate(args[1], mkKey(1))
	case "o2m.QueryAction", "o2m.MatchAction":
		errExit(mkKey(2))
		iterate(args[2], mkKey(2))
	case "btree.Delete", "btree.Destroy", "assoc.Delete", "assoc.DeleteByAssociatedID", "assoc.DestroyByAssociatedID":
		errExit(mkKey(1))
		remove(args[1], mkKey(1))
	case "o2m.DestroyOneOfManyByID", "o2m.DeleteOneOfManyByKeyValues":
		errExit(mkKey(2))
		remove(args[2], mkKey(2))
	case "btree.DestroyAll", "assoc.DestroyTree":
		errExit(mkKey(0))
		iterate(args[0], mkKey(0))
	case "o2m.DestroyOne":
		errExit(mkKey(1))
		iterate(args[1], mkKey(1))
	default:
		return nil, false
	}
	if len(out) == 0 && false {
		panic(fmt.Sprint("no outcome for ", name))
	}
	return out, true
}

// treeIdent names a tree by the field it is held in, so that two loads of the same field are the same tree.
func treeIdent(tree *flow.Val) *flow.Val {
	if a := flow.LoadAddr(tree); a != nil {
		return a
	}
	return tree
}

// typeConst is the constant data type in a field of v (-1: not a constant).
func typeConst(e *flow.Engine, st *flow.State, v *flow.Val, field string) int64 {
	if f := fieldVal(e, st, v, field); f != nil {
		if i, ok := flow.IntVal(f); ok {
			return i
		}
	}
	return -1
}
