package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S01", "Shared state is read and written under its lock", checkS01)
}

// lockPath is a lock or an object as its owner function sees it: a root value and the fields followed from it.
type lockPath struct {
	root ssa.Value
	path string
}

type lockMode int // 1: shared, 2: exclusive

type lockSet map[lockPath]lockMode

func (l lockSet) clone() lockSet {
	o := lockSet{}
	for k, v := range l {
		o[k] = v
	}
	return o
}

// meet keeps what is held in both; nil is "not reached yet".
func meet(a, b lockSet) lockSet {
	if a == nil {
		return b.clone()
	}
	o := lockSet{}
	for k, v := range a {
		if w := b[k]; w > 0 {
			o[k] = min(v, w)
		}
	}
	return o
}

func sameLocks(a, b lockSet) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// lockFlow computes which locks are held at every instruction of the module.
type lockFlow struct {
	c      *Ctx
	fns    map[*ssa.Function]bool
	closed map[*ssa.Function]*ssa.MakeClosure
	stores map[ssa.Value][]ssa.Value // what is stored in a local variable, also by closures
	entry  map[*ssa.Function]lockSet
	at     map[ssa.Instruction]lockSet
	sync   map[ssa.Value]int // a function value is only called while its receiver runs: 1 yes, 2 no, 3 asked
	impls  map[*types.Func][]*ssa.Function
	users  map[*ssa.Function][]ssa.Instruction
}

func (c *Ctx) lockFlow() *lockFlow {
	f := &lockFlow{c: c, fns: map[*ssa.Function]bool{}, closed: map[*ssa.Function]*ssa.MakeClosure{}, stores: map[ssa.Value][]ssa.Value{},
		entry: map[*ssa.Function]lockSet{}, at: map[ssa.Instruction]lockSet{}, sync: map[ssa.Value]int{}, impls: map[*types.Func][]*ssa.Function{}}
	for _, fn := range c.P.AllFuncs {
		f.fns[fn] = true
	}
	for fn := range f.fns {
		eachInstr(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MakeClosure:
				f.closed[x.Fn.(*ssa.Function)] = x
			}
		})
	}
	for fn := range f.fns {
		eachInstr(fn, func(in ssa.Instruction) {
			if x, ok := in.(*ssa.Store); ok {
				if v := f.variable(x.Addr); v != nil {
					f.stores[v] = append(f.stores[v], x.Val)
				}
			}
		})
	}
	for round := 0; round < 12; round++ {
		next := map[*ssa.Function]lockSet{}
		f.at = map[ssa.Instruction]lockSet{}
		for fn := range f.fns {
			f.flow(fn)
		}
		for fn := range f.fns {
			f.passOn(fn, next)
		}
		same := true
		for fn := range f.fns {
			if !sameLocks(next[fn], f.entry[fn]) && !(len(next[fn]) == 0 && len(f.entry[fn]) == 0) {
				same = false
			}
		}
		f.entry = next
		if same {
			break
		}
	}
	return f
}

func eachInstr(fn *ssa.Function, do func(ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			do(in)
		}
	}
}

// variable is the local variable an address stands for, seen through the closures that capture it.
func (f *lockFlow) variable(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x
	case *ssa.FreeVar:
		if mc := f.closed[x.Parent()]; mc != nil {
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					return f.variable(mc.Bindings[i])
				}
			}
		}
	}
	return nil
}

// path names the object a value points to, or the variable itself.
func (f *lockFlow) path(v ssa.Value) lockPath { return f.path1(v, 0) }

func (f *lockFlow) path1(v ssa.Value, depth int) lockPath {
	if depth > 12 {
		return lockPath{root: v}
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		if a, ok := x.X.(*ssa.FieldAddr); ok {
			p := f.path1(a.X, depth+1)
			p.path += "." + structOf(deref(a.X.Type())).Field(a.Field).Name()
			return p
		}
		if a := f.variable(x.X); a != nil {
			if st := f.stores[a]; len(st) == 1 {
				return f.path1(st[0], depth+1)
			}
			return lockPath{root: a}
		}
	case *ssa.FieldAddr:
		p := f.path1(x.X, depth+1)
		p.path += "." + structOf(deref(x.X.Type())).Field(x.Field).Name()
		return p
	case *ssa.FreeVar:
		if mc := f.closed[x.Parent()]; mc != nil {
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					return f.path1(mc.Bindings[i], depth+1)
				}
			}
		}
	case *ssa.TypeAssert:
		return f.path1(x.X, depth+1)
	case *ssa.Extract:
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return f.path1(t.X, depth+1)
		}
	case *ssa.ChangeType:
		return f.path1(x.X, depth+1)
	case *ssa.ChangeInterface:
		return f.path1(x.X, depth+1)
	case *ssa.MakeInterface:
		return f.path1(x.X, depth+1)
	}
	return lockPath{root: v}
}

// lockCall recognises the locks of sync.
func lockCall(com *ssa.CallCommon) (op string, lock ssa.Value) {
	fn := com.StaticCallee()
	if fn == nil || len(com.Args) == 0 {
		return "", nil
	}
	switch fn.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "lock", com.Args[0]
	case "(*sync.RWMutex).RLock":
		return "rlock", com.Args[0]
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return "unlock", com.Args[0]
	}
	return "", nil
}

// passed stands for having held a lock of this kind on the way here.
func (f *lockFlow) passed(l ssa.Value) lockPath {
	p := f.path(l)
	i := strings.LastIndex(p.path, ".")
	if i < 0 || p.root.Type() == nil {
		return lockPath{path: "local"}
	}
	t := "?"
	switch x := l.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			t = deref(fa.X.Type()).String()
		}
	case *ssa.FieldAddr:
		t = deref(x.X.Type()).String()
	}
	return lockPath{path: "passed " + t + p.path[i:]}
}

func (f *lockFlow) flow(fn *ssa.Function) {
	if len(fn.Blocks) == 0 {
		return
	}
	in := map[*ssa.BasicBlock]lockSet{fn.Blocks[0]: f.entry[fn].clone()}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := in[b].clone()
		for _, i := range b.Instrs {
			f.at[i] = cur.clone()
			call, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			switch op, l := lockCall(&call.Call); op {
			case "lock":
				cur[f.path(l)] = 2
				cur[f.passed(l)] = 1
			case "rlock":
				cur[f.path(l)] = 1
			case "unlock":
				delete(cur, f.path(l))
			}
		}
		for _, s := range b.Succs {
			if m := meet(in[s], cur); in[s] == nil || !sameLocks(m, in[s]) {
				in[s] = m
				work = append(work, s)
			}
		}
	}
}

// targets are the functions of the module a call may run.
func (f *lockFlow) targets(com *ssa.CallCommon) []*ssa.Function {
	if com.IsInvoke() {
		if out, ok := f.impls[com.Method]; ok {
			return out
		}
		var out []*ssa.Function
		if it, ok := com.Value.Type().Underlying().(*types.Interface); ok {
			for _, t := range f.c.P.Implementers(it) {
				if sel := types.NewMethodSet(t).Lookup(com.Method.Pkg(), com.Method.Name()); sel != nil {
					if m, ok := sel.Obj().(*types.Func); ok {
						if fn := f.c.P.SSA.FuncValue(m); fn != nil && f.fns[fn] {
							out = append(out, fn)
						}
					}
				}
			}
		}
		f.impls[com.Method] = out
		return out
	}
	if fn := com.StaticCallee(); fn != nil {
		if f.fns[fn] {
			return []*ssa.Function{fn}
		}
		return nil
	}
	p := com.Value
	if u, ok := p.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a := f.variable(u.X); a != nil {
			var out []*ssa.Function
			for _, s := range f.stores[a] {
				if mc, ok := s.(*ssa.MakeClosure); ok {
					out = append(out, mc.Fn.(*ssa.Function))
				}
			}
			return out
		}
	}
	return nil
}

// passOn hands the locks held at the calls of a function on to what is called.
func (f *lockFlow) passOn(fn *ssa.Function, next map[*ssa.Function]lockSet) {
	give := func(to *ssa.Function, held lockSet) { next[to] = meet(next[to], held) }
	eachInstr(fn, func(in ssa.Instruction) {
		held := f.at[in]
		if held == nil {
			return
		}
		if mc, ok := in.(*ssa.MakeClosure); ok {
			if !f.syncValue(mc) {
				give(mc.Fn.(*ssa.Function), lockSet{})
			}
			return
		}
		var ops [12]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			if g, ok := (*o).(*ssa.Function); ok && f.fns[g] {
				if call, ok := in.(ssa.CallInstruction); !ok || call.Common().Value != g {
					give(g, lockSet{})
				}
			}
		}
		call, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		com := call.Common()
		_, isCall := in.(*ssa.Call)
		if !isCall {
			held = lockSet{}
		}
		// closures that are called here, or while this call runs
		vals := append([]ssa.Value{com.Value}, com.Args...)
		for _, v := range vals {
			for _, g := range f.closures(v) {
				give(g, held)
			}
		}
		args := com.Args
		if com.IsInvoke() {
			args = append([]ssa.Value{com.Value}, args...)
		}
		for _, g := range f.targets(com) {
			if f.closed[g] != nil {
				give(g, held)
				continue
			}
			t := lockSet{}
			for i, a := range args {
				if i >= len(g.Params) {
					break
				}
				p := f.path(a)
				for k, m := range held {
					if k.root == p.root && strings.HasPrefix(k.path, p.path+".") {
						t[lockPath{g.Params[i], strings.TrimPrefix(k.path, p.path)}] = m
					}
				}
			}
			for k, m := range held {
				if k.root == nil {
					t[k] = m
				}
			}
			give(g, t)
		}
	})
}

// closures are the closures a value may be.
func (f *lockFlow) closures(v ssa.Value) []*ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return f.closures(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a := f.variable(x.X); a != nil {
				var out []*ssa.Function
				for _, s := range f.stores[a] {
					if _, ok := s.(*ssa.UnOp); !ok {
						out = append(out, f.closures(s)...)
					}
				}
				return out
			}
		}
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Phi); !ok {
				out = append(out, f.closures(e)...)
			}
		}
		return out
	}
	return nil
}

// syncValue: a function value is only called, by whoever gets it, before the call it is handed to returns.
func (f *lockFlow) syncValue(v ssa.Value) bool {
	switch f.sync[v] {
	case 1, 3:
		return true
	case 2:
		return false
	}
	f.sync[v] = 3
	ok := true
	for _, r := range *v.Referrers() {
		ok = ok && f.syncUse(v, r)
	}
	f.sync[v] = 2
	if ok {
		f.sync[v] = 1
	}
	return ok
}

func (f *lockFlow) syncUse(v ssa.Value, r ssa.Instruction) bool {
	switch x := r.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Call:
		com := x.Common()
		for i, a := range com.Args {
			if a != v {
				continue
			}
			ts := f.targets(com)
			if len(ts) == 0 {
				// called by a function value or by code outside the module
				if fn := com.StaticCallee(); fn == nil || fn.Pkg == nil || !strings.Contains("slices sort sync", fn.Pkg.Pkg.Path()) {
					return false
				}
			}
			for _, g := range ts {
				j := i
				if com.IsInvoke() {
					j++
				}
				if j >= len(g.Params) || !f.syncValue(g.Params[j]) {
					return false
				}
			}
		}
		return true
	case *ssa.ChangeType:
		return f.syncValue(x)
	case *ssa.Phi:
		return f.syncValue(x)
	case *ssa.BinOp:
		return true
	case *ssa.UnOp:
		return f.syncValue(x)
	case *ssa.MakeClosure:
		for i, b := range x.Bindings {
			if b == v && !f.syncValue(x.Fn.(*ssa.Function).FreeVars[i]) {
				return false
			}
		}
		return f.syncValue(x)
	case *ssa.Store:
		if x.Addr == v {
			return true
		}
		if a := f.variable(x.Addr); a != nil {
			return f.syncValue(a)
		}
	}
	return false
}

type sharedAccess struct {
	fn    *ssa.Function
	pos   token.Pos
	write bool
	base  lockPath
	held  lockSet
	in    ssa.Instruction
}

func checkS01(c *Ctx) error {
	c.Rule("guarded", "every access to a field that is written after construction, in a type that has locks, holds one lock common to all of the field's accesses, exclusively when it writes", 8)
	f := c.lockFlow()
	acc := map[*types.Var][]sharedAccess{}
	owner := map[*types.Var]*types.Named{}
	for _, fn := range c.P.AllFuncs {
		c.Funcs[fn.String()] = true
		eachInstr(fn, func(in ssa.Instruction) {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok {
				return
			}
			n := namedOf(deref(fa.X.Type()))
			st := structOf(deref(fa.X.Type()))
			if n == nil || st == nil || n.Obj().Pkg() == nil || !c.P.InModule(n.Obj().Pkg().Path()) || len(lockFields(st)) == 0 {
				return
			}
			fld := st.Field(fa.Field)
			if selfGuarded(fld.Type()) || handOverHand(n, fld) {
				return
			}
			owner[fld] = n
			base := f.path(fa.X)
			if a, ok := base.root.(*ssa.Alloc); ok && a.Parent() == fn && base.path == "" {
				return // under construction
			}
			for _, r := range *fa.Referrers() {
				f.accesses(fn, fa, r, func(at ssa.Instruction, write bool) {
					acc[fld] = append(acc[fld], sharedAccess{fn, at.Pos(), write, base, f.at[at], at})
				})
			}
		})
	}
	var flds []*types.Var
	for v := range acc {
		flds = append(flds, v)
	}
	sort.Slice(flds, func(i, j int) bool { return flds[i].Pos() < flds[j].Pos() })
	for _, v := range flds {
		written, locked := false, false
		locks := lockFields(structOf(owner[v]))
		count := map[string]int{}
		for _, a := range acc[v] {
			written = written || a.write
			for _, l := range locks {
				m := a.held[lockPath{a.base.root, a.base.path + "." + l}]
				if m > 0 {
					locked = true
				}
				if m == 2 || m == 1 && !a.write {
					count[l]++
				}
			}
		}
		if !written {
			if dbgS01 {
				fmt.Println("skip", owner[v], v.Name(), written, locked, len(acc[v]))
			}
			continue
		}
		best := ""
		for _, l := range locks {
			if best == "" || count[l] > count[best] {
				best = l
			}
		}
		name := c.P.Rel(owner[v].String()) + "." + v.Name()
		if dbgS01 {
			fmt.Println("check", name, best, count[best], len(acc[v]))
		}
		// what the writers have in common besides
		var also lockSet
		for _, a := range acc[v] {
			if a.write {
				also = meet(also, a.held)
			}
		}
		for _, a := range acc[v] {
			where := name + " | " + c.P.Rel(a.fn.String())
			c.Ob("guarded", where)
			m := a.held[lockPath{a.base.root, a.base.path + "." + best}]
			if m == 2 || m == 1 && !a.write {
				continue
			}
			if !a.write && (passedOn(also, a.held) || f.ownTask(acc[v], a.fn)) {
				continue
			}
			how := "read"
			if a.write {
				how = "written"
			}
			c.Fail("guarded", where+" | "+how, c.P.Pos(a.pos), fmt.Sprintf("%s is %s without %s, which its other accesses hold", name, how, best))
		}
	}
	return nil
}

var dbgS01 = false

func lockFields(st *types.Struct) []string {
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		if t := st.Field(i).Type(); typeIs(t, "sync", "Mutex") || typeIs(t, "sync", "RWMutex") {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

// passedOn: the writers all work under a lock that the reader has held before it came here, which is how an object is
// taken over for good.
func passedOn(writers, reader lockSet) bool {
	for k := range writers {
		if k.root == nil && reader[k] > 0 {
			return true
		}
	}
	return false
}

// ownTask: the object's own task is the only one who writes, and so needs no lock to read.
func (f *lockFlow) ownTask(acc []sharedAccess, fn *ssa.Function) bool {
	task := f.taskOf(fn, map[*ssa.Function]bool{})
	if task == nil {
		return false
	}
	for _, a := range acc {
		if a.write && f.taskOf(a.fn, map[*ssa.Function]bool{}) != task && !f.handsOver(a, task) {
			return false
		}
	}
	return true
}

// taskOf is the task that alone runs a function: Execute of an object, and what only it calls.
func (f *lockFlow) taskOf(fn *ssa.Function, seen map[*ssa.Function]bool) *ssa.Function {
	if seen[fn] || len(seen) > 20 {
		return nil
	}
	seen[fn] = true
	defer delete(seen, fn)
	if fn.Name() == "Execute" && fn.Signature.Recv() != nil && fn.Signature.Params().Len() == 1 && isContext(fn.Signature.Params().At(0).Type()) {
		return fn
	}
	if f.users == nil {
		f.users = map[*ssa.Function][]ssa.Instruction{}
		for g := range f.fns {
			eachInstr(g, func(in ssa.Instruction) {
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					switch h := (*o).(type) {
					case *ssa.Function:
						f.users[h] = append(f.users[h], in)
					}
				}
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().IsInvoke() {
					for _, h := range f.targets(call.Common()) {
						f.users[h] = append(f.users[h], in)
					}
				}
			})
		}
	}
	var task *ssa.Function
	if mc := f.closed[fn]; mc != nil {
		for _, r := range *mc.Referrers() {
			if _, isGo := r.(*ssa.Go); isGo {
				return nil
			}
			if _, isDefer := r.(*ssa.Defer); !isDefer && !f.syncUse(mc, r) {
				return nil
			}
		}
		return f.taskOf(fn.Parent(), seen)
	}
	for _, in := range f.users[fn] {
		call, ok := in.(ssa.CallInstruction)
		if _, isGo := in.(*ssa.Go); !ok || isGo || call.Common().Value != fn {
			return nil
		}
		t := f.taskOf(in.Parent(), seen)
		if t == nil || task != nil && t != task {
			return nil
		}
		task = t
	}
	return task
}

// handsOver: after the write the object's own task is told, which waits for that, on every path.
func (f *lockFlow) handsOver(a sharedAccess, task *ssa.Function) bool {
	if len(task.Params) == 0 || a.base.path != "" {
		return false
	}
	waits := map[string]bool{}
	for g := range f.fns {
		if f.taskOf(g, map[*ssa.Function]bool{}) != task {
			continue
		}
		eachInstr(g, func(in ssa.Instruction) {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				if p := f.path(u.X); p.root != nil && p.root.Type() != nil && types.Identical(p.root.Type(), task.Params[0].Type()) {
					waits[p.path] = true
				}
			}
		})
	}
	seen := map[*ssa.BasicBlock]bool{}
	var told func(b *ssa.BasicBlock, from int) bool
	told = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			switch x := in.(type) {
			case *ssa.Send:
				if p := f.path(x.Chan); p.root == a.base.root && waits[p.path] {
					return true
				}
			case *ssa.Return:
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if !told(s, 0) {
					return false
				}
			}
		}
		return true
	}
	for i, in := range a.in.Block().Instrs {
		if in == a.in {
			return told(a.in.Block(), i+1)
		}
	}
	return false
}

// handOverHand: the nodes of a tree are locked from parent to child by whoever walks it, which other properties decide.
func handOverHand(n *types.Named, f *types.Var) bool {
	if strings.HasSuffix(n.Obj().Pkg().Path(), "/btree_associated") {
		return true
	}
	node := func(t *types.Named) bool {
		st, ok := t.Underlying().(*types.Struct)
		for i := 0; ok && i < st.NumFields(); i++ {
			ft := st.Field(i).Type().Underlying()
			for {
				if sl, ok := ft.(*types.Slice); ok {
					ft = sl.Elem().Underlying()
				} else if ar, ok := ft.(*types.Array); ok {
					ft = ar.Elem().Underlying()
				} else {
					break
				}
			}
			if p, ok := ft.(*types.Pointer); ok && namedOf(p.Elem()) == t {
				return true
			}
		}
		return false
	}
	if p, ok := f.Type().Underlying().(*types.Pointer); ok {
		if t := namedOf(p.Elem()); t != nil && node(t) {
			return true
		}
	}
	return node(n)
}

// selfGuarded: locks, atomics and channels need no lock.
func selfGuarded(t types.Type) bool {
	if n := namedOf(deref(t)); n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic") {
		return true
	}
	return false
}

// accesses reports how an address of a field is used, and how the slice or map found there is.
func (f *lockFlow) accesses(fn *ssa.Function, fa ssa.Value, r ssa.Instruction, use func(ssa.Instruction, bool)) {
	switch x := r.(type) {
	case *ssa.DebugRef:
	case *ssa.Store:
		use(x, x.Addr == fa)
	case *ssa.UnOp:
		use(x, false)
		switch t := x.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			f.contents(x, use)
		case *types.Pointer:
			st, ok := t.Elem().Underlying().(*types.Struct)
			if _, basic := t.Elem().Underlying().(*types.Basic); basic || ok && len(lockFields(st)) == 0 && !selfGuarded(x.Type()) {
				for _, rr := range *x.Referrers() {
					switch y := rr.(type) {
					case *ssa.UnOp, *ssa.FieldAddr:
						f.accesses(fn, x, y, use)
					case *ssa.Store:
						if y.Addr == x {
							use(y, true)
						}
					}
				}
			}
		}
	case *ssa.FieldAddr:
		for _, rr := range *x.Referrers() {
			f.accesses(fn, x, rr, use)
		}
	default:
		use(r, false)
	}
}

func (f *lockFlow) contents(v ssa.Value, use func(ssa.Instruction, bool)) {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				use(x, true)
			}
		case *ssa.Lookup:
			use(x, false)
		case *ssa.Range:
			use(x, false)
		case *ssa.IndexAddr:
			for _, rr := range *x.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == x {
					use(s, true)
				} else {
					use(rr, false)
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				use(x, b.Name() == "delete" || b.Name() == "clear" || b.Name() == "copy" && x.Call.Args[0] == v)
			}
		}
	}
}
