package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"willowcheck/load"
)

// Exit is one way a call can end.
type Exit struct {
	St    *State
	Res   []*Val
	Panic bool
	Pos   token.Pos
}

// CallInfo describes a call about to be evaluated.
type CallInfo struct {
	Instr  ssa.Instruction
	Pos    token.Pos
	Fn     *ssa.Function // resolved target, nil if unknown
	Method *types.Func   // interface method, when the call is dynamic
	Recv   *Val          // receiver of a dynamic call
	FnVal  *Val          // called function value, if dynamic
	Args   []*Val        // arguments (for a static method call, including the receiver)
	Res    *types.Tuple
	Caller *ssa.Function
	Defer  bool
	Go     bool
}

// Name is the qualified name of the callee.
func (c *CallInfo) Name() string {
	if c.Method != nil {
		return c.Method.FullName()
	}
	if c.Fn != nil {
		if c.Fn.Origin() != nil {
			return c.Fn.Origin().String()
		}
		return c.Fn.String()
	}
	return ""
}

// Hooks are a property's view of the program: what its monitor does on each event.
type Hooks struct {
	// Call may take over a call; handled=false lets the engine continue (inline, or treat as unknown).
	Call func(e *Engine, st *State, c *CallInfo) ([]Exit, bool)
	// After is told about every return of an inlined module function
	After func(e *Engine, st *State, c *CallInfo, x *Exit)
	// Store, Send, Recv, Lookup, Close: event notifications. Send and Recv return false when the event cannot happen.
	Store func(e *Engine, st *State, addr, val *Val, in ssa.Instruction)
	Send  func(e *Engine, st *State, ch, val *Val, in ssa.Instruction) bool
	Recv  func(e *Engine, st *State, ch *Val, in ssa.Instruction) (*Val, bool)
	Close func(e *Engine, st *State, ch *Val, in ssa.Instruction)
	// RecvOk names the "ok" of a receive (nil: unknown)
	RecvOk func(e *Engine, st *State, ch *Val, in ssa.Instruction) *Val
	Deref  func(e *Engine, st *State, ptr *Val, in ssa.Instruction)
	Map    func(e *Engine, st *State, m, k, v *Val, in ssa.Instruction)
	Lookup func(e *Engine, st *State, m, k *Val, in *ssa.Lookup) *Val
	// Select is told, on a copy of the state, that the statement is about to choose
	Select func(e *Engine, st *State, in *ssa.Select, chans []*Val)
	// Default may rule out a select's default case
	Default func(e *Engine, st *State, in *ssa.Select, chans []*Val) bool
	// Opaque functions are not entered
	Opaque func(fn *ssa.Function) bool
	// Inline decides about non-unique interface implementations
	Resolve func(m *types.Func, recv *Val) types.Type
	// Havoc shared memory when a mutex is taken
	HavocOnLock bool
	// Feasible rejects states that assume something an invariant rules out; asked after every branch
	Feasible func(e *Engine, st *State) bool
	// Block is told about every block entered
	Block func(e *Engine, st *State, b *ssa.BasicBlock)
}

type Engine struct {
	P     *load.Prog
	H     *Hooks
	Funcs map[*ssa.Function]bool // analysed
	Stats struct {
		States, Calls, Exits, Unknown int
	}
	Incomplete map[string]bool
	MaxStates  int
	// Unroll > 0 keeps loop counters, accumulated sums and lists of up to that many elements concrete instead of
	// widening them, so that loops over lists of known length are followed element by element; ranging over a map
	// visits two unknown entries. Beyond the bound values are widened as usual.
	Unroll int
	// Maps keeps the entries of maps built by the analysed code
	Maps bool
	// Recur is how many activations of a function a path may nest (at least 2)
	Recur int
	// NaN, if any, is a floating-point value that is not a number: it is unequal to and neither before nor after anything
	NaN *Val

	ids    map[any]int
	ctxs   map[string]string
	live   map[*ssa.Function]*liveInfo
	cyc    map[*ssa.Function]map[ssa.Value]bool
	mut    map[*types.Var]bool
	impl   map[*types.Func]types.Type
	gconst map[*ssa.Global]int
}

// instructions and calling contexts are numbered once for all engines, so that a state handed from one to the next
// keeps its meaning
var (
	globalIDs  = map[any]int{}
	globalCtxs = map[string]string{}
)

func New(p *load.Prog, h *Hooks) *Engine {
	e := &Engine{P: p, H: h, Funcs: map[*ssa.Function]bool{}, Incomplete: map[string]bool{}, MaxStates: 400000,
		ids: globalIDs, ctxs: globalCtxs, live: map[*ssa.Function]*liveInfo{}, cyc: map[*ssa.Function]map[ssa.Value]bool{},
		impl: map[*types.Func]types.Type{}, gconst: map[*ssa.Global]int{}}
	e.mut = mutableFields(p)
	return e
}

func (e *Engine) id(x any) int {
	n, ok := e.ids[x]
	if !ok {
		n = len(e.ids) + 1
		e.ids[x] = n
	}
	return n
}

func (e *Engine) immutable(f *types.Var) bool { return !e.mut[f] }

// mutableFields are the struct fields stored to anywhere but on a freshly allocated object in the same function, or
// whose address is used for anything but a plain load.
func mutableFields(p *load.Prog) map[*types.Var]bool {
	mut := map[*types.Var]bool{}
	for _, f := range p.AllFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := deref(fa.X.Type()).Underlying().(*types.Struct)
				fld := st.Field(fa.Field)
				_, fresh := fa.X.(*ssa.Alloc)
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if r.Addr == fa && fresh {
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					mut[fld] = true
				}
			}
		}
	}
	return mut
}

// Fresh makes a new symbol for this instruction, ageing the previous one.
func (e *Engine) Fresh(st *State, in any, tag string, t types.Type) *Val {
	ctx := ""
	if len(st.frames) > 0 {
		ctx = st.top().ctx
	}
	name := fmt.Sprintf("#%s.%d%s;", ctx, e.id(in), tag)
	st.age(name)
	return mk(&Val{K: KSym, S: name, T: t})
}

// nth numbers the objects one allocation site creates, while they are followed one by one.
func (e *Engine) nth(st *State, in any, tag string) string {
	if e.Unroll == 0 {
		return tag
	}
	ctx := ""
	if len(st.frames) > 0 {
		ctx = st.top().ctx
	}
	k := fmt.Sprintf("@n%s.%d%s", ctx, e.id(in), tag)
	n := st.Mon[k]
	if n <= e.Unroll {
		st.Set(k, n+1)
	}
	if n == 0 {
		return tag
	}
	return fmt.Sprintf("%s'%d", tag, n)
}

func (e *Engine) freshAlloc(st *State, in any, t types.Type) *Val {
	v := e.Fresh(st, in, e.nth(st, in, "a"), t)
	n := *v
	n.Alloc = true
	return mk(&n)
}

// FreshAlloc makes a new, distinct, non-nil pointer value.
func (e *Engine) FreshAlloc(st *State, in any, t types.Type) *Val { return e.freshAlloc(st, in, t) }

func (e *Engine) incomplete(f string, a ...any) { e.Incomplete[fmt.Sprintf(f, a...)] = true }

// Problems lists why the analysis could not reach a verdict (empty: it did).
func (e *Engine) Problems() []string {
	var out []string
	for k := range e.Incomplete {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- liveness and cyclic values ----

type liveInfo struct {
	in  []map[ssa.Value]bool
	out []map[ssa.Value]bool
}

func (e *Engine) liveness(fn *ssa.Function) *liveInfo {
	if l := e.live[fn]; l != nil {
		return l
	}
	l := &liveInfo{in: make([]map[ssa.Value]bool, len(fn.Blocks)), out: make([]map[ssa.Value]bool, len(fn.Blocks))}
	for i := range fn.Blocks {
		l.in[i], l.out[i] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	var ops [16]*ssa.Value
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := l.out[i]
			for _, s := range b.Succs {
				for v := range l.in[s.Index] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				pi := predIndex(s, b)
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b || k == pi {
							v := ph.Edges[k]
							if tracked(v) && !out[v] {
								out[v] = true
								changed = true
							}
						}
					}
				}
			}
			in := map[ssa.Value]bool{}
			for v := range out {
				in[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					if _, isPhi := ins.(*ssa.Phi); !isPhi {
						delete(in, v)
					}
				}
				if ph, ok := ins.(*ssa.Phi); ok {
					in[ph] = true // evaluated on the edge
					continue
				}
				for _, o := range ins.Operands(ops[:0]) {
					if *o != nil && tracked(*o) {
						in[*o] = true
					}
				}
			}
			for v := range in {
				if !l.in[i][v] {
					l.in[i][v] = true
					changed = true
				}
			}
		}
	}
	e.live[fn] = l
	return l
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return true
}

// cyclic values depend on themselves through a phi: they are widened to unknowns.
func (e *Engine) cyclic(fn *ssa.Function) map[ssa.Value]bool {
	if c := e.cyc[fn]; c != nil {
		return c
	}
	c := map[ssa.Value]bool{}
	pure := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeInterface:
			return true
		case *ssa.UnOp:
			return true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				return b.Name() == "append" || b.Name() == "min" || b.Name() == "max"
			}
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				continue
			}
			// forward reachability from the phi through pure values, back to it
			fw := map[ssa.Value]bool{}
			var dfs func(v ssa.Value)
			dfs = func(v ssa.Value) {
				if fw[v] {
					return
				}
				fw[v] = true
				if v.Referrers() == nil {
					return
				}
				for _, r := range *v.Referrers() {
					if rv, ok := r.(ssa.Value); ok && pure(rv) {
						dfs(rv)
					}
				}
			}
			if ph.Referrers() != nil {
				for _, r := range *ph.Referrers() {
					if rv, ok := r.(ssa.Value); ok && pure(rv) {
						dfs(rv)
					}
				}
			}
			if !fw[ph] {
				continue
			}
			// those that also reach back
			var back func(v ssa.Value, seen map[ssa.Value]bool) bool
			back = func(v ssa.Value, seen map[ssa.Value]bool) bool {
				if v == ph {
					return true
				}
				if seen[v] || v.Referrers() == nil {
					return false
				}
				seen[v] = true
				for _, r := range *v.Referrers() {
					if rv, ok := r.(ssa.Value); ok && pure(rv) && back(rv, seen) {
						return true
					}
				}
				return false
			}
			for v := range fw {
				if v == ph {
					continue
				}
				if _, isPhi := v.(*ssa.Phi); isPhi {
					continue
				}
				if back(v, map[ssa.Value]bool{}) {
					c[v] = true
				}
			}
		}
	}
	e.cyc[fn] = c
	return c
}

// ---- running ----

// Analyze runs fn from its entry with symbolic parameters.
func (e *Engine) Analyze(fn *ssa.Function, args []*Val, bindings []*Val, st *State) []Exit {
	if st == nil {
		st = NewState()
	}
	if args == nil {
		for i, p := range fn.Params {
			args = append(args, Root(p.Name()+fmt.Sprint(i), p.Type()))
		}
		if fn.Signature.Recv() != nil && len(args) > 0 {
			st.Restrict(args[0], NilOf(args[0].T), LT|GT)
		}
	}
	if bindings == nil {
		for i, p := range fn.FreeVars {
			bindings = append(bindings, Root("free_"+p.Name()+fmt.Sprint(i), p.Type()))
		}
	}
	return e.run(fn, args, bindings, st, "0")
}

type work struct {
	b  *ssa.BasicBlock
	st *State
}

func (e *Engine) run(fn *ssa.Function, args, bindings []*Val, st *State, ctx string) []Exit {
	e.Funcs[fn] = true
	if len(fn.Blocks) == 0 {
		return nil
	}
	st = st.Clone()
	fr := &frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Val{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bindings) {
			fr.env[p] = bindings[i]
		}
	}
	st.frames = append(st.frames, fr)

	var exits []Exit
	seenExit := map[string]bool{}
	exitKey := func(x Exit) string {
		k := x.St.Key()
		for _, r := range x.Res {
			k += "|r" + r.key
		}
		if x.Panic {
			k += "|panic"
		}
		return k
	}
	addExit := func(x Exit) {
		// pop the frame
		x.St.frames = append([]*frame(nil), x.St.frames[:len(x.St.frames)-1]...)
		if k := len(x.St.frames) - 1; k >= 0 {
			x.St.frames[k] = x.St.frames[k].clone()
		}
		e.gc(x.St, x.Res)
		if len(exits) == 0 {
			exits = append(exits, x)
			e.Stats.Exits++
			return
		}
		if len(exits) == 1 {
			seenExit[exitKey(exits[0])] = true
		}
		k := exitKey(x)
		if !seenExit[k] {
			seenExit[k] = true
			exits = append(exits, x)
			e.Stats.Exits++
		}
	}

	lv := e.liveness(fn)
	seen := map[string]bool{}
	var wl []work
	push := func(b *ssa.BasicBlock, s *State) {
		if len(b.Preds) < 2 {
			// nothing joins here
			e.tick()
			e.Stats.States++
			wl = append(wl, work{b, s})
			return
		}
		f := s.top()
		for v := range f.env {
			if !lv.in[b.Index][v] {
				delete(f.env, v)
			}
		}
		e.gc(s, nil)
		k := fmt.Sprintf("%d|", b.Index) + s.Key()
		if seen[k] {
			return
		}
		seen[k] = true
		e.tick()
		e.Stats.States++
		wl = append(wl, work{b, s})
	}
	push(fn.Blocks[0], st)
	for len(wl) > 0 {
		if e.Stats.States > e.MaxStates {
			e.incomplete("state budget of %d exceeded in %s", e.MaxStates, e.P.Rel(fn.String()))
			return exits
		}
		w := wl[len(wl)-1]
		wl = wl[:len(wl)-1]
		if e.H.Block != nil {
			e.H.Block(e, w.st, w.b)
		}
		states := []*State{w.st}
		n := len(w.b.Instrs)
		for idx, in := range w.b.Instrs {
			if len(states) == 0 {
				break
			}
			if idx == n-1 {
				break
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			var next []*State
			multi := false
			for _, s := range states {
				outs, panics := e.step(s, in)
				if len(outs) > 1 {
					multi = true
				}
				next = append(next, outs...)
				for _, p := range panics {
					addExit(p)
				}
			}
			if (multi || len(states) > 1) && len(next) > 1 {
				next = e.dedup(next, w.b, idx, lv)
			}
			states = next
		}
		last := w.b.Instrs[n-1]
		for _, s := range states {
			switch t := last.(type) {
			case *ssa.Jump:
				e.enter(w.b, w.b.Succs[0], s, push)
			case *ssa.If:
				c := e.eval(s, t.Cond)
				tv := s.Assume(c, true)
				fv := s.Assume(c, false)
				if e.H.Feasible != nil {
					keep := func(in []*State) (out []*State) {
						for _, x := range in {
							if e.H.Feasible(e, x) {
								out = append(out, x)
							}
						}
						return
					}
					tv, fv = keep(tv), keep(fv)
				}
				if len(tv) > 0 && len(fv) > 0 {
					for _, x := range tv {
						x.Note(t.Cond.Pos(), "branch true in %s", fn.Name())
					}
					for _, x := range fv {
						x.Note(t.Cond.Pos(), "branch false in %s", fn.Name())
					}
				}
				for _, x := range tv {
					e.edge(w.b, w.b.Succs[0], x, push)
				}
				for _, x := range fv {
					e.edge(w.b, w.b.Succs[1], x, push)
				}
			case *ssa.Return:
				var res []*Val
				for _, r := range t.Results {
					res = append(res, e.eval(s, r))
				}
				addExit(Exit{St: s, Res: res, Pos: t.Pos()})
			case *ssa.Panic:
				addExit(Exit{St: s, Panic: true, Pos: t.Pos()})
			default:
				e.incomplete("unexpected terminator %T in %s", last, fn)
			}
		}
	}
	return exits
}

func (e *Engine) dedup(in []*State, b *ssa.BasicBlock, idx int, lv *liveInfo) []*State {
	// values still needed in this block or after it
	need := map[ssa.Value]bool{}
	for v := range lv.out[b.Index] {
		need[v] = true
	}
	var ops [16]*ssa.Value
	for j := idx + 1; j < len(b.Instrs); j++ {
		for _, o := range b.Instrs[j].Operands(ops[:0]) {
			if *o != nil {
				need[*o] = true
			}
		}
	}
	seen := map[string]bool{}
	var out []*State
	for _, s := range in {
		f := s.top()
		for v := range f.env {
			if !need[v] {
				delete(f.env, v)
			}
		}
		e.gc(s, nil)
		k := s.Key()
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

func (e *Engine) edge(from, to *ssa.BasicBlock, s *State, push func(*ssa.BasicBlock, *State)) {
	e.enter(from, to, s.Clone(), push)
}

func (e *Engine) enter(from, to *ssa.BasicBlock, s *State, push func(*ssa.BasicBlock, *State)) {
	f := s.top()
	type pv struct {
		p *ssa.Phi
		v *Val
	}
	var ps []pv
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		i := predIndex(to, from)
		ps = append(ps, pv{ph, e.eval(s, ph.Edges[i])})
	}
	for _, x := range ps {
		f.env[x.p] = x.v
	}
	push(to, s)
}

// gc forgets cells and facts about objects nothing refers to any more.
func (e *Engine) gc(s *State, extra []*Val) {
	live := map[string]bool{}
	var mark func(v *Val)
	var q []*Val
	mark = func(v *Val) {
		if v == nil {
			return
		}
		v.walk(func(x *Val) {
			if x.K == KSym && !live[x.S] {
				live[x.S] = true
			}
			if x.K == KTerm && strings.Contains(x.S, "@#") {
				live[x.S[strings.Index(x.S, "@")+1:]] = true
			}
		})
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			mark(v)
		}
		for _, d := range f.defers {
			mark(d.fn)
			mark(d.recv)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, v := range s.MonV {
		mark(v)
	}
	for _, v := range extra {
		mark(v)
	}
	_ = q
	if s.epoch != "" {
		live[s.epoch] = true
	}
	alive := func(v *Val) bool {
		ok := true
		v.walk(func(x *Val) {
			if x.K == KSym && !x.Root && !live[x.S] {
				ok = false
			}
			if x.K == KTerm {
				if i := strings.Index(x.S, "@#"); i >= 0 && !live[x.S[i+1:]] {
					ok = false
				}
			}
		})
		return ok
	}
	done := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for k, c := range s.cells {
			if done[k] {
				continue
			}
			if alive(c.addr) {
				done[k] = true
				n := len(live)
				mark(c.val)
				if len(live) != n {
					changed = true
				}
			}
		}
	}
	for k := range s.cells {
		if !done[k] {
			delete(s.cells, k)
		}
	}
	for k, f := range s.facts {
		if !alive(f.x) || !alive(f.y) {
			delete(s.facts, k)
		}
	}
}

// ---- values ----

func (e *Engine) eval(s *State, v ssa.Value) *Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return ZeroOf(x.Type())
			}
			if _, ok := x.Type().(*types.TypeParam); ok {
				return mk(&Val{K: KZero, T: x.Type()})
			}
			return NilOf(x.Type())
		}
		return Const(x.Value, x.Type())
	case *ssa.Function:
		return Closure(x, nil)
	case *ssa.Global:
		return mk(&Val{K: KSym, S: "$global " + x.String() + ";", T: x.Type(), Root: true})
	case *ssa.Builtin:
		return Root("builtin "+x.Name(), x.Type())
	}
	if r, ok := s.top().env[v]; ok {
		return r
	}
	// a value pruned as dead and asked for again, or of an unsupported kind
	return mk(&Val{K: KSym, S: fmt.Sprintf("#%s.%du;", s.top().ctx, e.id(v)), T: v.Type()})
}

// Eval exposes operand evaluation to hooks (in the current top frame).
func (e *Engine) Eval(s *State, v ssa.Value) *Val { return e.eval(s, v) }

func (e *Engine) set(s *State, v ssa.Value, x *Val) {
	if x.depth > 11 {
		x = e.Fresh(s, v, "d", v.Type())
	}
	s.top().env[v] = x
}

// LoadField reads a field of the object base points to.
func (e *Engine) LoadField(s *State, base *Val, f *types.Var) *Val {
	return s.Load(fieldAddr(base, f), f.Type(), e.immutable)
}
func (e *Engine) LoadAt(s *State, addr *Val, t types.Type) *Val { return s.Load(addr, t, e.immutable) }

// LoadPath follows field names from a pointer value: p.Spec.Properties.X; nil if a name does not resolve.
func (e *Engine) LoadPath(s *State, v *Val, names ...string) *Val {
	for _, n := range names {
		v = Strip(v)
		if v.T == nil {
			return nil
		}
		t := v.T
		if v.K == KIface {
			t = v.Args[0].T
		}
		if n == "*" {
			if _, ok := t.Underlying().(*types.Pointer); !ok {
				return nil
			}
			v = s.Load(v, deref(t), e.immutable)
			continue
		}
		st, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var f *types.Var
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				f = st.Field(i)
			}
		}
		if f == nil {
			return nil
		}
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			v = e.LoadField(s, v, f)
		} else {
			v = project(v, fieldAddr(v, f), f.Type())
		}
		if v == nil {
			return nil
		}
	}
	return v
}

// constStruct is what is read at an address of a package variable that never changes, or of one of its fields.
func (e *Engine) constStruct(addr ssa.Value) *Val {
	field := -1
	if f, ok := addr.(*ssa.FieldAddr); ok {
		addr, field = f.X, f.Field
	}
	g, ok := addr.(*ssa.Global)
	if !ok {
		return nil
	}
	cs := e.P.ConstStruct(g)
	if cs == nil {
		return nil
	}
	t := deref(g.Type())
	st := t.Underlying().(*types.Struct)
	vs := make([]*Val, len(cs))
	for i, c := range cs {
		if vs[i] = ZeroOf(st.Field(i).Type()); c != nil {
			vs[i] = Const(c, st.Field(i).Type())
		}
	}
	if field >= 0 {
		return vs[field]
	}
	return StructVal(t, vs...)
}

func (e *Engine) knownNonNilGlobal(g *ssa.Global) bool {
	if r, ok := e.gconst[g]; ok {
		return r == 1
	}
	e.gconst[g] = 0
	n := 0
	ok := true
	for _, f := range e.P.AllFuncs {
		if f.Synthetic == "package initializer" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, is := in.(*ssa.Store); is && st.Addr == g {
					ok = false
				}
			}
		}
	}
	if g.Pkg != nil {
		if init := g.Pkg.Func("init"); init != nil {
			for _, b := range init.Blocks {
				for _, in := range b.Instrs {
					if st, is := in.(*ssa.Store); is && st.Addr == g {
						n++
						switch v := st.Val.(type) {
						case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeInterface, *ssa.MakeChan:
						case *ssa.Call:
							if c := v.Call.StaticCallee(); c == nil || !nonNilResult(c.String()) {
								ok = false
							}
						default:
							ok = false
						}
					}
				}
			}
		}
	}
	if ok && n == 1 {
		e.gconst[g] = 1
		return true
	}
	return false
}

func nonNilResult(name string) bool {
	switch name {
	case "errors.New", "fmt.Errorf", "context.Background", "context.TODO", "net/http.NewServeMux":
		return true
	}
	return false
}

// step evaluates one instruction; panics are abnormal exits of the current function.
func (e *Engine) step(s *State, in ssa.Instruction) (outs []*State, panics []Exit) {
	one := func() ([]*State, []Exit) { return []*State{s}, nil }
	cyc := false
	if v, ok := in.(ssa.Value); ok {
		cyc = e.cyclic(s.top().fn)[v]
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return one()
	case *ssa.Alloc:
		v := e.freshAlloc(s, x, x.Type())
		s.dropUnder(v)
		e.set(s, x, v)
		return one()
	case *ssa.BinOp:
		if cyc {
			if e.Unroll > 0 {
				if v := e.binop(s, x); e.smallEnough(v) {
					e.set(s, x, v)
					return one()
				}
			}
			if isString(x.Type()) && !accumulates(x, 0) {
				e.set(s, x, e.binop(s, x))
				return one()
			}
			e.set(s, x, e.Fresh(s, x, "w", x.Type()))
			return one()
		}
		e.set(s, x, e.binop(s, x))
		return one()
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := e.eval(s, x.X)
			if e.H.Deref != nil {
				e.H.Deref(e, s, a, x)
			}
			if g, ok := x.X.(*ssa.Global); ok {
				if k := e.P.ConstGlobal(g); k != nil {
					e.set(s, x, Const(k, x.Type()))
					return one()
				}
			}
			if v := e.constStruct(x.X); v != nil {
				e.set(s, x, v)
				return one()
			}
			if g, ok := x.X.(*ssa.Global); ok && e.knownNonNilGlobal(g) {
				v := Term("ld", x.Type(), a)
				s.Restrict(v, NilOf(x.Type()), LT|GT)
				e.set(s, x, v)
				return one()
			}
			e.set(s, x, s.Load(a, x.Type(), e.immutable))
			return one()
		case token.NOT:
			e.set(s, x, negate(e.eval(s, x.X)))
			return one()
		case token.ARROW:
			ch := e.eval(s, x.X)
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			var v *Val
			if e.H.Recv != nil {
				r, ok := e.H.Recv(e, s, ch, x)
				if !ok {
					return nil, nil
				}
				v = r
			}
			if v == nil {
				v = e.Fresh(s, x, "r", et)
			}
			if x.CommaOk {
				ok := e.recvOk(s, ch, x)
				e.set(s, x, Tup(v, ok))
			} else {
				e.set(s, x, v)
			}
			return one()
		case token.SUB, token.XOR:
			a := e.eval(s, x.X)
			if a.K == KConst && !cyc {
				e.set(s, x, Const(constant.UnaryOp(x.Op, a.C, sizeBits(x.Type(), x.Op)), x.Type()))
			} else if cyc {
				e.set(s, x, e.Fresh(s, x, "w", x.Type()))
			} else {
				e.set(s, x, Term("u"+x.Op.String(), x.Type(), a))
			}
			return one()
		}
	case *ssa.Call:
		return e.callInstr(s, x, &x.Call, x)
	case *ssa.Go:
		c := e.callInfo(s, x, &x.Call)
		c.Go = true
		if e.H.Call != nil {
			if exits, ok := e.H.Call(e, s, c); ok {
				for _, ex := range exits {
					outs = append(outs, ex.St)
				}
				return outs, nil
			}
		}
		return one()
	case *ssa.Defer:
		d := &deferred{instr: x}
		if x.Call.IsInvoke() {
			d.recv = e.eval(s, x.Call.Value)
		} else if x.Call.StaticCallee() == nil || x.Call.StaticCallee().Parent() != nil {
			d.fn = e.eval(s, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.eval(s, a))
		}
		f := s.top()
		f.defers = append(f.defers, d)
		return one()
	case *ssa.RunDefers:
		states := []*State{s}
		n := len(s.top().defers)
		for i := n - 1; i >= 0; i-- {
			var next []*State
			for _, st := range states {
				f := st.top()
				d := f.defers[i]
				f.defers = f.defers[:i]
				if b, ok := d.instr.Call.Value.(*ssa.Builtin); ok && b.Name() != "recover" {
					outs, ps := e.builtinArgs(st, d.instr, b, d.args, nil)
					panics = append(panics, ps...)
					next = append(next, outs...)
					continue
				}
				c := e.callInfoD(st, d)
				exits := e.Call(st, c)
				for _, ex := range exits {
					if ex.Panic {
						panics = append(panics, ex)
						continue
					}
					next = append(next, ex.St)
				}
			}
			states = next
		}
		return states, panics
	case *ssa.ChangeInterface:
		v := e.eval(s, x.X)
		e.set(s, x, v)
		return one()
	case *ssa.ChangeType:
		v := e.eval(s, x.X)
		e.set(s, x, v)
		return one()
	case *ssa.Convert, *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		ops := in.Operands(nil)
		v := e.eval(s, *ops[0])
		t := in.(ssa.Value).Type()
		if cyc {
			e.set(s, in.(ssa.Value), e.Fresh(s, in, "w", t))
			return one()
		}
		if v.K == KConst && isNumOrStrSame(v, t) {
			e.set(s, in.(ssa.Value), Const(v.C, t))
		} else {
			e.set(s, in.(ssa.Value), Term("conv", t, v))
		}
		return one()
	case *ssa.MakeInterface:
		v := e.eval(s, x.X)
		e.set(s, x, IfaceOf(v, x.X.Type()))
		return one()
	case *ssa.MakeClosure:
		var bs []*Val
		for _, b := range x.Bindings {
			bs = append(bs, e.eval(s, b))
		}
		e.set(s, x, Closure(x.Fn.(*ssa.Function), bs))
		return one()
	case *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		nv := e.freshAlloc(s, in, v.Type())
		e.set(s, v, nv)
		if _, ok := in.(*ssa.MakeMap); ok && e.Maps {
			s.Store(allEntries(nv), Tup())
		}
		return one()
	case *ssa.MakeSlice:
		l := e.eval(s, x.Len)
		if n, ok := IntVal(l); ok && e.Unroll > 0 && n >= 0 && n <= 8 {
			et := x.Type().Underlying().(*types.Slice).Elem()
			el := make([]*Val, n)
			for i := range el {
				el[i] = ZeroOf(et)
			}
			e.set(s, x, e.NewSlice(s, in, x.Type(), el...))
			return one()
		}
		v := e.freshAlloc(s, in, x.Type())
		s.Restrict(Term("len", types.Typ[types.Int], v), l, EQ)
		e.set(s, x, v)
		return one()
	case *ssa.FieldAddr:
		b := e.eval(s, x.X)
		if e.H.Deref != nil {
			e.H.Deref(e, s, b, x)
		}
		if s.IsNil(b) == 1 {
			// this path would stop here with a nil dereference
			return nil, []Exit{{St: s, Panic: true, Pos: x.Pos()}}
		}
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		e.set(s, x, fieldAddr(b, st.Field(x.Field)))
		return one()
	case *ssa.Field:
		b := e.eval(s, x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		v := project(b, fieldAddr(b, st.Field(x.Field)), x.Type())
		if v == nil {
			v = e.Fresh(s, x, "f", x.Type())
		}
		e.set(s, x, v)
		return one()
	case *ssa.IndexAddr:
		b := e.eval(s, x.X)
		i := e.eval(s, x.Index)
		if b.K == KTerm && b.S == "mslice" {
			b = b.Args[0]
		}
		if n, ok := IntVal(i); ok && e.Maps {
			if at, ok := deref(b.T).Underlying().(*types.Array); ok && (n < 0 || n >= at.Len()) || b.K == KNil {
				s.Note(x.Pos(), "index %d is out of range", n)
				return nil, []Exit{{St: s, Panic: true, Pos: x.Pos()}}
			}
		}
		e.set(s, x, indexAddr(b, i.key, deref(x.Type())))
		return one()
	case *ssa.Index:
		b, i := e.eval(s, x.X), e.eval(s, x.Index)
		e.set(s, x, Term("idx", x.Type(), b, i))
		return one()
	case *ssa.Lookup:
		m, k := e.eval(s, x.X), e.eval(s, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			e.set(s, x, Term("idx", x.Type(), m, k))
			return one()
		}
		var v *Val
		if e.H.Lookup != nil {
			v = e.H.Lookup(e, s, m, k, x)
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		if es, ok := e.Entries(s, m); ok && v == nil {
			for _, f := range findEntry(s, es, k) {
				r, has := ZeroOf(et), false
				if f.i >= 0 {
					r, has = es[f.i].Args[1], true
				}
				if x.CommaOk {
					r = Tup(r, Bool(has))
				}
				e.set(f.s, x, r)
				outs = append(outs, f.s)
			}
			return outs, nil
		}
		known := false
		if k.K == KTerm && len(k.Args) == 1 && k.Args[0].key == m.key && (k.S == "key0" || k.S == "key1") {
			known = true
		}
		if v == nil {
			if c, ok := s.cells[indexAddr(m, k.key, et).key]; ok {
				v = c.val
				known = true
			} else if m.K == KSym && m.Alloc {
				v = e.Fresh(s, x, "l", et)
			} else {
				v = Term("ld@"+s.epoch, et, indexAddr(m, k.key, et))
			}
		}
		if x.CommaOk && v.K == KTuple && len(v.Args) == 2 {
			e.set(s, x, v)
		} else if x.CommaOk {
			ok := Term("has@"+s.epoch, types.Typ[types.Bool], m, k)
			if known {
				ok = Bool(true)
			}
			e.set(s, x, Tup(v, ok))
		} else {
			e.set(s, x, v)
		}
		return one()
	case *ssa.MapUpdate:
		m, k, v := e.eval(s, x.Map), e.eval(s, x.Key), e.eval(s, x.Value)
		if e.H.Map != nil {
			e.H.Map(e, s, m, k, v, x)
		}
		if es, ok := e.Entries(s, m); ok {
			for _, f := range findEntry(s, es, k) {
				n := append([]*Val{}, es...)
				if f.i >= 0 {
					n[f.i] = Tup(n[f.i].Args[0], v)
				} else {
					n = append(n, Tup(k, v))
				}
				if len(n) > 8 {
					f.s.dropUnder(allEntries(m))
				} else {
					f.s.Store(allEntries(m), Tup(n...))
				}
				outs = append(outs, f.s)
			}
			return outs, nil
		}
		et := x.Map.Type().Underlying().(*types.Map).Elem()
		if k.K == KConst {
			s.Store(indexAddr(m, k.key, et), v)
		} else {
			// an unknown key may overwrite any known one: constant keys written by this function are kept,
			// as the code bases its markers on distinct prefixes
			s.Store(indexAddr(m, "?", et), v)
		}
		return one()
	case *ssa.Store:
		a, v := e.eval(s, x.Addr), e.eval(s, x.Val)
		if e.H.Deref != nil {
			e.H.Deref(e, s, a, x)
		}
		if v.depth > 9 {
			v = e.Fresh(s, x, "d", x.Val.Type())
		}
		if e.H.Store != nil {
			e.H.Store(e, s, a, v, x)
		}
		if a.K == KAddr && strings.HasPrefix(a.S, "[") && !strings.HasPrefix(a.S, "[c:") {
			s.dropIndexed(a.Args[0])
		}
		s.Store(a, v)
		return one()
	case *ssa.Send:
		ch, v := e.eval(s, x.Chan), e.eval(s, x.X)
		if e.H.Send != nil && !e.H.Send(e, s, ch, v, x) {
			return nil, nil
		}
		return one()
	case *ssa.Slice:
		if cyc {
			e.set(s, x, e.Fresh(s, x, "w", x.Type()))
			return one()
		}
		b := e.eval(s, x.X)
		if x.Low == nil && x.High == nil && x.Max == nil {
			if at, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
				v := Term("mslice", x.Type(), b)
				s.Restrict(Term("len", types.Typ[types.Int], v), Int(at.Len()), EQ)
				e.set(s, x, v)
			} else {
				e.set(s, x, b)
			}
			return one()
		}
		lo, hi := Int(0), Root("end", types.Typ[types.Int])
		if x.Low != nil {
			lo = e.eval(s, x.Low)
		}
		if x.High != nil {
			hi = e.eval(s, x.High)
		}
		if el, ok := e.Elems(s, b); ok && e.Unroll > 0 {
			l, ok1 := IntVal(lo)
			h, ok2 := IntVal(hi)
			if x.High == nil {
				h, ok2 = int64(len(el)), true
			}
			if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(el)) {
				e.set(s, x, e.NewSlice(s, x, x.Type(), el[l:h]...))
				return one()
			}
		}
		e.set(s, x, Term("slice", x.Type(), b, lo, hi))
		return one()
	case *ssa.Select:
		return e.selectInstr(s, x)
	case *ssa.TypeAssert:
		return e.typeAssert(s, x)
	case *ssa.Extract:
		t := e.eval(s, x.Tuple)
		if t.K == KTuple && x.Index < len(t.Args) {
			e.set(s, x, t.Args[x.Index])
		} else {
			e.set(s, x, Term(fmt.Sprintf("ext%d", x.Index), x.Type(), t))
		}
		return one()
	case *ssa.Range:
		if es, ok := e.Entries(s, e.eval(s, x.X)); ok {
			e.set(s, x, Term("range", nil, e.eval(s, x.X), Tup(es...)))
		} else {
			e.set(s, x, Term("range", nil, e.eval(s, x.X)))
		}
		if e.Unroll > 0 {
			s.Set("@range"+fmt.Sprint(e.id(x)), 0)
		}
		return one()
	case *ssa.Next:
		if e.Unroll > 0 && !x.IsString {
			if rg, ok := x.Iter.(*ssa.Range); ok {
				m := e.eval(s, rg.X)
				if r := e.eval(s, rg); r.K == KTerm && r.S == "range" {
					m = r.Args[0]
					if mt, ok := rg.X.Type().Underlying().(*types.Map); ok && len(r.Args) == 2 {
						k := "@range" + fmt.Sprint(e.id(rg))
						n := s.Mon[k]
						if n >= len(r.Args[1].Args) {
							e.set(s, x, Tup(Bool(false), ZeroOf(mt.Key()), ZeroOf(mt.Elem())))
							return one()
						}
						s.Set(k, n+1)
						en := r.Args[1].Args[n]
						e.set(s, x, Tup(Bool(true), en.Args[0], en.Args[1]))
						return one()
					}
				}
				mt, isMap := rg.X.Type().Underlying().(*types.Map)
				if isMap && !(m.K == KSym && m.Alloc) {
					k := "@range" + fmt.Sprint(e.id(rg))
					n := s.Mon[k]
					count := 2
					if c, ok := s.knownLen(m); ok {
						count = int(c)
					}
					if m.K == KNil || m.K == KZero || n >= count {
						e.set(s, x, Tup(Bool(false), ZeroOf(mt.Key()), ZeroOf(mt.Elem())))
						return one()
					}
					s.Set(k, n+1)
					key := MapKey(m, max(count-1-n, 0), mt.Key())
					e.set(s, x, Tup(Bool(true), key, s.Load(indexAddr(m, key.key, mt.Elem()), mt.Elem(), e.immutable)))
					return one()
				}
			}
		}
		ok := e.Fresh(s, x, "ok", types.Typ[types.Bool])
		tt := x.Type().(*types.Tuple)
		k := e.Fresh(s, x, "key", tt.At(1).Type())
		v := e.Fresh(s, x, "val", tt.At(2).Type())
		e.set(s, x, Tup(ok, k, v))
		return one()
	}
	if v, ok := in.(ssa.Value); ok {
		e.set(s, v, e.Fresh(s, in, "x", v.Type()))
	}
	return one()
}

// smallEnough: values a loop may build up concretely in Unroll mode
func (e *Engine) smallEnough(v *Val) bool {
	if v.K == KConst {
		if i, ok := IntVal(v); ok {
			return i <= int64(e.Unroll)+1 && i >= -int64(e.Unroll)-1
		}
		return true
	}
	return v.depth <= e.Unroll+2
}

// MapKey names the i-th entry (in key order) of a map whose content is unknown.
func MapKey(m *Val, i int, t types.Type) *Val { return Term(fmt.Sprintf("key%d", i), t, m) }

// NewSlice makes a slice over a new array with the given elements.
func (e *Engine) NewSlice(s *State, in any, t types.Type, el ...*Val) *Val {
	et := t.Underlying().(*types.Slice).Elem()
	at := types.NewArray(et, int64(len(el)))
	arr := e.Fresh(s, in, e.nth(s, in, fmt.Sprintf("arr%d", len(el))), types.NewPointer(at))
	arr = mk(&Val{K: KSym, S: arr.S, T: arr.T, Alloc: true})
	for i, v := range el {
		s.Store(indexAddr(arr, Int(int64(i)).key, et), v)
	}
	v := Term("mslice", t, arr)
	s.Restrict(Term("len", types.Typ[types.Int], v), Int(int64(len(el))), EQ)
	return v
}

// Elems lists the elements of a slice of known length.
func (e *Engine) Elems(s *State, v *Val) ([]*Val, bool) {
	switch {
	case v.K == KNil || v.K == KZero:
		return nil, true
	case v.K == KTerm && v.S == "mslice":
		at, ok := deref(v.Args[0].T).Underlying().(*types.Array)
		if !ok || at.Len() > 16 {
			return nil, false
		}
		var out []*Val
		for i := int64(0); i < at.Len(); i++ {
			out = append(out, s.Load(indexAddr(v.Args[0], Int(i).key, at.Elem()), at.Elem(), e.immutable))
		}
		return out, true
	}
	return nil, false
}

// writeThrough stores what is copied to a part of a slice in that slice: slicing makes new elements here.
func (e *Engine) writeThrough(s *State, in ssa.Instruction, el []*Val) {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	part, ok := call.Common().Args[0].(*ssa.Slice)
	off := int64(0)
	for ; ok; part, ok = part.X.(*ssa.Slice) {
		if part.Low != nil {
			lo, known := IntVal(e.eval(s, part.Low))
			if !known {
				return
			}
			off += lo
		}
		b := e.eval(s, part.X)
		arr, et := b, types.Type(nil)
		if b.K == KTerm && b.S == "mslice" {
			arr = b.Args[0]
		} else if _, ok := part.X.Type().Underlying().(*types.Pointer); !ok {
			return
		}
		at, isArr := deref(arr.T).Underlying().(*types.Array)
		if !isArr {
			return
		}
		et = at.Elem()
		for i, x := range el {
			s.Store(indexAddr(arr, Int(off+int64(i)).key, et), x)
		}
	}
}

func (e *Engine) setElems(s *State, v *Val, el []*Val) {
	if v.K != KTerm || v.S != "mslice" {
		return
	}
	et := deref(v.Args[0].T).Underlying().(*types.Array).Elem()
	for i, x := range el {
		s.Store(indexAddr(v.Args[0], Int(int64(i)).key, et), x)
	}
}

// NewMap makes a map with the given entries (tuples of key and value).
func (e *Engine) NewMap(s *State, name string, t types.Type, entries ...*Val) *Val {
	m := mk(&Val{K: KSym, S: "$" + name + ";", T: t, Alloc: true, Root: true})
	s.Store(allEntries(m), Tup(entries...))
	s.Restrict(m, NilOf(t), LT|GT)
	return m
}

// FixedSlice makes a slice over a named array.
func (e *Engine) FixedSlice(s *State, name string, t types.Type, el ...*Val) *Val {
	et := t.Underlying().(*types.Slice).Elem()
	arr := mk(&Val{K: KSym, S: "$" + name + ";", T: types.NewPointer(types.NewArray(et, int64(len(el)))), Alloc: true, Root: true})
	v := Term("mslice", t, arr)
	e.setElems(s, v, el)
	s.Restrict(Term("len", types.Typ[types.Int], v), Int(int64(len(el))), EQ)
	return v
}

// StructVal is a value of a struct type.
func StructVal(t types.Type, fields ...*Val) *Val { return mk(&Val{K: KStruct, T: t, Args: fields}) }

func allEntries(m *Val) *Val { return indexAddr(m, "$all", nil) }

// Entries lists the entries (tuples of key and value) of a map built by the analysed code.
func (e *Engine) Entries(s *State, m *Val) ([]*Val, bool) {
	if !e.Maps || m.K != KSym || !m.Alloc {
		return nil, false
	}
	c, ok := s.cells[allEntries(m).key]
	if !ok || c.val.K != KTuple {
		return nil, false
	}
	return c.val.Args, true
}

type foundEntry struct {
	s *State
	i int
}

// findEntry looks a key up among the entries, deciding one way and the other where nothing is known.
func findEntry(s *State, es []*Val, k *Val) []foundEntry {
	var out []foundEntry
	cur := s
	for i, en := range es {
		if en.Args[0].key == k.key || cur.Rel(en.Args[0], k) == EQ {
			return append(out, foundEntry{cur, i})
		}
		if cur.Rel(en.Args[0], k)&EQ == 0 {
			continue
		}
		eq := cur.Clone()
		if eq.Restrict(en.Args[0], k, EQ) {
			out = append(out, foundEntry{eq, i})
		}
		cur = cur.Clone()
		if !cur.Restrict(en.Args[0], k, LT|GT) {
			return out
		}
	}
	return append(out, foundEntry{cur, -1})
}

func sizeBits(t types.Type, op token.Token) uint {
	if op != token.XOR {
		return 0
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		switch b.Kind() {
		case types.Uint8:
			return 8
		case types.Uint16:
			return 16
		case types.Uint32:
			return 32
		default:
			return 64
		}
	}
	return 0
}

func isNumOrStrSame(v *Val, t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch v.C.Kind() {
	case constant.Int:
		return b.Info()&types.IsInteger != 0
	case constant.String:
		return b.Info()&types.IsString != 0
	case constant.Bool:
		return true
	}
	return false
}

func negate(v *Val) *Val {
	if v.K == KConst {
		return Bool(!IsTrue(v))
	}
	if v.K == KTerm && v.S == "not" {
		return v.Args[0]
	}
	return Term("not", types.Typ[types.Bool], v)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (e *Engine) binop(s *State, x *ssa.BinOp) *Val {
	a, b := e.eval(s, x.X), e.eval(s, x.Y)
	if bits := opBits(x.Op); bits != 0 {
		if e.NaN != nil && isFloat(x.X.Type()) && (Strip(a).key == e.NaN.key || Strip(b).key == e.NaN.key) {
			return Bool(x.Op == token.NEQ)
		}
		// comparing a concrete value with an interface
		if a.K == KConst && b.K == KConst {
			r := cmpConst(a.C, b.C)
			if r&bits == r {
				return Bool(true)
			}
			if r&bits == 0 {
				return Bool(false)
			}
		}
		r := s.Rel(a, b)
		if r != 0 && r&bits == r {
			return Bool(true)
		}
		if r&bits == 0 {
			return Bool(false)
		}
		return Term("cmp:"+x.Op.String(), x.Type(), a, b)
	}
	if a.K == KConst && b.K == KConst {
		var r constant.Value
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if a.C.Kind() == b.C.Kind() && a.C.Kind() != constant.Bool {
				r = constant.BinaryOp(a.C, x.Op, b.C)
			}
		case token.REM, token.QUO:
			if a.C.Kind() == constant.Int && b.C.Kind() == constant.Int && constant.Sign(b.C) != 0 {
				op := x.Op
				if op == token.QUO {
					op = token.QUO_ASSIGN
				}
				r = constant.BinaryOp(a.C, op, b.C)
			}
		}
		if r != nil {
			if r.Kind() == constant.Int && (x.Op == token.ADD || x.Op == token.SUB) {
				if i, ok := constant.Int64Val(r); ok && (i > 16 || i < -16) && !bigOperand(a, b) {
					return e.Fresh(s, x, "big", x.Type())
				}
			}
			return Const(r, x.Type())
		}
	}
	return Term("op"+x.Op.String(), x.Type(), a, b)
}

func bigOperand(a, b *Val) bool {
	big := func(v *Val) bool {
		i, ok := IntVal(v)
		return !ok || i > 16 || i < -16
	}
	return big(a) && big(b)
}

func (e *Engine) typeAssert(s *State, x *ssa.TypeAssert) ([]*State, []Exit) {
	v := e.eval(s, x.X)
	var r, ok *Val
	if types.IsInterface(x.AssertedType) {
		r = v
		if v.K == KIface {
			if types.Implements(v.T, x.AssertedType.Underlying().(*types.Interface)) {
				ok = Bool(true)
			} else {
				ok = Bool(false)
			}
		} else if v.K == KNil {
			ok = Bool(false)
		}
	} else if v.K == KIface {
		if types.Identical(v.T, x.AssertedType) {
			r, ok = v.Args[0], Bool(true)
		} else {
			r, ok = ZeroOf(x.AssertedType), Bool(false)
		}
	} else if v.K == KNil {
		r, ok = ZeroOf(x.AssertedType), Bool(false)
	} else {
		r = Term("ta", x.AssertedType, v)
	}
	if ok == nil {
		ok = Term("isT:"+tstr(x.AssertedType), types.Typ[types.Bool], v)
	}
	if x.CommaOk {
		e.set(s, x, Tup(r, ok))
		return []*State{s}, nil
	}
	if IsFalse(ok) {
		return nil, []Exit{{St: s, Panic: true, Pos: x.Pos()}}
	}
	if r.K == KTerm && r.S == "ta" && isPtr(r) {
		s.Restrict(r, NilOf(r.T), LT|GT)
	}
	e.set(s, x, r)
	return []*State{s}, nil
}

func (e *Engine) selectInstr(s *State, x *ssa.Select) ([]*State, []Exit) {
	var outs []*State
	chans := make([]*Val, len(x.States))
	for i, c := range x.States {
		chans[i] = e.eval(s, c.Chan)
	}
	if e.H.Select != nil {
		e.H.Select(e, s, x, chans)
	}
	mkRes := func(st *State, idx int, got *Val) {
		ok := Bool(false)
		if idx >= 0 && x.States[idx].Dir == types.RecvOnly {
			ok = e.recvOk(st, chans[idx], x)
		}
		args := []*Val{Int(int64(idx)), ok}
		for i, c := range x.States {
			if c.Dir == types.RecvOnly {
				et := c.Chan.Type().Underlying().(*types.Chan).Elem()
				if i == idx && got != nil {
					args = append(args, got)
				} else if i == idx {
					args = append(args, e.Fresh(st, x, fmt.Sprintf("r%d", i), et))
				} else {
					args = append(args, ZeroOf(et))
				}
			}
		}
		e.set(st, x, Tup(args...))
	}
	for i, c := range x.States {
		st := s.Clone()
		st.Note(c.Pos, "select case %d", i)
		var got *Val
		if c.Dir == types.SendOnly {
			if e.H.Send != nil && !e.H.Send(e, st, chans[i], e.eval(st, c.Send), x) {
				continue
			}
		} else if e.H.Recv != nil {
			g, ok := e.H.Recv(e, st, chans[i], x)
			if !ok {
				continue
			}
			got = g
		}
		mkRes(st, i, got)
		outs = append(outs, st)
	}
	if !x.Blocking && (e.H.Default == nil || e.H.Default(e, s, x, chans)) {
		st := s.Clone()
		mkRes(st, -1, nil)
		outs = append(outs, st)
	}
	return outs, nil
}

func (e *Engine) recvOk(st *State, ch *Val, in ssa.Instruction) *Val {
	if e.H.RecvOk != nil {
		if v := e.H.RecvOk(e, st, ch, in); v != nil {
			return v
		}
	}
	return e.Fresh(st, in, "k", types.Typ[types.Bool])
}

// ---- calls ----

func (e *Engine) callInfo(s *State, in ssa.Instruction, cc *ssa.CallCommon) *CallInfo {
	c := &CallInfo{Instr: in, Pos: cc.Pos(), Caller: in.Parent(), Res: cc.Signature().Results()}
	if !c.Pos.IsValid() {
		c.Pos = in.Pos()
	}
	if cc.IsInvoke() {
		c.Method = cc.Method
		c.Recv = e.eval(s, cc.Value)
	} else if f := cc.StaticCallee(); f != nil && f.Parent() == nil {
		c.Fn = f
		if len(f.FreeVars) > 0 {
			c.FnVal = e.eval(s, cc.Value)
		}
	} else {
		c.FnVal = e.eval(s, cc.Value)
		if c.FnVal.K == KFn {
			c.Fn = c.FnVal.Fn
		}
	}
	for _, a := range cc.Args {
		c.Args = append(c.Args, e.eval(s, a))
	}
	return c
}

func (e *Engine) callInfoD(s *State, d *deferred) *CallInfo {
	cc := &d.instr.Call
	c := &CallInfo{Instr: d.instr, Pos: d.instr.Pos(), Caller: d.instr.Parent(), Res: cc.Signature().Results(), Defer: true, Args: d.args}
	if cc.IsInvoke() {
		c.Method = cc.Method
		c.Recv = d.recv
	} else if d.fn != nil {
		c.FnVal = d.fn
		if d.fn.K == KFn {
			c.Fn = d.fn.Fn
		}
	} else {
		c.Fn = cc.StaticCallee()
	}
	return c
}

func (e *Engine) callInstr(s *State, in ssa.Instruction, cc *ssa.CallCommon, res ssa.Value) (outs []*State, panics []Exit) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(s, in, b, cc, res)
	}
	c := e.callInfo(s, in, cc)
	exits := e.Call(s, c)
	for _, x := range exits {
		if x.Panic {
			panics = append(panics, x)
			continue
		}
		if res != nil {
			switch len(x.Res) {
			case 0:
				e.set(x.St, res, Tup())
			case 1:
				e.set(x.St, res, x.Res[0])
			default:
				e.set(x.St, res, Tup(x.Res...))
			}
		}
		outs = append(outs, x.St)
	}
	return outs, panics
}

// CallValue calls a function value from a hook's model of a library operation.
func (e *Engine) CallValue(s *State, fn *Val, args []*Val, in ssa.Instruction) []Exit {
	fn = Strip(fn)
	if fn.K == KNil {
		return []Exit{{St: s, Panic: true}}
	}
	c := &CallInfo{Instr: in, Pos: in.Pos(), Caller: in.Parent(), FnVal: fn, Args: args}
	if fn.K == KFn {
		c.Fn = fn.Fn
		c.Res = fn.Fn.Signature.Results()
	} else if sig, ok := fn.T.Underlying().(*types.Signature); ok {
		c.Res = sig.Results()
	}
	return e.Call(s, c)
}

// Unknown gives a call fresh results.
func (e *Engine) Unknown(s *State, c *CallInfo) []Exit {
	var res []*Val
	if c.Res != nil {
		for i := 0; i < c.Res.Len(); i++ {
			res = append(res, e.Fresh(s, c.Instr, fmt.Sprintf("u%d", i), c.Res.At(i).Type()))
		}
	}
	return []Exit{{St: s, Res: res, Pos: c.Pos}}
}

// Call evaluates a call.
func (e *Engine) Call(s *State, c *CallInfo) []Exit {
	e.tick()
	e.Stats.Calls++
	if e.H.Call != nil {
		if ex, ok := e.H.Call(e, s, c); ok {
			return ex
		}
	}
	fn := c.Fn
	args := c.Args
	var binds []*Val
	if c.FnVal != nil && c.FnVal.K == KFn {
		binds = c.FnVal.Args
	}
	if fn == nil && c.Method != nil && s.IsNil(c.Recv) == 1 {
		s.Note(c.Pos, "a method of nil is called")
		return []Exit{{St: s, Panic: true, Pos: c.Pos}}
	}
	if fn == nil && c.Method != nil {
		T, recv := e.dynamic(s, c)
		if T != nil {
			if m := e.P.SSA.LookupMethod(T, c.Method.Pkg(), c.Method.Name()); m != nil {
				fn = m
				args = append([]*Val{recv}, c.Args...)
				c2 := *c
				c2.Fn, c2.Args, c2.Method, c2.Recv = fn, args, nil, nil
				if e.H.Call != nil {
					if ex, ok := e.H.Call(e, s, &c2); ok {
						return ex
					}
				}
				c = &c2
			}
		}
	}
	if fn == nil {
		if c.FnVal != nil && s.IsNil(c.FnVal) == 1 {
			return []Exit{{St: s, Panic: true, Pos: c.Pos}}
		}
		e.Stats.Unknown++
		return e.Unknown(s, c)
	}
	if ex, ok := e.library(s, c, fn, args); ok {
		return ex
	}
	inModule := fn.Pkg != nil && e.P.InModule(fn.Pkg.Pkg.Path()) || fn.Pkg == nil && len(fn.Blocks) > 0
	if fn.Pkg == nil && fn.Origin() != nil && fn.Origin().Pkg != nil {
		inModule = e.P.InModule(fn.Origin().Pkg.Pkg.Path())
	}
	if !inModule || len(fn.Blocks) == 0 || e.H.Opaque != nil && e.H.Opaque(fn) {
		if !inModule {
			e.havocArgs(s, c, fn, args)
		}
		return e.Unknown(s, c)
	}
	rec := 0
	for _, f := range s.frames {
		if f.fn == fn {
			rec++
		}
	}
	if rec >= max(2, e.Recur) || len(s.frames) > 40 {
		e.incomplete("recursion through %s not unrolled further", e.P.Rel(fn.String()))
		return e.Unknown(s, c)
	}
	ctx := "0"
	if len(s.frames) > 0 {
		ctx = s.top().ctx
	}
	k := fmt.Sprintf("%s/%d:%d", ctx, e.id(c.Instr), e.id(fn))
	id, ok := e.ctxs[k]
	if !ok {
		id = fmt.Sprint(len(e.ctxs) + 1)
		e.ctxs[k] = id
	}
	exits := e.run(fn, args, binds, s, id)
	if e.H.After != nil {
		for i := range exits {
			e.H.After(e, exits[i].St, c, &exits[i])
		}
	}
	return exits
}

// dynamic resolves the receiver's concrete type of an interface call.
func (e *Engine) dynamic(s *State, c *CallInfo) (types.Type, *Val) {
	r := c.Recv
	if r.K == KIface {
		return r.T, r.Args[0]
	}
	if e.H.Resolve != nil {
		if T := e.H.Resolve(c.Method, r); T != nil {
			return T, Term("ta", T, r)
		}
	}
	if c.Method.Pkg() == nil || !e.P.InModule(c.Method.Pkg().Path()) {
		return nil, nil
	}
	T, ok := e.impl[c.Method]
	if !ok {
		if sig := c.Method.Type().(*types.Signature); sig.Recv() != nil {
			if it, ok := sig.Recv().Type().Underlying().(*types.Interface); ok {
				impls := e.P.Implementers(it)
				if len(impls) == 1 {
					T = impls[0]
				}
			}
		}
		e.impl[c.Method] = T
	}
	if T == nil {
		return nil, nil
	}
	return T, Term("ta", T, r)
}

// Havoc forgets what is known about the objects the arguments point to, as a call that fills them in would.
func (e *Engine) Havoc(s *State, c *CallInfo) { e.havocArgs(s, c, nil, c.Args) }

func (e *Engine) havocArgs(s *State, c *CallInfo, fn *ssa.Function, args []*Val) {
	if fn != nil && fn.Pkg != nil {
		switch p := fn.Pkg.Pkg.Path(); {
		case p == "fmt" && !strings.Contains(fn.Name(), "can"), strings.HasPrefix(p, "go.uber.org/zap"), p == "strings", p == "errors", p == "strconv", p == "sync", p == "sync/atomic", p == "time", p == "sort", p == "slices":
			return
		}
	}
	for i, a := range args {
		a = Strip(a)
		if a.K != KSym && a.K != KAddr || !isPtr(a) {
			continue
		}
		has := a.K == KSym && a.Alloc
		for k := range s.cells {
			if strings.Contains(k, a.key) {
				has = true
			}
		}
		if has {
			s.Store(a, e.Fresh(s, c.Instr, fmt.Sprintf("h%d", i), deref(a.T)))
		}
	}
}

// library models the few standard operations every property needs.
func (e *Engine) library(s *State, c *CallInfo, fn *ssa.Function, args []*Val) ([]Exit, bool) {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		if e.H.HavocOnLock {
			ep := e.Fresh(s, c.Instr, "e", nil)
			s.epoch = ep.S
			for k, cl := range s.cells {
				r := rootOf(cl.addr)
				if !(r.K == KSym && r.Alloc) {
					delete(s.cells, k)
				}
			}
		}
		return []Exit{{St: s, Pos: c.Pos}}, true
	case "(*sync.Once).Do":
		a := s.Clone()
		out := e.CallValue(a, args[1], nil, c.Instr)
		for i := range out {
			out[i].Res = nil
		}
		return append(out, Exit{St: s, Pos: c.Pos}), true
	case "os.Exit", "log.Fatal", "log.Fatalf", "(*go.uber.org/zap.Logger).Fatal", "(*go.uber.org/zap.Logger).Panic", "runtime.Goexit":
		return []Exit{{St: s, Panic: true, Pos: c.Pos}}, true
	}
	if e.Maps && e.Unroll > 0 {
		switch name {
		case "sort.Strings", "slices.Sort":
			if el, ok := e.Elems(s, args[0]); ok {
				known := true
				for _, v := range el {
					if _, ok := StrVal(v); !ok {
						known = false
					}
				}
				if known {
					el = append([]*Val{}, el...)
					sort.SliceStable(el, func(i, j int) bool { a, _ := StrVal(el[i]); b, _ := StrVal(el[j]); return a < b })
					e.setElems(s, args[0], el)
					return []Exit{{St: s, Pos: c.Pos}}, true
				}
			}
		case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
			// the elements stay the same, in an order the rules do not depend on
			if _, ok := e.Elems(s, Strip(args[0])); ok {
				return []Exit{{St: s, Pos: c.Pos}}, true
			}
		}
	}
	if strings.HasPrefix(name, "slices.") && len(args) >= 1 {
		t := c.Res
		one := func(v *Val) ([]Exit, bool) { return []Exit{{St: s, Res: []*Val{v}, Pos: c.Pos}}, true }
		switch name {
		case "slices.Insert":
			if i, ok := IntVal(args[1]); ok && i == 0 {
				return one(Term("append", t.At(0).Type(), args[2], args[0]))
			}
		case "slices.Delete":
			lo, ok1 := IntVal(args[1])
			if hi, ok2 := IntVal(args[2]); ok1 && ok2 && lo == 0 {
				return one(Term("slice", t.At(0).Type(), args[0], Int(hi), Root("end", types.Typ[types.Int])))
			}
		case "slices.Clone":
			return one(args[0])
		case "slices.Concat":
			if a := args[0]; a.K == KTerm && a.S == "mslice" {
				if at, ok := deref(a.Args[0].T).Underlying().(*types.Array); ok && at.Len() == 2 {
					return one(Term("append", t.At(0).Type(), s.Load(indexAddr(a.Args[0], Int(0).key, at.Elem()), at.Elem(), nil), s.Load(indexAddr(a.Args[0], Int(1).key, at.Elem()), at.Elem(), nil)))
				}
			}
		}
	}
	if nonNilResult(name) {
		out := e.Unknown(s, c)
		s.Restrict(out[0].Res[0], NilOf(out[0].Res[0].T), LT|GT)
		return out, true
	}
	return nil, false
}

func (e *Engine) builtin(s *State, in ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon, res ssa.Value) ([]*State, []Exit) {
	var args []*Val
	for _, a := range cc.Args {
		args = append(args, e.eval(s, a))
	}
	return e.builtinArgs(s, in, b, args, res)
}

func (e *Engine) builtinArgs(s *State, in ssa.Instruction, b *ssa.Builtin, args []*Val, res ssa.Value) ([]*State, []Exit) {
	one := func(v *Val) ([]*State, []Exit) {
		if res != nil && v != nil {
			e.set(s, res, v)
		}
		return []*State{s}, nil
	}
	switch b.Name() {
	case "ssa:wrapnilchk":
		return one(args[0])
	case "len", "cap":
		v := args[0]
		if v.K == KNil || v.K == KZero {
			return one(Int(0))
		}
		if str, ok := StrVal(v); ok {
			return one(Int(int64(len(str))))
		}
		l := Term("len", types.Typ[types.Int], v)
		if es, ok := e.Entries(s, v); ok {
			return one(Int(int64(len(es))))
		}
		if e.Unroll > 0 && e.Maps {
			if c, ok := s.knownLen(v); ok {
				return one(Int(c))
			}
		}
		if v.K == KSym && v.Alloc {
			// a container built here: its length is not modelled unless recorded
			if r := s.Rel(l, Int(0)); r == 7 || r == EQ|GT {
				return one(Term("len", types.Typ[types.Int], v))
			}
		}
		if v.K == KTerm && v.S == "mslice" {
			for _, f := range s.facts {
				if f.bits == EQ && f.x.key == l.key && f.y.K == KConst {
					return one(f.y)
				}
				if f.bits == EQ && f.y.key == l.key && f.x.K == KConst {
					return one(f.x)
				}
			}
			if at, ok := deref(v.Args[0].T).Underlying().(*types.Array); ok {
				return one(Int(at.Len()))
			}
		}
		return one(l)
	case "append":
		if e.Unroll > 0 && len(args) == 2 {
			a, ok1 := e.Elems(s, args[0])
			b, ok2 := e.Elems(s, args[1])
			if ok1 && ok2 && len(a)+len(b) <= e.Unroll {
				return one(e.NewSlice(s, in, res.Type(), append(append([]*Val{}, a...), b...)...))
			}
		}
		if e.cyclic(s.top().fn)[res] {
			return one(e.Fresh(s, in, "w", res.Type()))
		}
		return one(Term("append", res.Type(), args...))
	case "min", "max":
		if res == nil || e.Unroll == 0 || e.cyclic(s.top().fn)[res] || len(args) != 2 {
			break
		}
		want := LT | EQ
		if b.Name() == "max" {
			want = GT | EQ
		}
		switch r := s.Rel(args[0], args[1]); {
		case r&^want == 0:
			return one(args[0])
		case r&want&^EQ == 0:
			return one(args[1])
		}
	case "close":
		if e.H.Close != nil {
			e.H.Close(e, s, args[0], in)
		}
		return one(nil)
	case "delete":
		if e.H.Map != nil {
			e.H.Map(e, s, args[0], args[1], nil, in)
		}
		if es, ok := e.Entries(s, args[0]); ok {
			var outs []*State
			for _, f := range findEntry(s, es, args[1]) {
				if f.i >= 0 {
					f.s.Store(allEntries(args[0]), Tup(append(append([]*Val{}, es[:f.i]...), es[f.i+1:]...)...))
				}
				outs = append(outs, f.s)
			}
			return outs, nil
		}
		s.dropUnder(indexAddr(args[0], args[1].key, nil))
		return one(nil)
	case "clear":
		if _, ok := e.Entries(s, args[0]); ok {
			s.Store(allEntries(args[0]), Tup())
			return one(nil)
		}
	case "panic":
		return nil, []Exit{{St: s, Panic: true, Pos: in.Pos()}}
	case "copy":
		dst, ok1 := e.Elems(s, args[0])
		src, ok2 := e.Elems(s, args[1])
		if ok1 && ok2 && e.Unroll > 0 {
			n := min(len(dst), len(src))
			e.setElems(s, args[0], src[:n])
			e.writeThrough(s, in, src[:n])
			return one(Int(int64(n)))
		}
		s.dropIndexed(args[0])
	}
	if res != nil && res.Type() != nil {
		if tt, ok := res.Type().(*types.Tuple); ok && tt.Len() == 0 {
			return one(nil)
		}
		return one(e.Fresh(s, in, "b", res.Type()))
	}
	return one(nil)
}

// Witness renders the branch trace that led to a state.
func (e *Engine) Witness(t *Trace, max int) []string {
	var out []string
	for ; t != nil && len(out) < max; t = t.Prev {
		out = append(out, e.P.Pos(t.Pos)+" "+t.What)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// accumulates: the value may be built from its own value of an earlier round of a loop.
func accumulates(v ssa.Value, depth int) bool {
	if depth > 8 {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return true
	case *ssa.BinOp:
		return accumulates(x.X, depth+1) || accumulates(x.Y, depth+1)
	case *ssa.UnOp:
		_, local := x.X.(*ssa.Alloc)
		return local
	}
	return false
}

// Deadline ends an analysis that runs away (zero: never); OutOfTime is what it panics with.
var Deadline time.Time

const OutOfTime = "out of time"

var ticks int

func (e *Engine) tick() {
	ticks++
	if ticks%512 == 0 && !Deadline.IsZero() && time.Now().After(Deadline) {
		panic(OutOfTime)
	}
}
