package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S02", "Locks are released and taken in one order", checkS02)
}

// inTrees: the trees lock their nodes hand over hand, which other properties decide.
func inTrees(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "/internal/datastructures/")
}

// lockClass names a lock by the field that holds it.
func (f *lockFlow) lockClass(l ssa.Value) string {
	switch x := l.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return f.c.P.Rel(deref(fa.X.Type()).String()) + "." + structOf(deref(fa.X.Type())).Field(fa.Field).Name()
		}
	case *ssa.FieldAddr:
		return f.c.P.Rel(deref(x.X.Type()).String()) + "." + structOf(deref(x.X.Type())).Field(x.Field).Name()
	}
	return ""
}

// treeClass names the tree an operation is called on by the field that holds it.
func (f *lockFlow) treeClass(com *ssa.CallCommon) string {
	if !com.IsInvoke() {
		return ""
	}
	n := namedOf(com.Value.Type())
	if n == nil || n.Obj().Pkg() == nil || !strings.Contains(n.Obj().Pkg().Path(), "/internal/datastructures/") || !takesCallback(com.Method) {
		return ""
	}
	if c := f.lockClass(com.Value); c != "" {
		return "the tree " + c
	}
	return ""
}

func takesCallback(m *types.Func) bool {
	p := m.Type().(*types.Signature).Params()
	for i := 0; i < p.Len(); i++ {
		if _, ok := p.At(i).Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// acquired is a lock that a call takes: its class and, when it can be told, which object it belongs to.
type acquired struct {
	class string
	path  lockPath
}

type lockOrder struct {
	*lockFlow
	sum    map[*ssa.Function]map[acquired]bool
	class  map[lockPath]string
	edges  map[string]map[string]string // held -> taken -> where
	report func(fn *ssa.Function, in ssa.Instruction, class, how string)
}

// takes are the locks a call may take while it runs.
func (o *lockOrder) takes(in ssa.CallInstruction) map[acquired]bool {
	out := map[acquired]bool{}
	com := in.Common()
	if op, l := lockCall(com); op == "lock" || op == "rlock" {
		out[acquired{o.lockClass(l), o.path(l)}] = true
		return out
	}
	if t := o.treeClass(com); t != "" {
		out[acquired{class: t}] = true
	}
	for _, v := range append([]ssa.Value{com.Value}, com.Args...) {
		for _, g := range o.closures(v) {
			if mc := o.closed[g]; mc != nil && (v == com.Value || o.syncValue(mc)) {
				for a := range o.sum[g] {
					out[a] = true
				}
			}
		}
	}
	args := com.Args
	if com.IsInvoke() {
		args = append([]ssa.Value{com.Value}, args...)
	}
	for _, g := range o.targets(com) {
		if inTrees(g) {
			continue
		}
		for a := range o.sum[g] {
			b := acquired{class: a.class}
			for i, p := range g.Params {
				if a.path.root == p && i < len(args) {
					q := o.path(args[i])
					b.path = lockPath{q.root, q.path + a.path.path}
				}
			}
			if o.closed[g] != nil && b.path.root == nil {
				b.path = a.path
			}
			out[b] = true
		}
	}
	return out
}

func checkS02(c *Ctx) error {
	c.Rule("released", "on every path out of a function the locks it took are released, once", 20)
	c.Rule("again", "no lock is taken, by a function or by what it calls, while the same goroutine holds it", 20)
	c.Rule("order", "the order in which locks and trees are taken while others are held has no cycle", 4)
	f := c.lockFlow()
	o := &lockOrder{lockFlow: f, sum: map[*ssa.Function]map[acquired]bool{}, class: map[lockPath]string{}, edges: map[string]map[string]string{}}
	var fns []*ssa.Function
	for _, fn := range c.P.AllFuncs {
		if !inTrees(fn) {
			fns = append(fns, fn)
			c.Funcs[fn.String()] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			eachInstr(fn, func(in ssa.Instruction) {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				if _, isGo := in.(*ssa.Go); isGo {
					return
				}
				if op, l := lockCall(call.Common()); op != "" {
					o.class[f.path(l)] = o.lockClass(l)
				}
				for a := range o.takes(call) {
					if o.sum[fn] == nil {
						o.sum[fn] = map[acquired]bool{}
					}
					if !o.sum[fn][a] && len(o.sum[fn]) < 400 {
						o.sum[fn][a] = true
						changed = true
					}
				}
			})
		}
	}
	// releasing functions, for locks that are taken and released by different methods
	releases := map[string]bool{}
	for _, fn := range fns {
		took := map[string]bool{}
		rel := map[string]bool{}
		eachInstr(fn, func(in ssa.Instruction) {
			if call, ok := in.(ssa.CallInstruction); ok {
				if op, l := lockCall(call.Common()); op == "unlock" {
					rel[o.lockClass(l)] = true
				} else if op != "" {
					took[o.lockClass(l)] = true
				}
			}
		})
		for k := range rel {
			if !took[k] && fn.Parent() == nil {
				releases[k] = true
			}
		}
	}
	for _, fn := range fns {
		o.balance(fn, releases)
		eachInstr(fn, func(in ssa.Instruction) {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if _, isGo := in.(*ssa.Go); isGo {
				return
			}
			held := f.at[in]
			tree := o.treeClass(call.Common())
			taken := o.takes(call)
			for a := range taken {
				for k, m := range held {
					if k.root == nil || m == 0 {
						continue
					}
					c.Ob("again", c.P.Rel(fn.String())+" | "+a.class)
					if a.path.root != nil && a.path == k {
						c.Fail("again", c.P.Rel(fn.String())+" | "+a.class, c.P.Pos(in.Pos()), a.class+" is taken while it is held already, which never ends")
						continue
					}
					o.edge(o.class[k], a.class, c.P.Pos(in.Pos()))
				}
				if tree != "" && a.class != tree {
					o.edge(tree, a.class, c.P.Pos(in.Pos()))
				}
			}
			if op, _ := lockCall(call.Common()); op == "lock" || op == "rlock" {
				c.Ob("again", c.P.Rel(fn.String()))
			}
		})
	}
	o.cycles()
	return nil
}

func (o *lockOrder) edge(from, to, where string) {
	if from == "" || to == "" {
		return
	}
	if o.edges[from] == nil {
		o.edges[from] = map[string]string{}
	}
	if w, ok := o.edges[from][to]; !ok || where < w {
		o.edges[from][to] = where
	}
}

func (o *lockOrder) cycles() {
	var nodes []string
	for n := range o.edges {
		nodes = append(nodes, n)
	}
	sort.Strings(nodes)
	for _, n := range nodes {
		var to []string
		for t := range o.edges[n] {
			to = append(to, t)
		}
		sort.Strings(to)
		for _, t := range to {
			o.c.Ob("order", n+" before "+t)
			if path := o.reach(t, n, map[string]bool{}); path != nil {
				var w []string
				at := n
				for _, p := range append([]string{t}, path...) {
					w = append(w, p+" is taken while "+at+" is held: "+o.edges[at][p])
					at = p
				}
				o.c.Fail("order", n+" before "+t, o.edges[n][t], "the locks are also taken the other way round, so two goroutines can wait for each other", w...)
			}
		}
	}
}

func (o *lockOrder) reach(from, to string, seen map[string]bool) []string {
	if from == to {
		return []string{}
	}
	seen[from] = true
	var next []string
	for n := range o.edges[from] {
		next = append(next, n)
	}
	sort.Strings(next)
	for _, n := range next {
		if !seen[n] || n == to {
			if p := o.reach(n, to, seen); p != nil {
				return append([]string{n}, p...)
			}
		}
	}
	return nil
}

// balance follows the locks a function takes itself to its returns.
func (o *lockOrder) balance(fn *ssa.Function, releases map[string]bool) {
	type state struct{ held, freed, deferred bool }
	locks := map[lockPath]string{}
	eachInstr(fn, func(in ssa.Instruction) {
		if call, ok := in.(*ssa.Call); ok {
			if op, l := lockCall(&call.Call); op == "lock" || op == "rlock" {
				locks[o.path(l)] = o.lockClass(l)
			}
		}
	})
	for l, class := range locks {
		name := o.c.P.Rel(fn.String()) + " | " + class
		o.c.Ob("released", name)
		in := map[*ssa.BasicBlock]map[state]bool{fn.Blocks[0]: {{}: true}}
		work := []*ssa.BasicBlock{fn.Blocks[0]}
		failed := false
		fail := func(pos token.Pos, what string) {
			if !failed {
				failed = true
				o.c.Fail("released", name, o.c.P.Pos(pos), what)
			}
		}
		unlocks := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					if op, x := lockCall(call.Common()); op == "unlock" && o.path(x) == l {
						unlocks = true
					}
				}
			}
		}
		for len(work) > 0 && !failed {
			b := work[0]
			work = work[1:]
			cur := map[state]bool{}
			for s := range in[b] {
				cur[s] = true
			}
			for _, i := range b.Instrs {
				next := map[state]bool{}
				for s := range cur {
					switch x := i.(type) {
					case *ssa.Call:
						switch op, v := lockCall(&x.Call); {
						case op == "" || o.path(v) != l:
							if s.held && o.freesFor(x, l) {
								s.held = false
							}
						case op == "unlock":
							if s.freed && !s.held {
								fail(x.Pos(), class+" is released again, which panics")
							}
							s.held, s.freed = false, true
						default:
							s.held, s.freed = true, false
						}
					case *ssa.Defer:
						if op, v := lockCall(&x.Call); op == "unlock" && o.path(v) == l {
							s.deferred = true
						} else if o.freesFor(x, l) {
							s.deferred = true
						}
					case *ssa.Return:
						if s.held && !s.deferred && (unlocks || !releases[class]) {
							fail(x.Pos(), class+" is still held when the function returns")
						}
						if s.deferred && !s.held && s.freed {
							fail(x.Pos(), class+" is released before and again when the function returns, which panics")
						}
					}
					next[s] = true
				}
				cur = next
			}
			for _, s := range b.Succs {
				if in[s] == nil {
					in[s] = map[state]bool{}
					work = append(work, s)
				}
				more := false
				for k := range cur {
					if !in[s][k] {
						in[s][k] = true
						more = true
					}
				}
				if more {
					work = append(work, s)
				}
			}
		}
	}
}

// freesFor: the call is of a function that releases the lock without taking it.
func (o *lockOrder) freesFor(in ssa.CallInstruction, l lockPath) bool {
	com := in.Common()
	gs := o.targets(com)
	gs = append(gs, o.closures(com.Value)...)
	for _, g := range gs {
		took, freed := false, false
		eachInstr(g, func(i ssa.Instruction) {
			c2, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}
			op, v := lockCall(c2.Common())
			if op == "" {
				return
			}
			p := o.path(v)
			for k, a := range com.Args {
				if k < len(g.Params) && p.root == g.Params[k] {
					q := o.path(a)
					p = lockPath{q.root, q.path + p.path}
				}
			}
			if p == l {
				took = took || op != "unlock"
				freed = freed || op == "unlock"
			}
		})
		if freed && !took {
			return true
		}
	}
	return false
}

var _ = fmt.Sprint
