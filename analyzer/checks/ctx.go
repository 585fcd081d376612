// Package checks holds the repository-specific rules, one file per subsystem.
package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"willowcheck/flow"
	"willowcheck/load"
)

// Finding is one violated (or undecided) obligation. Key is stable across line changes.
type Finding struct {
	Rule, Construct, Pos, Detail string
	Witness                      []string
}

func (f Finding) Key() string { return f.Rule + "|" + f.Construct }

// Ctx collects what one property's check did.
type Ctx struct {
	P        *load.Prog
	Property string
	Thorough bool

	Obligations map[string]map[string]bool // rule -> constructs
	Findings    []Finding
	Funcs       map[string]bool
	Counts      map[string]int
	Rules       map[string]string
	expect      map[string]int
}

func NewCtx(p *load.Prog, prop string, thorough bool) *Ctx {
	return &Ctx{P: p, Property: prop, Thorough: thorough, Obligations: map[string]map[string]bool{}, Funcs: map[string]bool{},
		Counts: map[string]int{}, Rules: map[string]string{}, expect: map[string]int{}}
}

// Rule declares a rule, what it says and how many instances were confirmed by reading the code.
func (c *Ctx) Rule(name, text string, min int) {
	c.Rules[name] = text
	c.expect[name] = min
}

func (c *Ctx) Ob(rule, construct string) {
	if c.Obligations[rule] == nil {
		c.Obligations[rule] = map[string]bool{}
	}
	c.Obligations[rule][construct] = true
}

func (c *Ctx) Fail(rule, construct, pos, detail string, witness ...string) {
	c.Ob(rule, construct)
	for _, f := range c.Findings {
		if f.Rule == rule && f.Construct == construct {
			return
		}
	}
	c.Findings = append(c.Findings, Finding{rule, construct, pos, detail, witness})
}

// Check records an obligation and its verdict.
func (c *Ctx) Check(ok bool, rule, construct, pos, detail string, witness ...string) {
	if ok {
		c.Ob(rule, construct)
		return
	}
	c.Fail(rule, construct, pos, detail, witness...)
}

// Finish adds findings for rules that lost their instances.
func (c *Ctx) Finish() {
	for r, n := range c.expect {
		if got := len(c.Obligations[r]); got < n {
			c.Fail(r, "instances", "-", fmt.Sprintf("only %d instances of this rule were found, at least %d exist in the code this rule was written for", got, n))
		}
	}
	sort.Slice(c.Findings, func(i, j int) bool { return c.Findings[i].Key() < c.Findings[j].Key() })
}

// Engine makes a dataflow engine whose coverage counts towards this property.
func (c *Ctx) Engine(h *flow.Hooks) *flow.Engine { return flow.New(c.P, h) }

// Done folds an engine's statistics into the evidence and reports incompleteness as undecided.
func (c *Ctx) Done(rule string, e *flow.Engine) {
	for f := range e.Funcs {
		c.Funcs[c.P.Rel(f.String())] = true
	}
	c.Counts["abstract_states"] += e.Stats.States
	c.Counts["calls_evaluated"] += e.Stats.Calls
	for _, p := range e.Problems() {
		c.Fail(rule, "undecided", "-", "the analysis could not reach a verdict: "+p)
	}
}

func (c *Ctx) fn(f *ssa.Function) string { return c.P.Rel(f.String()) }

// ---- registry ----

type Check struct {
	ID    string
	Title string
	Run   func(c *Ctx) error
}

var registry = map[string]Check{}

func register(id, title string, run func(c *Ctx) error) {
	registry[id] = Check{id, title, run}
}

func Lookup(id string) (Check, bool) { ch, ok := registry[id]; return ch, ok }
func IDs() []string {
	var out []string
	for k := range registry {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- small helpers ----

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := deref(t).Underlying().(*types.Struct)
	return s
}

func fieldNamed(t types.Type, name string) *types.Var {
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}
	return nil
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	n, _ := types.Unalias(deref(t)).(*types.Named)
	return n
}

// typeIs: t (or *t) is the named type pkgSuffix.Name
func typeIs(t types.Type, pkgSuffix, name string) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Name() != name {
		return false
	}
	if n.Obj().Pkg() == nil {
		return pkgSuffix == ""
	}
	return strings.HasSuffix(n.Obj().Pkg().Path(), pkgSuffix)
}

// methodOf: is this method declared by interface (or type) pkgSuffix.typ?
func methodIs(m *types.Func, pkgSuffix string, names ...string) bool {
	if m == nil || m.Pkg() == nil || !strings.HasSuffix(m.Pkg().Path(), pkgSuffix) {
		return false
	}
	if len(names) == 0 {
		return true
	}
	for _, n := range names {
		if m.Name() == n {
			return true
		}
	}
	return false
}

func recvTypeName(m *types.Func) string {
	sig, ok := m.Type().(*types.Signature)
	if !ok || sig.Recv() == nil {
		return ""
	}
	if n := namedOf(sig.Recv().Type()); n != nil {
		return n.Obj().Name()
	}
	return ""
}

var _ = token.NoPos
