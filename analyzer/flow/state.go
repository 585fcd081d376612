package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	LT = 1
	EQ = 2
	GT = 4
)

type cell struct{ addr, val *Val }
type fact struct {
	x, y *Val
	bits int
}

type frame struct {
	fn     *ssa.Function
	ctx    string
	env    map[ssa.Value]*Val
	defers []*deferred
}

type deferred struct {
	instr *ssa.Defer
	fn    *Val // callee value or nil for invoke / static
	recv  *Val
	args  []*Val
}

type Trace struct {
	Prev *Trace
	Pos  token.Pos
	What string
}

// State is one abstract state: call stack environments, heap cells, branch facts and the monitor.
type State struct {
	frames []*frame
	cells  map[string]cell
	facts  map[string]fact
	epoch  string
	Mon    map[string]int
	MonV   map[string]*Val
	Tr     *Trace
}

func NewState() *State {
	return &State{cells: map[string]cell{}, facts: map[string]fact{}, Mon: map[string]int{}, MonV: map[string]*Val{}}
}

func (s *State) Clone() *State {
	n := &State{epoch: s.epoch, Tr: s.Tr,
		frames: make([]*frame, len(s.frames)),
		cells:  make(map[string]cell, len(s.cells)+2),
		facts:  make(map[string]fact, len(s.facts)+2),
		Mon:    make(map[string]int, len(s.Mon)+1),
		MonV:   make(map[string]*Val, len(s.MonV)+1),
	}
	for i, f := range s.frames {
		// the top frame is copied on write by its owner; lower frames are only replaced by ageing
		n.frames[i] = f
	}
	if k := len(s.frames) - 1; k >= 0 {
		n.frames[k] = s.frames[k].clone()
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.Mon {
		n.Mon[k] = v
	}
	for k, v := range s.MonV {
		n.MonV[k] = v
	}
	return n
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, ctx: f.ctx, env: make(map[ssa.Value]*Val, len(f.env)+1), defers: append([]*deferred(nil), f.defers...)}
	for k, v := range f.env {
		n.env[k] = v
	}
	return n
}

func (s *State) top() *frame { return s.frames[len(s.frames)-1] }

// Note adds a line to the witness trace.
func (s *State) Note(pos token.Pos, format string, a ...any) {
	s.Tr = &Trace{Prev: s.Tr, Pos: pos, What: fmt.Sprintf(format, a...)}
}

// Inc adds d to a monitor counter, saturating at ±3.
func (s *State) Inc(k string, d int) {
	v := s.Mon[k] + d
	if v > 3 {
		v = 3
	}
	if v < -3 {
		v = -3
	}
	if v == 0 {
		delete(s.Mon, k)
	} else {
		s.Mon[k] = v
	}
}
func (s *State) Set(k string, v int) {
	if v == 0 {
		delete(s.Mon, k)
	} else {
		s.Mon[k] = v
	}
}

func (s *State) Key() string {
	var b strings.Builder
	for _, f := range s.frames {
		f.key(&b)
	}
	b.WriteString("|C")
	ks := make([]string, 0, len(s.cells))
	for k := range s.cells {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(s.cells[k].val.key)
		b.WriteByte(';')
	}
	b.WriteString("|F")
	ks = ks[:0]
	for k := range s.facts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString(k)
		fmt.Fprintf(&b, "=%d;", s.facts[k].bits)
	}
	b.WriteString("|E" + s.epoch + "|M")
	b.WriteString(s.MonKey())
	return b.String()
}

// MonKey renders the monitor part of the state.
func (s *State) MonKey() string {
	var ks []string
	for k, v := range s.Mon {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	for k, v := range s.MonV {
		ks = append(ks, fmt.Sprintf("%s->%s", k, v.key))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (f *frame) key(b *strings.Builder) {
	fmt.Fprintf(b, "|f%p:", f.fn)
	ks := make([]string, 0, len(f.env))
	for k, v := range f.env {
		ks = append(ks, k.Name()+"="+v.key)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte(';')
	}
	for _, d := range f.defers {
		fmt.Fprintf(b, "d%p", d.instr)
		if d.fn != nil {
			b.WriteString(d.fn.key)
		}
		if d.recv != nil {
			b.WriteString(d.recv.key)
		}
		for _, a := range d.args {
			b.WriteString("," + a.key)
		}
	}
}

// age renames a symbol that is about to be created again, so that values of the previous round are not confused
// with the new ones; what was known about the previous round is dropped.
func (s *State) age(name string) {
	old := mk(&Val{K: KSym, S: strings.TrimSuffix(name, ";") + "~;"})
	hit := false
	sub := func(v *Val) *Val {
		if v == nil {
			return nil
		}
		n := v.subst(name, old)
		if n != v {
			hit = true
		}
		return n
	}
	for i, f := range s.frames {
		var nf *frame
		for k, v := range f.env {
			if n := sub(v); n != v {
				if nf == nil {
					nf = f.clone()
				}
				nf.env[k] = n
			}
		}
		for j, d := range f.defers {
			nd := &deferred{instr: d.instr, fn: sub(d.fn), recv: sub(d.recv)}
			ch := nd.fn != d.fn || nd.recv != d.recv
			for _, a := range d.args {
				na := sub(a)
				if na != a {
					ch = true
				}
				nd.args = append(nd.args, na)
			}
			if ch {
				if nf == nil {
					nf = f.clone()
				}
				nf.defers[j] = nd
			}
		}
		if nf != nil {
			s.frames[i] = nf
		}
	}
	for k, c := range s.cells {
		if strings.Contains(k, name) {
			delete(s.cells, k)
			hit = true
			continue
		}
		if n := sub(c.val); n != c.val {
			s.cells[k] = cell{c.addr, n}
		}
	}
	for k := range s.facts {
		if strings.Contains(k, name) {
			delete(s.facts, k)
			hit = true
		}
	}
	for k, v := range s.MonV {
		if n := sub(v); n != v {
			s.MonV[k] = n
		}
	}
	if s.epoch == name {
		s.epoch = old.S
	}
	if hit {
		for k := range s.facts {
			if strings.Contains(k, old.S) {
				delete(s.facts, k)
			}
		}
		for k := range s.cells {
			if strings.Contains(k, old.S) {
				delete(s.cells, k)
			}
		}
	}
}

// ---- facts ----

func flip(bits int) int {
	r := bits & EQ
	if bits&LT != 0 {
		r |= GT
	}
	if bits&GT != 0 {
		r |= LT
	}
	return r
}

func factKey(x, y *Val) (string, bool) {
	if x.key <= y.key {
		return x.key + " <> " + y.key, false
	}
	return y.key + " <> " + x.key, true
}

func nonNilVal(v *Val) bool {
	switch v.K {
	case KAddr, KFn, KIface, KStruct, KConst, KZero:
		return true
	case KSym:
		return v.Alloc
	case KTerm:
		return v.S == "append+" || v.S == "mslice"
	}
	return false
}

func cmpConst(a, b constant.Value) int {
	if a.Kind() == constant.Bool || b.Kind() == constant.Bool {
		if a.Kind() == b.Kind() && constant.BoolVal(a) == constant.BoolVal(b) {
			return EQ
		}
		return LT | GT
	}
	if (a.Kind() == constant.String) != (b.Kind() == constant.String) {
		return 7
	}
	switch {
	case constant.Compare(a, token.EQL, b):
		return EQ
	case a.Kind() == constant.Complex || b.Kind() == constant.Complex:
		return LT | GT
	case constant.Compare(a, token.LSS, b):
		return LT
	}
	return GT
}

func unsignedOrLen(v *Val) bool {
	if v.K == KTerm && (v.S == "len" || v.S == "cap") {
		return true
	}
	if v.T == nil {
		return false
	}
	b, ok := v.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// Rel returns which of <,=,> may hold between x and y.
func (s *State) Rel(x, y *Val) int {
	if x.K == KConst && y.K == KConst {
		return cmpConst(x.C, y.C)
	}
	if x.key == y.key && !x.aged() {
		return EQ
	}
	if x.K == KNil && y.K == KNil {
		return EQ
	}
	if x.K == KNil && nonNilVal(y) || y.K == KNil && nonNilVal(x) {
		return LT | GT
	}
	if x.K == KIface && y.K == KIface {
		if !types.Identical(x.T, y.T) {
			return LT | GT
		}
		return s.Rel(x.Args[0], y.Args[0])
	}
	if x.K == KSym && y.K == KSym && (x.Alloc || y.Alloc) && !x.aged() && !y.aged() && isPtr(x) && isPtr(y) {
		return LT | GT
	}
	bits := 7
	k, fl := factKey(x, y)
	if f, ok := s.facts[k]; ok {
		b := f.bits
		if fl {
			b = flip(b)
		}
		bits &= b
	}
	if y.K == KConst {
		bits &= s.bounds(x, y)
	} else if x.K == KConst {
		bits &= flip(s.bounds(y, x))
	}
	return bits
}

func isPtr(v *Val) bool {
	if v.T == nil {
		return false
	}
	_, ok := v.T.Underlying().(*types.Pointer)
	return ok
}

// compose: x b o, and o, c are constants; what may hold between x and c?
func compose(b int, o, c constant.Value) int {
	if o.Kind() == constant.Bool || c.Kind() == constant.Bool {
		if o.Kind() != c.Kind() {
			return 7
		}
		same := constant.BoolVal(o) == constant.BoolVal(c)
		m := 0
		if b&EQ != 0 {
			if same {
				m |= EQ
			} else {
				m |= LT | GT
			}
		}
		if b&(LT|GT) != 0 {
			if same {
				m |= LT | GT
			} else {
				m |= EQ
			}
		}
		return m
	}
	r := cmpConst(o, c)
	adj := func(d int64) bool {
		if o.Kind() != constant.Int || c.Kind() != constant.Int {
			return false
		}
		oi, ok1 := constant.Int64Val(o)
		ci, ok2 := constant.Int64Val(c)
		return ok1 && ok2 && oi == ci+d
	}
	m := 0
	if b&EQ != 0 {
		m |= r
	}
	if b&LT != 0 {
		switch {
		case r == LT || r == EQ:
			m |= LT
		case adj(1):
			m |= LT | EQ
		default:
			m |= 7
		}
	}
	if b&GT != 0 {
		switch {
		case r == GT || r == EQ:
			m |= GT
		case adj(-1):
			m |= GT | EQ
		default:
			m |= 7
		}
	}
	return m
}

func (s *State) bounds(x, c *Val) int {
	bits := 7
	if unsignedOrLen(x) && c.C.Kind() == constant.Int {
		sg := constant.Sign(c.C)
		if sg < 0 {
			bits &= GT
		} else if sg == 0 {
			bits &= EQ | GT
		}
	}
	for _, f := range s.facts {
		var o *Val
		b := f.bits
		if f.x.key == x.key {
			o = f.y
		} else if f.y.key == x.key {
			o = f.x
			b = flip(b)
		} else {
			continue
		}
		if o.K != KConst {
			continue
		}
		bits &= compose(b, o.C, c.C)
	}
	return bits
}

// Restrict records that the relation between x and y is one of bits; false if that is impossible.
func (s *State) Restrict(x, y *Val, bits int) bool {
	cur := s.Rel(x, y)
	n := cur & bits
	if n == 0 {
		return false
	}
	if n == cur {
		return true
	}
	if x.aged() || y.aged() {
		return true
	}
	k, fl := factKey(x, y)
	b := n
	a1, a2 := x, y
	if fl {
		b = flip(b)
		a1, a2 = y, x
	}
	s.facts[k] = fact{a1, a2, b}
	return true
}

var trueVal = Bool(true)

func opBits(op token.Token) int {
	switch op {
	case token.EQL:
		return EQ
	case token.NEQ:
		return LT | GT
	case token.LSS:
		return LT
	case token.LEQ:
		return LT | EQ
	case token.GTR:
		return GT
	case token.GEQ:
		return GT | EQ
	}
	return 0
}

var cmpOps = map[string]int{"cmp:==": EQ, "cmp:!=": LT | GT, "cmp:<": LT, "cmp:<=": LT | EQ, "cmp:>": GT, "cmp:>=": GT | EQ}

// Assume restricts the state to those where v has the given truth value. It may return several states, or none.
// The receiver is not modified.
func (s *State) Assume(v *Val, truth bool) []*State {
	switch {
	case v.K == KConst:
		if IsTrue(v) == truth {
			return []*State{s.Clone()}
		}
		return nil
	case v.K == KTerm && v.S == "not":
		return s.Assume(v.Args[0], !truth)
	case v.K == KTerm && v.S == "and", v.K == KTerm && v.S == "or":
		conj := v.S == "and"
		if truth == conj {
			var out []*State
			for _, a := range s.Assume(v.Args[0], truth) {
				out = append(out, a.Assume(v.Args[1], truth)...)
			}
			return out
		}
		out := s.Assume(v.Args[0], truth)
		for _, a := range s.Assume(v.Args[0], !truth) {
			out = append(out, a.Assume(v.Args[1], truth)...)
		}
		return out
	case v.K == KTerm && strings.HasPrefix(v.S, "cmp:"):
		bits := cmpOps[v.S]
		if !truth {
			bits = 7 &^ bits
		}
		n := s.Clone()
		if !n.Restrict(v.Args[0], v.Args[1], bits) {
			return nil
		}
		return []*State{n}
	}
	n := s.Clone()
	bits := EQ
	if !truth {
		bits = LT | GT
	}
	if !n.Restrict(v, trueVal, bits) {
		return nil
	}
	return []*State{n}
}

// Truth evaluates a boolean: 1 true, 0 false, -1 either.
func (s *State) Truth(v *Val) int {
	t, f := len(s.Assume(v, true)) > 0, len(s.Assume(v, false)) > 0
	switch {
	case t && !f:
		return 1
	case f && !t:
		return 0
	}
	return -1
}

// IsNil: 1 definitely nil, 0 definitely not, -1 unknown.
func (s *State) IsNil(v *Val) int {
	r := s.Rel(v, NilOf(v.T))
	switch {
	case r == EQ:
		return 1
	case r&EQ == 0:
		return 0
	}
	return -1
}

// ---- memory ----

// Load reads a location. immutable tells whether a field is only ever set while its object is built.
func (s *State) Load(addr *Val, t types.Type, immutable func(*types.Var) bool) *Val {
	if c, ok := s.cells[addr.key]; ok {
		return c.val
	}
	// a prefix holds a whole value
	var comps []*Val
	p := addr
	for p.K == KAddr {
		comps = append(comps, p)
		p = p.Args[0]
		if c, ok := s.cells[p.key]; ok {
			v := c.val
			for i := len(comps) - 1; i >= 0; i-- {
				v = project(v, comps[i], deref(comps[i].T))
				if v == nil {
					break
				}
			}
			if v != nil {
				return v
			}
			break
		}
	}
	// sub-cells hold parts
	if st, ok := t.Underlying().(*types.Struct); ok {
		has := false
		for k := range s.cells {
			if strings.HasPrefix(k, "&("+addr.key+").") || strings.HasPrefix(k, "&(&("+addr.key+").") {
				has = true
				break
			}
		}
		if has {
			args := make([]*Val, st.NumFields())
			for i := range args {
				args[i] = s.Load(fieldAddr(addr, st.Field(i)), st.Field(i).Type(), immutable)
			}
			return mk(&Val{K: KStruct, T: t, Args: args})
		}
	}
	r := rootOf(addr)
	if r.K == KSym && r.Alloc && !r.aged() {
		if strings.Contains(addr.key, "[") {
			return Term("ld", t, addr)
		}
		return ZeroOf(t)
	}
	op := "ld@" + s.epoch
	imm := false
	if addr.K == KAddr && addr.Field != nil && immutable != nil && immutable(addr.Field) {
		imm = true
	}
	if imm || (addr.K == KSym && strings.HasPrefix(addr.S, "$global")) {
		op = "ld"
	}
	return Term(op, t, addr)
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func project(v *Val, comp *Val, t types.Type) *Val {
	switch v.K {
	case KStruct:
		if comp.Field != nil {
			st := v.T.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == comp.Field || st.Field(i).Name() == comp.Field.Name() {
					return v.Args[i]
				}
			}
		}
		return nil
	case KZero:
		return ZeroOf(t)
	}
	if comp.Field != nil {
		return mk(&Val{K: KTerm, S: "fld", Field: comp.Field, T: t, Args: []*Val{v, Str(comp.Field.Name())}})
	}
	return nil
}

// Store writes a location.
func (s *State) Store(addr, val *Val) {
	if rootOf(addr).K == KSym && strings.Contains(rootOf(addr).key, "~") {
		return
	}
	s.dropUnder(addr)
	s.cells[addr.key] = cell{addr, val}
}

func (s *State) dropUnder(addr *Val) {
	for k, c := range s.cells {
		if k == addr.key {
			delete(s.cells, k)
			continue
		}
		for a := c.addr; a.K == KAddr; {
			a = a.Args[0]
			if a.key == addr.key {
				delete(s.cells, k)
				break
			}
		}
	}
}

// Drop forgets what is stored at and under an address.
func (s *State) Drop(addr *Val) { s.dropUnder(addr) }

// dropIndexed forgets all element cells of the container.
func (s *State) dropIndexed(base *Val) {
	for k, c := range s.cells {
		for a := c.addr; a.K == KAddr; a = a.Args[0] {
			if strings.HasPrefix(a.S, "[") && a.Args[0].key == base.key {
				delete(s.cells, k)
				break
			}
		}
	}
}

// knownLen: what is recorded about the length of a container.
func (s *State) knownLen(v *Val) (int64, bool) {
	l := Term("len", types.Typ[types.Int], v)
	for _, f := range s.facts {
		if f.bits != EQ {
			continue
		}
		if f.x.key == l.key && f.y.K == KConst {
			return IntVal(f.y)
		}
		if f.y.key == l.key && f.x.K == KConst {
			return IntVal(f.x)
		}
	}
	return 0, false
}

// Written reports whether something reachable from the value was stored to.
func (s *State) Written(v *Val) bool {
	for _, c := range s.cells {
		for a := c.addr; len(a.Args) > 0 && a.key != v.key; {
			a = a.Args[0]
			if a.key == v.key {
				return true
			}
		}
	}
	return false
}

// Owners lists the addresses at which the state holds the value.
func (s *State) Owners(v *Val) []*Val {
	var out []*Val
	for _, c := range s.cells {
		if c.val.key == v.key {
			out = append(out, c.addr)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

// MapGet returns what was stored in a map under a constant string key.
func (s *State) MapGet(m *Val, key string) (*Val, bool) {
	m = Strip(m)
	c, ok := s.cells[indexAddr(m, Str(key).key, nil).key]
	if !ok {
		return nil, false
	}
	return c.val, true
}

// MapKeys lists the constant string keys stored in a map built during the analysis.
func (s *State) MapKeys(m *Val) []string {
	m = Strip(m)
	var out []string
	pre := "&(" + m.key + ")[c:\""
	for k := range s.cells {
		if strings.HasPrefix(k, pre) && strings.HasSuffix(k, "\"]") {
			out = append(out, k[len(pre):len(k)-2])
		}
	}
	sort.Strings(out)
	return out
}

// Contains reports whether any component of v satisfies f.
func Contains(v *Val, f func(*Val) bool) bool {
	hit := false
	if v == nil {
		return false
	}
	v.walk(func(x *Val) {
		if f(x) {
			hit = true
		}
	})
	return hit
}

// Facts enumerates what the state knows about pairs of values.
func (s *State) Facts(f func(x, y *Val, bits int)) {
	for _, ft := range s.facts {
		f(ft.x, ft.y, ft.bits)
	}
}

// Replace substitutes one value for another everywhere in the state.
func (s *State) Replace(from, to *Val) {
	for _, f := range s.frames {
		for k, v := range f.env {
			f.env[k] = v.replace(from, to)
		}
		for i, d := range f.defers {
			n := *d
			if n.fn != nil {
				n.fn = n.fn.replace(from, to)
			}
			if n.recv != nil {
				n.recv = n.recv.replace(from, to)
			}
			n.args = append([]*Val(nil), d.args...)
			for j := range n.args {
				n.args[j] = n.args[j].replace(from, to)
			}
			f.defers[i] = &n
		}
	}
	cells := map[string]cell{}
	for _, c := range s.cells {
		a := c.addr.replace(from, to)
		cells[a.key] = cell{a, c.val.replace(from, to)}
	}
	s.cells = cells
	facts := map[string]fact{}
	for _, f := range s.facts {
		x, y := f.x.replace(from, to), f.y.replace(from, to)
		k, fl := factKey(x, y)
		if fl {
			facts[k] = fact{y, x, flip(f.bits)}
		} else {
			facts[k] = fact{x, y, f.bits}
		}
	}
	s.facts = facts
	for k, v := range s.MonV {
		s.MonV[k] = v.replace(from, to)
	}
}

// Replace returns v with from replaced by to.
func (v *Val) Replace(from, to *Val) *Val { return v.replace(from, to) }

func (v *Val) replace(from, to *Val) *Val {
	if v.key == from.key {
		return to
	}
	if !strings.Contains(v.key, from.key) {
		return v
	}
	n := *v
	n.Args = make([]*Val, len(v.Args))
	for i, a := range v.Args {
		n.Args[i] = a.replace(from, to)
	}
	if n.K == KAddr {
		n.S = strings.ReplaceAll(n.S, from.key, to.key)
	}
	return mk(&n)
}

// Reach calls f with every value kept in memory that belongs to the allocation v, and in allocations those lead to.
func (s *State) Reach(v *Val, f func(*Val)) {
	seen := map[string]bool{v.key: true}
	work := []string{v.key}
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		for _, c := range s.cells {
			if rootOf(c.addr).key != k {
				continue
			}
			f(c.val)
			c.val.walk(func(x *Val) {
				if x.K == KSym && x.Alloc && !seen[x.key] {
					seen[x.key] = true
					work = append(work, x.key)
				}
			})
		}
	}
}
