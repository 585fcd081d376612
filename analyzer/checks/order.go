package checks

import (
	"willowcheck/flow"
)

// order is a small relational domain over the values a path compared: for each pair it keeps which of <, =, > may
// hold, closed under composition (path consistency), plus the law that keys are ordered by their data type first.
type order struct {
	vals []*flow.Val
	at   map[string]int
	rel  [][]int
	// typ of a rank: index of the term that is the data type of the ranked key
	typ map[int]int
}

const allRel = flow.LT | flow.EQ | flow.GT

func flipRel(b int) int {
	r := b & flow.EQ
	if b&flow.LT != 0 {
		r |= flow.GT
	}
	if b&flow.GT != 0 {
		r |= flow.LT
	}
	return r
}

func composeRel(a, b int) int {
	r := 0
	for _, x := range []int{flow.LT, flow.EQ, flow.GT} {
		if a&x == 0 {
			continue
		}
		for _, y := range []int{flow.LT, flow.EQ, flow.GT} {
			if b&y == 0 {
				continue
			}
			switch {
			case x == flow.EQ:
				r |= y
			case y == flow.EQ:
				r |= x
			case x == y:
				r |= x
			default:
				r = allRel
			}
		}
	}
	return r
}

func (o *order) id(v *flow.Val) int {
	if i, ok := o.at[v.Key()]; ok {
		return i
	}
	i := len(o.vals)
	o.at[v.Key()] = i
	o.vals = append(o.vals, v)
	for k := range o.rel {
		o.rel[k] = append(o.rel[k], allRel)
	}
	row := make([]int, i+1)
	for k := range row {
		row[k] = allRel
	}
	row[i] = flow.EQ
	o.rel = append(o.rel, row)
	if n, ok := flow.IntVal(v); ok {
		for k, w := range o.vals[:i] {
			if m, ok := flow.IntVal(w); ok {
				b := flow.EQ
				if n < m {
					b = flow.LT
				} else if n > m {
					b = flow.GT
				}
				o.rel[i][k], o.rel[k][i] = b, flipRel(b)
			}
		}
	}
	return i
}

func (o *order) clone() *order {
	n := &order{vals: o.vals, at: o.at, typ: o.typ}
	for _, r := range o.rel {
		n.rel = append(n.rel, append([]int(nil), r...))
	}
	return n
}

func (o *order) restrict(x, y *flow.Val, bits int) { o.restrictAt(o.id(x), o.id(y), bits) }

func (o *order) restrictAt(i, j, bits int) {
	o.rel[i][j] &= bits
	o.rel[j][i] &= flipRel(bits)
}

// consistent closes the relations; false if they contradict each other.
func (o *order) consistent() bool {
	n := len(o.vals)
	anyAt := -1
	for i, v := range o.vals {
		if k, ok := flow.IntVal(v); ok && k == typeAny {
			anyAt = i
		}
	}
	for changed := true; changed; {
		changed = false
		set := func(i, j, b int) bool {
			if nb := o.rel[i][j] & b; nb != o.rel[i][j] {
				o.rel[i][j], o.rel[j][i] = nb, flipRel(nb)
				changed = true
			}
			return o.rel[i][j] != 0
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if o.rel[i][j] == 0 {
					return false
				}
				for k := 0; k < n; k++ {
					if !set(i, j, composeRel(o.rel[i][k], o.rel[k][j])) {
						return false
					}
				}
			}
		}
		for a, ta := range o.typ {
			for b, tb := range o.typ {
				if a == b {
					continue
				}
				switch o.rel[ta][tb] {
				case flow.LT, flow.GT:
					if !set(a, b, o.rel[ta][tb]) {
						return false
					}
				}
				if o.rel[a][b]&flow.GT == 0 && !set(ta, tb, flow.LT|flow.EQ) {
					return false
				}
				if o.rel[a][b] == flow.EQ && !set(ta, tb, flow.EQ) {
					return false
				}
				if o.rel[ta][tb]&flow.EQ == 0 && !set(a, b, flow.LT|flow.GT) {
					return false
				}
				// there is only one key of type any
				if anyAt >= 0 && o.rel[ta][anyAt] == flow.EQ && o.rel[tb][anyAt] == flow.EQ && !set(a, b, flow.EQ) {
					return false
				}
			}
		}
	}
	// decide what is left open about data types
	for _, ta := range o.typ {
		for _, tb := range o.typ {
			if b := o.rel[ta][tb]; ta != tb && b != flow.LT && b != flow.EQ && b != flow.GT {
				for _, x := range []int{flow.LT, flow.EQ, flow.GT} {
					if b&x != 0 {
						t := o.clone()
						t.restrictAt(ta, tb, x)
						if t.consistent() {
							return true
						}
					}
				}
				return false
			}
		}
		if anyAt >= 0 {
			if b := o.rel[ta][anyAt]; b != flow.LT && b != flow.EQ && b != flow.GT {
				for _, x := range []int{flow.LT, flow.EQ, flow.GT} {
					if b&x != 0 {
						t := o.clone()
						t.restrictAt(ta, anyAt, x)
						if t.consistent() {
							return true
						}
					}
				}
				return false
			}
		}
	}
	return true
}
