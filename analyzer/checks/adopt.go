package checks

import "strings"

// Adoption names rules of another property whose violation also violates this one. Rules of that property that could not reach a
// verdict stay that property's own matter.
type Adoption struct {
	Property   string
	Rules      []string // all, if none
	Constructs []string // those that contain one of these; all, if none
}

var adoptions = map[string][]Adoption{
	// a message is offered through the queue, the client that waits and the handler that sends it
	"W05": {{"W08", []string{"hands-out-what-it-got"}, nil}, {"W11", []string{"queue-named"}, []string{"Dequeue"}}, {"A03", nil, []string{"items"}}},
	"W06": {{"W05", []string{"hand-out"}, nil}, {"W04", []string{"retry-accounting"}, []string{"heartbeat timeout"}}},
	"W07": {{"S02", nil, []string{"internal/willow", "internal/heartbeater"}}},
	"W08": {{"W11", []string{"queue-named"}, []string{"Dequeue"}}},
	"W09": {{"W11", nil, []string{"ACK", "Ack", "Heartbeat"}}},
	// whoever accepts a foreign session, or forgets a lock that is held, lets a second holder in
	"L01": {{"L02", nil, nil}, {"L04", nil, nil}},
	"L02": {{"L03", nil, nil}},
	"L03": {{"L02", nil, nil}},
	"L05": {{"S02", nil, []string{"internal/locker"}}},
	// a limit that is overlooked, or read while others count, is exceeded
	"M01": {{"M02", []string{"locks"}, nil}, {"M05", nil, nil}},
	"D05": {{"D08", []string{"guarded", "pinned"}, nil}},
	"D06": {{"D08", []string{"guarded", "pinned"}, nil}},
	// the trees' own locks
	"S01": {{"D01", []string{"guarded"}, nil}, {"D07", []string{"guarded"}, nil}, {"D08", []string{"guarded"}, nil}, {"D09", []string{"published"}, nil}, {"D10", []string{"guarded"}, nil}},
	"S02": {{"D01", []string{"released", "order"}, nil}, {"D07", []string{"released"}, nil}, {"D08", []string{"released", "order"}, nil}, {"D10", []string{"released"}, nil}},
}

func matches(list []string, s string, part bool) bool {
	for _, l := range list {
		if l == s || part && strings.Contains(s, l) {
			return true
		}
	}
	return len(list) == 0
}

// concludes runs a property's own rules and says whether they came to an end.
func (c *Ctx) concludes() (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return registry[c.Property].Run(c) == nil
}

// Adopt runs the rules this property shares with others; listed says which findings of another property are known.
func (c *Ctx) Adopt(listed func(property, key string) bool) {
	for _, a := range adoptions[c.Property] {
		o := NewCtx(c.P, a.Property, c.Thorough)
		if !o.concludes() {
			c.Counts["shared_rules_without_verdict"]++
			continue
		}
		for r, cs := range o.Obligations {
			if !matches(a.Rules, r, false) || r == "analysis" {
				continue
			}
			c.Rules[a.Property+"."+r] = o.Rules[r]
			for k := range cs {
				if matches(a.Constructs, k, true) {
					c.Ob(a.Property+"."+r, k)
				}
			}
		}
		for _, f := range o.Findings {
			if f.Construct == "undecided" || f.Rule == "analysis" || !matches(a.Rules, f.Rule, false) || !matches(a.Constructs, f.Construct, true) || listed(a.Property, f.Key()) {
				continue
			}
			c.Fail(a.Property+"."+f.Rule, f.Construct, f.Pos, f.Detail, f.Witness...)
		}
		for f := range o.Funcs {
			c.Funcs[f] = true
		}
		for k, n := range o.Counts {
			c.Counts[k] += n
		}
	}
}
