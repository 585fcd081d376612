package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"willowcheck/flow"
)

type mqcRun struct {
	en    mqcEntry
	e     *flow.Engine
	exits []flow.Exit
}

// mqcAll analyses every state-changing operation of the queue channel and hands its non-crashing exits to rule.
func mqcAll(c *Ctx, r string, names ...string) (*willowChan, []mqcRun, error) {
	w, err := willowAnchors(c)
	if err != nil {
		return nil, nil, err
	}
	entries, err := mqcEntries(c, w)
	if err != nil {
		return nil, nil, err
	}
	var out []mqcRun
	for _, en := range entries {
		if len(names) > 0 {
			hit := false
			for _, n := range names {
				hit = hit || n == en.name
			}
			if !hit {
				continue
			}
		}
		e := c.Engine(mqcHooks(c, w, en.name))
		var exits []flow.Exit
		for _, x := range e.Analyze(en.fn, en.args, en.bind, en.st) {
			if x.Panic {
				continue
			}
			if x.St.Mon["hbstop"] == 0 && en.name == "failure callback" {
				continue // the heartbeat was created by the dequeue this callback belongs to and has not been started
			}
			exits = append(exits, x)
		}
		c.Done(r, e)
		c.Check(len(exits) > 0, r, en.name, c.P.Pos(en.fn.Pos()), "no completing path found through "+en.name)
		out = append(out, mqcRun{en, e, exits})
	}
	return w, out, nil
}

func (m *mqcRun) fail(c *Ctx, r string, x flow.Exit, what string) {
	c.Fail(r, m.en.name+": "+what, c.P.Pos(x.Pos), fmt.Sprintf("%s: %s (on this path: %s)", m.en.name, what, monInts(x.St)), m.e.Witness(x.St.Tr, 40)...)
}

// bads reports the event-time findings whose text is in the list.
func (m *mqcRun) bads(c *Ctx, r string, x flow.Exit, about ...string) {
	var ks []string
	for k := range x.St.Mon {
		if strings.HasPrefix(k, "bad:") {
			ks = append(ks, k[4:])
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, a := range about {
			if strings.Contains(k, a) {
				m.fail(c, r, x, k)
			}
		}
	}
}

func resNil(x flow.Exit, i int) int {
	if i >= len(x.Res) {
		return -1
	}
	return x.St.IsNil(x.Res[i])
}

func init() {
	register("W01", "item conservation and counter balance of the in-memory queue channel", func(c *Ctx) error {
		const r = "balanced-effects"
		c.Rule(r, "on every non-crashing exit of an operation: change in stored items = change in the enqueued counter; stored − waiting = change in the running counter; waiting ids = notifier tokens", 7)
		_, runs, err := mqcAll(c, r)
		if err != nil {
			return err
		}
		for _, m := range runs {
			for _, x := range m.exits {
				n := x.St.Mon
				if n["unclassified"] != 0 {
					m.fail(c, r, x, "a counter or list update could not be classified")
				}
				if n["items"] != n["enq"] {
					m.fail(c, r, x, "stored items and the enqueued counter move apart")
				}
				if n["items"]-n["ids"] != n["run"] {
					m.fail(c, r, x, "processing items and the running counter move apart")
				}
				if n["ids"] != n["notif"] {
					m.fail(c, r, x, "waiting items and notifier tokens move apart")
				}
			}
		}
		return nil
	})

	register("W02", "order in which waiting items are handed out and put back", func(c *Ctx) error {
		const r = "waiting-list-ends"
		c.Rule(r, "new items join at the tail, items are handed out from the head, a failed item returns to the end its retry position names, an undelivered one to the head; the id put in or taken out is the item's own", 6)
		w, runs, err := mqcAll(c, r, "Enqueue", "dequeue", "failure callback", "ACK", "heartbeat timeout")
		if err != nil {
			return err
		}
		seen := map[string]bool{}
		for _, m := range runs {
			for _, x := range m.exits {
				n := x.St.Mon
				m.bads(c, r, x, "is put at the", "without looking at", "takes the place", "is not the last one is replaced")
				if n["unclassified"] != 0 || n["ids_?"] != 0 {
					m.fail(c, r, x, "a change of the waiting list could not be classified")
				}
				for _, end := range []string{"head", "tail", "any", "pophead", "poptail"} {
					if n["ids_"+end] != 0 {
						seen[m.en.name+" "+end] = true
						c.Ob(r, m.en.name+" changes the "+end)
					}
				}
				added := x.St.MonV["added"]
				switch m.en.name {
				case "Enqueue":
					if n["ids_head"]+n["ids_pophead"]+n["ids_poptail"] > 0 {
						m.fail(c, r, x, "a new item does not join at the tail")
					}
					if n["ids"] > 0 && (added == nil || x.St.MonV["createdkey"] == nil || !containsVal(x.St.MonV["createdkey"], added)) {
						m.fail(c, r, x, "the id put into the waiting list is not the stored item's")
					}
				case "dequeue":
					if n["ids_head"]+n["ids_tail"]+n["ids_poptail"] > 0 {
						m.fail(c, r, x, "an item is not taken from the head")
					}
					if n["ids"] < 0 {
						if k := x.St.MonV["foundkey"]; k == nil || w.elemIndex(k) != "first" {
							m.fail(c, r, x, "the item handed out is not the one at the head")
						}
					}
				case "failure callback":
					if n["ids_tail"] > 0 {
						m.fail(c, r, x, "an undelivered item is not put back at the head")
					}
				}
				if m.en.name != "Enqueue" && m.en.name != "dequeue" && (n["ids"] > 0 || n["idreplace"] > 0) {
					ok := false
					if k := x.St.MonV["key"]; k != nil && added != nil {
						// the key of the failing item: the first tree operation's key, or, when the last waiting item was looked at, the argument
						ok = containsVal(k, added) || !w.isListElem(added)
					}
					if !ok {
						m.fail(c, r, x, "the id put back is not the failed item's")
					}
				}
			}
		}
		for _, k := range []string{"Enqueue tail", "dequeue pophead", "ACK head"} {
			if !seen[k] && !seen[strings.Fields(k)[0]+" any"] {
				c.Fail(r, k, "-", "no path found where "+k)
			}
		}
		return nil
	})

	register("W03", "updates in place of the last waiting item", func(c *Ctx) error {
		const r = "update-in-place"
		c.Rule(r, "an enqueue either stores a new item with all of the request's properties, or overwrites all of them on the last waiting item and only if that is updateable, or fails and changes nothing", 3)
		w, runs, err := mqcAll(c, r, "Enqueue")
		if err != nil {
			return err
		}
		_ = w
		for _, m := range runs {
			created := map[string]*flow.Val{}
			for _, x := range m.exits {
				for k, v := range x.St.MonV {
					if strings.HasPrefix(k, "c_") {
						created[k[2:]] = v
					}
				}
			}
			var props []string
			for k, v := range created {
				if v.K == flow.KConst || flow.Contains(v, func(y *flow.Val) bool {
					return y.K == flow.KSym && y.Root && y.T != nil && typeIs(y.T, "pkg/models/api/willow/v1", "Item")
				}) {
					props = append(props, k)
				}
			}
			sort.Strings(props)
			c.Counts["properties_compared"] = len(props)
			for _, p := range props {
				c.Ob(r, "property "+p)
			}
			if len(props) < 6 {
				c.Fail(r, "properties", "-", fmt.Sprintf("only %v of a new item come from the request", props))
			}
			for _, x := range m.exits {
				n := x.St.Mon
				m.bads(c, r, x, "is not updateable is changed", "changes an item that is not the last")
				ok := resNil(x, 0)
				switch {
				case ok == 0:
					if n["updating"] != 0 || n["items"] != 0 || n["ids"] != 0 {
						m.fail(c, r, x, "a refused enqueue changed something")
					}
				case n["updating"] != 0:
					if n["items"] != 0 || n["ids"] != 0 {
						m.fail(c, r, x, "an update in place also stores an item")
					}
					for _, p := range props {
						u := x.St.MonV["u_"+p]
						if u == nil {
							m.fail(c, r, x, "an update in place leaves the previous "+p)
						} else if u.Key() != created[p].Key() {
							m.fail(c, r, x, "an update in place sets "+p+" from something else than a new item would")
						}
					}
				default:
					if n["items"] != 1 || n["ids"] != 1 {
						m.fail(c, r, x, "an accepted enqueue neither stores the item nor updates the last one")
					}
				}
			}
		}
		return nil
	})

	register("W04", "retries of failed items", func(c *Ctx) error {
		const r = "retry-accounting"
		c.Rule(r, "a processing failure counts one retry; past the limit the item is removed, within it the item is put back or gives way to a newer item because it is updateable; a failed hand-out counts none", 5)
		_, runs, err := mqcAll(c, r, "ACK", "heartbeat timeout", "failure callback", "success callback", "dequeue")
		if err != nil {
			return err
		}
		sawExceed, sawRequeue := false, false
		for _, m := range runs {
			for _, x := range m.exits {
				n := x.St.Mon
				m.bads(c, r, x, "retries left", "out of retries", "retry count changes", "waiting item removed although")
				processing := n["hbstop"] > 0 || m.en.name == "heartbeat timeout" && n["op_absent"] == 0
				switch m.en.name {
				case "ACK", "heartbeat timeout":
					if n["passed"] == 1 {
						if n["counted"] != 0 {
							m.fail(c, r, x, "a successful acknowledgement counts a retry")
						}
						continue
					}
					if !processing {
						if n["counted"] != 0 {
							m.fail(c, r, x, "a retry is counted for an item that is not processing")
						}
						continue
					}
					if n["counted"] != 1 {
						m.fail(c, r, x, fmt.Sprintf("a processing failure counts %d retries", n["counted"]))
					}
					switch n["exceeded"] {
					case 1:
						sawExceed = true
						if n["items"] != -1 || n["ids"] != 0 || n["idreplace"] != 0 {
							m.fail(c, r, x, "an item past its retry limit is not removed")
						}
					case 2:
						sawRequeue = true
						gone := n["items"] == -1 && n["ids"] == 0 && (n["idreplace"] == 1 || n["drop_ok"] == 1)
						back := n["items"] == 0 && n["ids"] == 1
						if !gone && !back {
							m.fail(c, r, x, "a failed item with retries left is lost")
						}
					default:
						m.fail(c, r, x, "the retry count is not compared with the retry limit")
					}
				default:
					if n["counted"] != 0 {
						m.fail(c, r, x, "a retry is counted although the item was not processed")
					}
				}
			}
		}
		c.Check(sawExceed, r, "past the limit", "-", "no path found on which an item runs out of retries")
		c.Check(sawRequeue, r, "within the limit", "-", "no path found on which an item is retried")
		return nil
	})

	register("W09", "acknowledgements and heartbeats answer for what they did", func(c *Ctx) error {
		const r = "answers"
		c.Rule(r, "a passed acknowledgement succeeds exactly when it stopped the item's processing and then removes it; a failed one succeeds exactly when it stopped it; a heartbeat succeeds exactly when the heartbeat was taken; emptiness is reported from after the change", 2)
		_, runs, err := mqcAll(c, r, "ACK", "Heartbeat")
		if err != nil {
			return err
		}
		for _, m := range runs {
			for _, x := range m.exits {
				n := x.St.Mon
				switch m.en.name {
				case "ACK":
					e := resNil(x, len(x.Res)-1)
					if e < 0 {
						m.fail(c, r, x, "whether the acknowledgement succeeds does not depend on what it did")
						continue
					}
					if n["passed"] == 0 {
						m.fail(c, r, x, "the acknowledgement's outcome is not looked at")
					}
					if e == 1 && n["hbstop"] != 1 {
						m.fail(c, r, x, "an acknowledgement succeeds although the item was not processing")
					}
					if e == 0 && n["hbstop"] != 0 {
						m.fail(c, r, x, "an acknowledgement is refused after it ended the item's processing")
					}
					if n["passed"] == 1 && e == 1 && n["items"] != -1 {
						m.fail(c, r, x, "a successfully processed item stays stored")
					}
					if n["hbstop"] == 0 && (n["items"] != 0 || n["run"] != 0 || n["enq"] != 0 || n["ids"] != 0) {
						m.fail(c, r, x, "an acknowledgement for an item that is not processing changes the channel")
					}
					if b := x.St.MonV["empty"]; len(x.Res) == 2 && (b == nil || !containsVal(x.Res[0], b)) {
						m.fail(c, r, x, "whether the channel is empty is not taken after the change")
					}
				case "Heartbeat":
					e := resNil(x, 0)
					if e == 1 && n["hbbeat"] != 1 {
						m.fail(c, r, x, "a heartbeat is accepted although the item is not processing")
					}
					if e != 1 && n["hbbeat"] != 0 {
						m.fail(c, r, x, "a heartbeat that was taken is answered with an error")
					}
				}
			}
		}
		return nil
	})

	register("W05", "hand-out protocol between a channel and its client", func(c *Ctx) error {
		const r = "hand-out"
		c.Rule(r, "taking an item either yields it with both callbacks and leaves the executor waiting, or yields nothing and answers the executor; each callback answers the executor exactly once; success starts the heartbeat, failure ends it", 3)
		_, runs, err := mqcAll(c, r, "dequeue", "success callback", "failure callback")
		if err != nil {
			return err
		}
		gave := false
		for _, m := range runs {
			for _, x := range m.exits {
				n := x.St.Mon
				ans := n["rsp_true"] + n["rsp_false"]
				if n["ids"] != n["notif"] {
					m.fail(c, r, x, "a waiting message is left without its pending hand-out, or a hand-out without its message")
				}
				switch m.en.name {
				case "dequeue":
					if len(x.Res) != 3 {
						m.fail(c, r, x, "unexpected results")
						continue
					}
					a, s, f := resNil(x, 0), resNil(x, 1), resNil(x, 2)
					switch {
					case a == 1:
						if n["rsp_true"] != 1 || n["rsp_false"] != 0 {
							m.fail(c, r, x, "a refused hand-out does not tell the executor so exactly once")
						}
						if n["ids"] != 0 || n["run"] != 0 {
							m.fail(c, r, x, "a refused hand-out changes the channel")
						}
					case a == 0 && s == 0 && f == 0:
						gave = true
						if ans != 0 {
							m.fail(c, r, x, "the executor is answered before the item is delivered")
						}
						if n["run"] != 1 || n["ids"] != -1 {
							m.fail(c, r, x, "an item is handed out without being counted as running")
						}
						if n["hbnew"] != 1 {
							m.fail(c, r, x, "an item is handed out without a heartbeat process")
						}
					default:
						m.fail(c, r, x, "an item is handed out without its callbacks")
					}
				case "success callback":
					if n["rsp_false"] != 1 || ans != 1 {
						m.fail(c, r, x, fmt.Sprintf("the executor is answered %d times", ans))
					}
					if n["hbstart"] != 1 && n["hbnil"] != 1 {
						m.fail(c, r, x, "the delivered item's heartbeat is not started")
					}
				case "failure callback":
					if n["rsp_false"] != 1 || ans != 1 {
						m.fail(c, r, x, fmt.Sprintf("the executor is answered %d times", ans))
					}
					if n["hbstart"] != 0 || n["hbstop"] != 1 {
						m.fail(c, r, x, "the undelivered item's heartbeat is not ended")
					}
					if n["run"] != -1 {
						m.fail(c, r, x, "an undelivered item stays counted as running")
					}
					if n["hbstop"] == 1 && n["ids"] != 1 && n["items"] != -1 {
						m.fail(c, r, x, "an undelivered item does not wait again")
					}
				}
			}
		}
		c.Check(gave, r, "an item handed out", "-", "no path found on which an item is handed out")
		return nil
	})
}

// containsVal: is b a (an interface, conversion or part of it)?
func containsVal(a, b *flow.Val) bool {
	b = flow.Strip(b)
	return flow.Contains(a, func(x *flow.Val) bool { return x.Key() == b.Key() })
}

var _ = types.Typ

func monInts(st *flow.State) string {
	var ks []string
	for k, v := range st.Mon {
		if strings.HasPrefix(k, "@") || v == 0 {
			continue
		}
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}
