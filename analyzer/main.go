// willowcheck decides the semantic properties in /verif/properties.jsonl from the source of DanLavine/willow.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"willowcheck/checks"
	"willowcheck/flow"
	"willowcheck/load"
)

type known struct{ key, desc string }

// knownFindings reads "property=<id> key=<rule|construct> :: <what fails>" lines; "fixed:" lines suppress nothing.
func knownFindings(path, prop string) ([]known, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		head, desc, ok := strings.Cut(l, " :: ")
		if !ok {
			return nil, fmt.Errorf("malformed known finding: %s", l)
		}
		pre := "property=" + prop + " key="
		if strings.HasPrefix(head, pre) {
			out = append(out, known{strings.TrimPrefix(head, pre), desc})
		}
	}
	return out, nil
}

func main() {
	prop := flag.String("property", "", "property id")
	root := flag.String("verif", "/verif", "where evidence and known findings live")
	list := flag.Bool("list", false, "list the properties")
	verbose := flag.Bool("v", false, "print every obligation")
	prof := flag.String("cpuprofile", "", "write a profile of the analysis")
	flag.Parse()
	if *prof != "" {
		if f, err := os.Create(*prof); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
			time.AfterFunc(60*time.Second, pprof.StopCPUProfile)
		}
	}
	if *list {
		for _, id := range checks.IDs() {
			ch, _ := checks.Lookup(id)
			fmt.Println(id, ch.Title)
		}
		return
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = checks.IDs()
	}
	start := time.Now()
	p, err := load.Load()
	loadT := time.Since(start)
	code := 0
	for _, id := range ids {
		if r := one(id, p, err, *root, *verbose, loadT); r != 0 {
			code = r
		}
	}
	os.Exit(code)
}

func one(id string, p *load.Prog, loadErr error, root string, verbose bool, loadT time.Duration) int {
	start := time.Now().Add(-loadT)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	flow.Deadline = time.Now().Add(600 * time.Second)
	if tier == "thorough" {
		flow.Deadline = time.Now().Add(780 * time.Second)
	}
	c := checks.NewCtx(p, id, tier == "thorough")
	ch, ok := checks.Lookup(id)
	if !ok {
		fmt.Printf("unknown property %s\n", id)
		return 2
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if r == flow.OutOfTime {
					c.Fail("analysis", "time", "-", "the analysis ran out of time before it reached a verdict")
					return
				}
				c.Fail("analysis", "panic", "-", fmt.Sprintf("the analysis failed: %v\n%s", r, debug.Stack()))
			}
		}()
		if loadErr != nil {
			c.Fail("analysis", "load", "-", loadErr.Error())
			return
		}
		if err := ch.Run(c); err != nil {
			c.Fail("analysis", "anchor", "-", err.Error())
			return
		}
		c.Adopt(func(property, key string) bool {
			kn, _ := knownFindings(filepath.Join(root, "known_findings.txt"), property)
			for _, k := range kn {
				if k.key == key {
					return true
				}
			}
			return false
		})
		c.Finish()
	}()
	kn, err := knownFindings(filepath.Join(root, "known_findings.txt"), id)
	if err != nil {
		c.Fail("analysis", "known_findings", "-", err.Error())
	}

	var viol []checks.Finding
	var listed []string
	for _, f := range c.Findings {
		hit := false
		for _, k := range kn {
			if k.key == f.Key() {
				hit = true
				listed = append(listed, k.desc)
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.desc)
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}

	total := 0
	rules := map[string]any{}
	for r, cs := range c.Obligations {
		total += len(cs)
		var names []string
		for n := range cs {
			names = append(names, n)
		}
		sort.Strings(names)
		if len(names) > 12 {
			names = append(names[:12], fmt.Sprintf("... and %d more", len(names)-12))
		}
		rules[r] = map[string]any{"says": c.Rules[r], "instances": len(cs), "constructs": names}
	}
	var fns []string
	for f := range c.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)

	cov := map[string]any{
		"explanation":        "Static analysis of the type-checked source and its SSA form in " + load.RepoDir() + " on this run; each obligation is a rule instance keyed by rule and construct. " + ch.Title,
		"obligations":        total,
		"discharged":         total - len(c.Findings),
		"rules":              rules,
		"functions_analysed": len(fns),
		"functions":          fns,
		"known_findings":     listed,
	}
	for k, v := range c.Counts {
		cov[k] = v
	}
	if p != nil {
		cov["module_functions_loaded"] = len(p.AllFuncs)
		cov["packages_loaded"] = len(p.Pkgs)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(viol),
		"assumptions": checks.Assumptions(id),
	}
	evdir := filepath.Join(root, "evidence")
	os.MkdirAll(evdir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), b, 0o644); err != nil {
		fmt.Println("writing evidence:", err)
	}
	if verbose {
		var rs []string
		for r := range c.Obligations {
			rs = append(rs, r)
		}
		sort.Strings(rs)
		for _, r := range rs {
			for n := range c.Obligations[r] {
				fmt.Printf("  %s | %s\n", r, n)
			}
		}
	}
	fmt.Printf("%s: %d obligations over %d functions, %d violated (%d listed), %.1fs\n", id, total, len(fns), len(viol), len(listed), time.Since(start).Seconds())
	if len(viol) == 0 {
		os.Remove(filepath.Join(evdir, id+".violations.txt"))
		return 0
	}
	rp := filepath.Join(evdir, id+".violations.txt")
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "rule %s\n construct %s\n at %s\n %s\n", f.Rule, f.Construct, f.Pos, f.Detail)
		for _, w := range f.Witness {
			fmt.Fprintf(&sb, "   via %s\n", w)
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}
