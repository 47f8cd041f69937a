package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Prop is one property with its static decision procedure.
type Prop struct {
	ID, Title, Statement string
	Over                 []string
	Quant, Why           string
	Files                []string
	Mech                 [][2]string
	Technique, Note      string
	NA                   string // reason, when not claimed
	Run                  func(c *Ctx)
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

// Ctx collects the obligations of one check.
type Ctx struct {
	P     *Prog
	Prop  *Prop
	Tier  string
	obs   []Ob
	count map[string]int
	seen  map[string]bool
	fns   map[*ssa.Function]bool
	paths int
	notes []string
	known map[string]string
}

type Ob struct {
	Rule, Construct, Detail, Where string
	OK                             bool
}

// Ob records an obligation of rule at construct. Keys are rule+construct, not
// positions.
func (c *Ctx) Ob(ok bool, rule, construct, where, detail string, a ...interface{}) bool {
	if len(a) > 0 {
		detail = fmt.Sprintf(detail, a...)
	}
	c.count[rule]++
	if !ok {
		k := rule + "|" + construct
		if c.seen[k] {
			return ok
		}
		c.seen[k] = true
	}
	c.obs = append(c.obs, Ob{rule, construct, detail, where, ok})
	return ok
}

func (c *Ctx) Undecided(rule, construct string, err interface{}) {
	c.Ob(false, rule, construct, "", "undecided: %v", err)
}

// Floor fails the check when a rule matched fewer instances than confirmed by
// hand on the reference tree.
func (c *Ctx) Floor(rule string, n int) {
	if c.count[rule] < n {
		c.Ob(false, rule+"/coverage", rule, "", "only %d instances analysed, expected at least %d: the construct this rule inspects is gone or no longer resolved", c.count[rule], n)
	}
}

func (c *Ctx) Func(rel, name string) *ssa.Function {
	f := c.P.Func(rel, name)
	if f == nil || len(f.Blocks) == 0 {
		c.Ob(false, "anchor", rel+"."+name, "", "function %s.%s not found: the property's anchor is gone", rel, name)
		return nil
	}
	c.fns[f] = true
	return f
}

func (c *Ctx) where(f *ssa.Function) string { return c.P.pos(f.Pos()) }

// Paths runs the abstract interpreter.
func (c *Ctx) Paths(e *Engine, f *ssa.Function, pre ...*Term) []Outcome {
	if f == nil {
		return nil
	}
	outs, err := e.Run(f, pre...)
	for g := range e.inlined {
		c.fns[g] = true
	}
	c.paths += len(outs)
	if err != nil {
		c.Undecided("analysis", fnName(f), err)
		return nil
	}
	return outs
}

func (c *Ctx) Opts(home []string, opaque ...string) *Engine {
	e := newEngine(c.P, home...)
	m := map[string]bool{}
	for _, o := range opaque {
		m[o] = true
	}
	e.opaque = func(name string, f *ssa.Function) bool {
		return m[name] || m[baseName(name)] || m[name[strings.IndexByte(name, '.')+1:]]
	}
	return e
}

type knownFinding struct {
	Property, Rule, Construct, What string
}

func verifDir() string {
	if d := os.Getenv("VC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// known findings: lines "known: property=<id> rule=<rule> construct=<construct> :: <what>"
func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		parts := strings.SplitN(l[7:], " :: ", 2)
		k := knownFinding{}
		if len(parts) == 2 {
			k.What = parts[1]
		}
		for _, f := range strings.Split(parts[0], ";") {
			kv := strings.SplitN(strings.TrimSpace(f), "=", 2)
			if len(kv) != 2 {
				continue
			}
			switch kv[0] {
			case "property":
				k.Property = kv[1]
			case "rule":
				k.Rule = kv[1]
			case "construct":
				k.Construct = kv[1]
			}
		}
		out = append(out, k)
	}
	return out
}

func runCheck(id, tier string) int {
	t0 := time.Now()
	var pr *Prop
	for _, p := range props {
		if p.ID == id {
			pr = p
		}
	}
	if pr == nil || pr.Run == nil {
		fmt.Println("no such check", id)
		return 2
	}
	c := &Ctx{Prop: pr, Tier: tier, count: map[string]int{}, seen: map[string]bool{}, fns: map[*ssa.Function]bool{}}
	root := "/repo"
	if r := os.Getenv("VC_REPO"); r != "" {
		root = r
	}
	p, err := load(root)
	if err != nil {
		c.Ob(false, "load", "repository", "", "the repository cannot be loaded and type-checked: %v", err)
	} else {
		c.P = p
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Ob(false, "analysis", "panic", "", "the analysis stopped: %v", r)
					fmt.Fprintln(os.Stderr, string(debug.Stack()))
				}
			}()
			pr.Run(c)
		}()
	}
	return c.finish(t0)
}

func (c *Ctx) finish(t0 time.Time) int {
	var bad []Ob
	ok := 0
	known := loadKnown()
	var knownHit []string
	for _, o := range c.obs {
		if o.OK {
			ok++
			continue
		}
		hit := false
		for _, k := range known {
			if k.Property == c.Prop.ID && k.Rule == o.Rule && k.Construct == o.Construct {
				hit = true
				dup := false
				for _, h := range knownHit {
					dup = dup || h == k.What
				}
				if !dup {
					knownHit = append(knownHit, k.What)
				}
			}
		}
		if !hit {
			bad = append(bad, o)
		}
	}
	if len(c.obs) == 0 {
		bad = append(bad, Ob{Rule: "coverage", Construct: c.Prop.ID, Detail: "no obligation was generated"})
	}
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop.ID, k)
	}
	var rules []string
	for r := range c.count {
		rules = append(rules, r)
	}
	sort.Strings(rules)
	byRule := map[string]int{}
	for _, r := range rules {
		byRule[r] = c.count[r]
	}
	seen := map[string]bool{}
	var samples []string
	for _, o := range c.obs {
		if o.OK && !seen[o.Rule] && len(samples) < 12 {
			seen[o.Rule] = true
			samples = append(samples, o.Rule+" @ "+o.Construct+" "+o.Where)
		}
	}
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	var fl []string
	for f := range c.fns {
		fl = append(fl, fnName(f))
	}
	sort.Strings(fl)
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	loaded := 0
	if c.P != nil {
		loaded = len(c.P.Fns)
	}
	ev := map[string]interface{}{
		"property": c.Prop.ID, "tier": c.Tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":         c.Prop.Technique + ". " + c.Prop.Note,
			"obligations":         len(c.obs),
			"obligations_held":    ok,
			"obligations_by_rule": byRule,
			"abstract_paths":      c.paths,
			"functions_analysed":  len(c.fns),
			"functions_loaded":    loaded,
			"functions":           fl,
			"samples":             samples,
			"notes":               c.notes,
			"known_findings":      knownHit,
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(bad),
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.Prop.ID+".json"), b, 0644)
	if len(bad) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d paths=%d wall=%.1fs\n", c.Prop.ID, len(c.obs), len(c.fns), c.paths, time.Since(t0).Seconds())
		return 0
	}
	rp := filepath.Join(dir, "violation-"+c.Prop.ID+".txt")
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "rule: %s\nconstruct: %s\nwhere: %s\n%s\n\n", o.Rule, o.Construct, o.Where, o.Detail)
	}
	txt := strings.ToValidUTF8(sb.String(), "?")
	os.WriteFile(rp, []byte(txt), 0644)
	fmt.Print(txt)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop.ID, rp)
	return 1
}

// ---- generation of properties.jsonl and MANIFEST.json -----------------------

func generate() {
	sort.Slice(props, func(i, j int) bool { return props[i].ID < props[j].ID })
	var sb strings.Builder
	var checks []map[string]interface{}
	na := []map[string]string{}
	for _, p := range props {
		var mech []map[string]string
		for _, m := range p.Mech {
			mech = append(mech, map[string]string{"name": m[0], "where": m[1]})
		}
		over := p.Over
		if over == nil {
			over = []string{"inputs"}
		}
		o := map[string]interface{}{
			"id": p.ID, "title": p.Title, "statement": threeSentences(p.Statement),
			"quantifier":     map[string]interface{}{"over": over, "text": p.Quant},
			"why_tests_cant": p.Why,
			"anchors":        map[string]interface{}{"files": p.Files, "mechanism": mech},
		}
		if len(p.Title) > 80 {
			fmt.Println("title too long", p.ID)
		}
		b, _ := json.Marshal(o)
		sb.Write(b)
		sb.WriteByte('\n')
		if p.NA != "" {
			na = append(na, map[string]string{"property": p.ID, "reason": p.NA})
			continue
		}
		checks = append(checks, map[string]interface{}{
			"property": p.ID, "quick_cmd": "bash run.sh " + p.ID + " quick", "thorough_cmd": "bash run.sh " + p.ID + " thorough",
			"evidence_file": "evidence/" + p.ID + ".json", "technique": p.Technique, "level": "other", "level_note": p.Note,
		})
	}
	os.WriteFile(filepath.Join(verifDir(), "properties.jsonl"), []byte(sb.String()), 0644)
	m := map[string]interface{}{"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
		"notes": "All checks are static analyses of /repo's current source by the Go program in analyzer/ (SSA, dataflow, abstract interpretation); nothing of go-vite is executed."}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(filepath.Join(verifDir(), "MANIFEST.json"), append(b, '\n'), 0644)
}

// threeSentences joins the sentences of a statement into at most three.
func threeSentences(s string) string {
	parts := strings.Split(s, ". ")
	if len(parts) <= 3 {
		return s
	}
	total := len(s)
	var out []string
	cur := ""
	for i, p := range parts {
		if cur == "" {
			cur = p
		} else {
			r := []rune(p)
			if len(r) > 1 && unicode.IsUpper(r[0]) && !unicode.IsUpper(r[1]) {
				r[0] = unicode.ToLower(r[0])
			}
			cur += "; " + string(r)
		}
		if len(cur) >= total/3 && len(out) < 2 && i < len(parts)-1 {
			out = append(out, cur)
			cur = ""
		}
	}
	if cur != "" {
		out = append(out, cur)
	}
	return strings.Join(out, ". ")
}
