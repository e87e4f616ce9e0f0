package main

// kyvelint: static decision of the properties in ../properties.jsonl.
//
//	kyvelint check <PID> [-tier quick|thorough]
//	kyvelint dump <module.Func> ...      (debugging)

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Spec struct {
	ID      string
	Tech    string // a few words
	Explain string // what is analysed and by which rule, in words
	Run     func(c *Ctx)
}

var specs = map[string]*Spec{}

const (
	techSym = "path-sensitive symbolic dataflow over SSA with must-facts; obligations at call sites and returns"
)

func reg(id, explain string, run func(c *Ctx)) { regT(id, techSym, explain, run) }

func regT(id, tech, explain string, run func(c *Ctx)) {
	if specs[id] != nil {
		panic("duplicate spec " + id)
	}
	specs[id] = &Spec{id, tech, explain, run}
}

func newCtx(id string, pr *Program, su *Summ) *Ctx {
	return &Ctx{id: id, pr: pr, su: su, roots: map[string]*Root{}, funcs: map[*ssa.Function]bool{}, rules: map[string]int{}, cache: map[string]*Root{}, extra: map[string]any{}, needs: map[string]bool{}}
}

// sec runs one group of obligations; a failure of the analysis inside it is a
// failed obligation, never silence.
func (c *Ctx) sec(rule string, f func()) {
	c.R(rule)
	defer func() {
		c.rule = rule
		if r := recover(); r != nil {
			msg := ""
			if ae, ok := r.(analysisError); ok {
				msg = ae.msg
			} else {
				msg = fmt.Sprint(r) + "\n" + string(debug.Stack())
			}
			c.check(false, "analysis: "+firstLine(msg), 0, "%s: the construct this rule is about could not be analysed: %s", rule, msg)
			return
		}
		if c.rules[rule] == 0 {
			c.check(false, "vacuous", 0, "%s: no obligation was generated", rule)
		}
	}()
	f()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: kyvelint check <PID> | dump <func> | list")
		os.Exit(2)
	}
	repo := os.Getenv("KYVELINT_REPO")
	if repo == "" {
		repo = "/repo"
	}
	switch os.Args[1] {
	case "list":
		for _, id := range specIDs() {
			fmt.Println(id)
		}
	case "explain":
		for _, id := range specIDs() {
			fmt.Printf("%s\t%s\t%s\n", id, specs[id].Tech, specs[id].Explain)
		}
	case "check":
		os.Exit(check(repo, os.Args[2:]))
	case "dump", "accessors", "effects", "names":
		pr, err := load(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		su := summarise(pr)
		switch os.Args[1] {
		case "accessors":
			accessors(pr, su)
		case "names":
			for n := range su.byName {
				fmt.Println(n, su.effect[su.byName[n][0]])
			}
		default:
			for _, n := range os.Args[2:] {
				dump(pr, su, n)
			}
		}
	default:
		os.Exit(2)
	}
}

func specIDs() []string {
	var ids []string
	for id := range specs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

type known struct{ prop, key, text string }

// knownFindings: lines "finding: property=<id> key=<key> :: <what fails>".
// "fixed:" lines document repairs and suppress nothing.
func knownFindings(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		out = append(out, known{l[:i], strings.TrimSpace(l[i+5 : j]), l[j+4:]})
	}
	return out
}

func check(repo string, args []string) int {
	verif := os.Getenv("KYVELINT_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ids []string
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-tier":
			i++
			tier = args[i]
		case "all":
			ids = specIDs()
		default:
			ids = append(ids, args[i])
		}
	}
	t0 := time.Now()
	var pr *Program
	var su *Summ
	var lerr error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if ae, ok := r.(analysisError); ok {
					lerr = fmt.Errorf("%s", ae.msg)
				} else {
					lerr = fmt.Errorf("%v\n%s", r, debug.Stack())
				}
			}
		}()
		pr, lerr = load(repo)
		if lerr == nil {
			su = summarise(pr)
		}
	}()
	tl := time.Since(t0)
	rc := 0
	for _, id := range ids {
		sp := specs[id]
		if sp == nil {
			fmt.Println("no check named", id)
			return 2
		}
		t1 := time.Now()
		c := newCtx(id, pr, su)
		if lerr != nil {
			c.R("load")
			c.fails = append(c.fails, Failure{Key: "load", Rule: "load", Msg: "the repository does not load or type-check: " + lerr.Error()})
			c.obl, c.rules["load"] = 1, 1
		} else {
			func() {
				c.sec("spec", func() { c.obl++; c.disch++; c.rules["spec"]++; sp.Run(c) })
				delete(c.rules, "spec")
				c.helpers()
			}()
			if c.obl < 2 {
				c.fails = append(c.fails, Failure{Key: "vacuous", Rule: "spec", Msg: "no obligation was generated"})
			}
		}
		wall := (tl + time.Since(t1)).Seconds()
		if report(verif, c, sp, tier, seed, wall) {
			rc = 1
		}
	}
	return rc
}

func report(verif string, c *Ctx, sp *Spec, tier string, seed int, wall float64) (bad bool) {
	kn := knownFindings(verif)
	var viol []Failure
	seenK := map[string]bool{}
	for _, f := range c.fails {
		hit := false
		for _, k := range kn {
			if k.prop == c.id && k.key == f.Key {
				hit = true
				if !seenK[k.key] {
					seenK[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.text)
				}
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}
	var rules []map[string]any
	for _, r := range c.order {
		if n, ok := c.rules[r]; ok {
			rules = append(rules, map[string]any{"rule": r, "obligations": n})
		}
	}
	var roots []string
	for n := range c.roots {
		roots = append(roots, n)
	}
	sort.Strings(roots)
	var samples []string
	for _, n := range roots {
		r := c.roots[n]
		for _, s := range r.sites {
			if s.Eff && len(samples) < 12 {
				samples = append(samples, fmt.Sprintf("%s: %s at %s under %d facts", n, clip(s.Name), c.pr.pos(s.Pos), len(s.Site.St.facts)))
				break
			}
		}
	}
	cov := map[string]any{
		"explanation":           sp.Explain,
		"obligations":           c.obl,
		"discharged":            c.disch,
		"rules":                 rules,
		"entry_points":          roots,
		"functions_interpreted": len(c.funcs),
		"call_sites_with_facts": c.sitesN,
		"samples":               samples,
	}
	if c.pr != nil {
		cov["repository_packages"] = len(c.pr.Repo)
		cov["repository_functions_loaded"] = len(c.pr.Funcs)
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": c.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall, "violations": len(viol),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	rp := filepath.Join(verif, "out", c.id+".violations.json")
	os.Remove(rp)
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d call_sites=%d wall=%.1fs\n", c.id, c.obl, len(c.funcs), c.sitesN, wall)
		return false
	}
	os.MkdirAll(filepath.Dir(rp), 0o755)
	b, _ = json.MarshalIndent(viol, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	for i, f := range viol {
		if i == 12 {
			fmt.Printf("  … %d more in %s\n", len(viol)-i, rp)
			break
		}
		fmt.Printf("  [%s] %s\n     at %s: %s\n", f.Rule, clipN(strings.TrimPrefix(f.Key, f.Rule+" | "), 300), f.At, clipN(f.Msg, 700))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	return true
}

func accessors(pr *Program, su *Summ) {
	for _, f := range pr.Funcs {
		if su.direct[f] == 0 {
			continue
		}
		var other []string
		for _, c := range su.callees[f] {
			if su.effect[c] || su.direct[c] != 0 {
				other = append(other, shortName(c))
			}
		}
		fmt.Println(shortName(f), su.direct[f], "R", sortedKeys(su.reads[f]), "W", sortedKeys(su.writes[f]), "other", other)
	}
}

func dump(pr *Program, su *Summ, name string) {
	all := os.Getenv("DUMP_ALL") != ""
	if n, err := strconv.Atoi(os.Getenv("DUMP_DEPTH")); err == nil {
		maxDepth = n
	}
	for _, fn := range su.byName[name] {
		if isPB(pr, fn) {
			continue
		}
		fmt.Println("=====", fn.String(), pr.pos(fn.Pos()))
		c := newCtx("dump", pr, su)
		var r *Root
		func() {
			defer func() {
				if r := recover(); r != nil {
					if ae, ok := r.(analysisError); ok {
						fmt.Println("BAIL:", ae.msg)
						return
					}
					panic(r)
				}
			}()
			var opts []opt
			if os.Getenv("DUMP_STORE") != "" {
				opts = append(opts, storeMode)
			}
			if k := os.Getenv("DUMP_KEEP"); k != "" {
				opts = append(opts, keep(strings.Split(k, ",")...))
			}
			r = c.rootFn(fn, name, "d", opts...)
		}()
		if r == nil {
			continue
		}
		st := func(s *State) {
			for _, a := range s.facts {
				if a.Op != OpDid || isEffDid(r.e, a) {
					fmt.Println("      ", a)
				}
			}
			for _, c := range s.cond {
				fmt.Println("      ", c.g, "=>", c.a)
			}
		}
		for _, s := range r.sites {
			if !s.Eff && !all {
				continue
			}
			fmt.Printf("-- SITE %s  [%s] chain=%s loops=%d\n", s.call, pr.pos(s.Pos), strings.Join(s.Chain, ">"), len(s.Loops))
			st(s.state())
		}
		for _, x := range r.rets {
			fmt.Println("-- RETURN", x.vals, pr.pos(x.pos))
			for _, k := range sortedKeys(x.post) {
				fmt.Println("-- POST", k, x.post[k])
			}
			st(x.st)
		}
		fmt.Println("steps", r.e.steps, "terms", len(r.e.in.terms))
	}
}

func isEffDid(e *Engine, d *Term) bool {
	for _, s := range e.sites {
		if (s.Call == d.Args[0] || e.canon(s.Call) == d.Args[0]) && s.Eff {
			return true
		}
	}
	return false
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
