package main

// The frame of a check: what it found, what it looked at, and how that is
// reported.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Check struct {
	ID          string
	Technique   string
	Explanation string
	Assumptions []string
	Run         func(c *Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type Ctx struct {
	*Program
	check    *Check
	tier     string
	findings map[string]*Finding
	sites    map[string]map[string]bool // rule -> constructs
	funcs    map[string]bool
	stats    map[string]int
}

// Fail records a violation of a rule at a construct. The key must not depend
// on line numbers.
func (c *Ctx) Fail(key string, pos token.Pos, format string, args ...interface{}) {
	if _, ok := c.findings[key]; !ok {
		c.findings[key] = &Finding{Key: key, Msg: fmt.Sprintf(format, args...), Pos: pos}
	}
}

// OK records that a rule was decided at a construct.
func (c *Ctx) OK(rule, construct string) {
	m := c.sites[rule]
	if m == nil {
		m = map[string]bool{}
		c.sites[rule] = m
	}
	m[construct] = true
}

// Floor fails the check if a rule was decided at fewer constructs than known.
func (c *Ctx) Floor(rule string, n int) {
	if len(c.sites[rule]) < n {
		c.Fail("floor:"+rule, token.NoPos, "rule %q was decided at %d constructs, expected at least %d: the analysis no longer sees the code it is about", rule, len(c.sites[rule]), n)
	}
}

func (c *Ctx) Analysed(fn *ssa.Function) { c.funcs[fn.String()] = true }

// NeedFunc resolves an anchor.
func (c *Ctx) NeedFunc(pkg, name string) *ssa.Function {
	fn := c.Func(pkg, name)
	if fn == nil || fn.Blocks == nil {
		c.Fail("anchor:"+pkg+"."+name, token.NoPos, "the function %s.%s was not found", pkg, name)
		return nil
	}
	c.Analysed(fn)
	return fn
}

func (c *Ctx) NeedMethod(pkg, typ, name string) *ssa.Function {
	fn := c.Method(pkg, typ, name)
	if fn == nil || fn.Blocks == nil {
		c.Fail("anchor:"+pkg+"."+typ+"."+name, token.NoPos, "the method (%s.%s).%s was not found", pkg, typ, name)
		return nil
	}
	c.Analysed(fn)
	return fn
}

// Merge takes over what an engine run found.
func (c *Ctx) Merge(e *Engine, what string) {
	for k, f := range e.findings {
		if _, ok := c.findings[k]; !ok {
			c.findings[k] = f
		}
	}
	for f := range e.Funcs {
		c.funcs[f.String()] = true
	}
	for r, m := range e.sites {
		for in := range m {
			if what != "" {
				c.OK(r, what+": "+c.siteName(in))
			} else {
				c.OK(r, c.siteName(in))
			}
		}
	}
	c.stats["abstract states"] += e.states
	c.stats["instructions interpreted"] += e.steps
	c.stats["branches decided"] += len(e.Branches)
	if e.exceeded {
		c.Fail("budget:"+what, token.NoPos, "the analysis of %s was not completed within its budget; the property is undecided", what)
	}
}

func (c *Ctx) siteName(in ssa.Instruction) string {
	return in.Parent().String() + "@" + c.Pos(instrPos(in))
}

func instrPos(in ssa.Instruction) token.Pos {
	if p := in.Pos(); p.IsValid() {
		return p
	}
	b := in.Block()
	if b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return x.Pos()
			}
		}
	}
	if in.Parent() != nil {
		return in.Parent().Pos()
	}
	return token.NoPos
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions,omitempty"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

// known reads the findings that are recorded instead of repaired:
// "known: property=<id> key=<key> :: <text>".
func known(file, id string) map[string]string {
	m := map[string]string{}
	data, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(data), "\n") {
		p := "known: property=" + id + " key="
		if strings.HasPrefix(l, p) {
			rest := l[len(p):]
			if i := strings.Index(rest, " :: "); i >= 0 {
				m[rest[:i]] = rest[i+4:]
			}
		}
	}
	return m
}

// runCheck runs one check and reports; it returns the exit code.
func runCheck(ck *Check, repo, verif, tier string, seed int) (code int) {
	start := time.Now()
	c := &Ctx{check: ck, tier: tier, findings: map[string]*Finding{}, sites: map[string]map[string]bool{}, funcs: map[string]bool{}, stats: map[string]int{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("PG_PANIC") != "" {
					panic(r)
				}
				if os.Getenv("PG_TRACE") != "" {
					debug.PrintStack()
				}
				c.Fail("internal", token.NoPos, "the analysis failed: %v", r)
			}
		}()
		p, err := Load(repo)
		if err != nil {
			c.Fail("load", token.NoPos, "%v", err)
			return
		}
		c.Program = p
		ck.Run(c)
	}()
	kn := known(filepath.Join(verif, "known-findings.txt"), ck.ID)
	var keys []string
	for k := range c.findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var report []string
	viol, listed := 0, 0
	for _, k := range keys {
		f := c.findings[k]
		if txt, ok := kn[k]; ok {
			listed++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, txt)
			continue
		}
		viol++
		at := "?"
		if c.Program != nil {
			at = c.Pos(f.Pos)
		}
		report = append(report, fmt.Sprintf("[%s] %s: %s", k, at, f.Msg))
		for _, t := range f.Trace {
			report = append(report, "    "+t)
		}
	}
	rules := map[string]int{}
	total := 0
	var samples []string
	var rk []string
	for r := range c.sites {
		rk = append(rk, r)
	}
	sort.Strings(rk)
	for _, r := range rk {
		rules[r] = len(c.sites[r])
		total += len(c.sites[r])
		var s []string
		for x := range c.sites[r] {
			s = append(s, x)
		}
		sort.Strings(s)
		if len(s) > 3 {
			s = s[:3]
		}
		for _, x := range s {
			samples = append(samples, r+": "+x)
		}
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, strings.ReplaceAll(f, Module+"/", ""))
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation":             ck.Explanation,
		"technique":               ck.Technique,
		"functions_analysed":      len(fns),
		"functions":               fns,
		"obligations":             total,
		"obligations_per_rule":    rules,
		"samples":                 samples,
		"known_findings_reported": listed,
	}
	for k, v := range c.stats {
		cov[strings.ReplaceAll(k, " ", "_")] = v
	}
	ev := evidence{Property: ck.ID, Tier: tier, Seed: seed, Level: "other", Coverage: cov,
		Assumptions: ck.Assumptions, WallS: time.Since(start).Seconds(), Violations: viol}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, ck.ID+".json"), append(data, '\n'), 0o644)
	replay := filepath.Join(dir, "replay", ck.ID+".txt")
	if viol > 0 {
		os.MkdirAll(filepath.Dir(replay), 0o755)
		head := fmt.Sprintf("property %s: %d violation(s); rerun: bash %s/run.sh %s\n", ck.ID, viol, verif, ck.ID)
		os.WriteFile(replay, []byte(head+strings.Join(report, "\n")+"\n"), 0o644)
		n := 0
		for _, l := range report {
			fmt.Println(l)
			if n++; n > 80 {
				fmt.Println("...")
				break
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, replay)
		return 1
	}
	os.Remove(replay)
	fmt.Printf("%s holds: %d obligations of %d rules decided in %d functions (%.1fs)\n", ck.ID, total, len(rules), len(fns), time.Since(start).Seconds())
	return 0
}
