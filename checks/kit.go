package checks

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"agverif/engine"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID   string
	Rule string // the rule applied, for the evidence
	Min  int    // least number of obligations confirmed by hand
	Run  func(*C)
}

// All is the registry.
var All = map[string]*Check{}

func register(c *Check) { All[c.ID] = c }

// Ob is an obligation, and what became of it.
type Ob struct {
	Key  string `json:"key"`
	What string `json:"what"`
	OK   bool   `json:"ok"`
	Why  string `json:"why,omitempty"`
	At   string `json:"at,omitempty"`
}

// C is the context of a run of a check.
type C struct {
	W     *World
	Check *Check
	obs   map[string]*Ob
	order []string
	stats map[string]int
	fns   map[string]bool
	Tier  string
	// began, and when the first obligation failed
	began, failed time.Time
}

const (
	// patience is how long a check takes at most, before it is undecided
	patience = 780 * time.Second
	// more is how long a check looks for further violations
	more = 45 * time.Second
)

func (c *C) stop() string {
	switch {
	case !c.failed.IsZero() && time.Since(c.failed) > more:
		return "not analysed further, as the property is violated"
	case time.Since(c.began) > patience:
		return "it takes too long"
	}
	return ""
}

// Ob records an obligation; recorded twice, it holds only if it held twice.
func (c *C) Ob(key, what string, ok bool, at, why string, a ...any) {
	if len(a) > 0 {
		why = fmt.Sprintf(why, a...)
	}
	o := c.obs[key]
	if o == nil {
		o = &Ob{Key: key, What: what, OK: true}
		c.obs[key] = o
		c.order = append(c.order, key)
	}
	if !ok && o.OK {
		if c.failed.IsZero() {
			c.failed = time.Now()
		}
		o.OK = false
		o.Why = why
		o.At = at
	}
}

// Machine makes an interpreter whose coverage is part of the evidence.
func (c *C) Machine() *engine.Machine {
	m := c.W.Machine()
	m.Stop = c.stop
	m.Model = LibModel
	// directory entries are never nil
	m.NonNilPath = func(obj, path string) bool {
		return strings.HasPrefix(path, "[") && strings.Contains(obj, "nefilim.Separate")
	}
	// the message bus plays no part in what a navigation does
	m.Opaque = func(fn *ssa.Function) bool {
		p := PkgOf(fn)
		return p != nil && p.Path() == Mod+"/internal/third/bus"
	}
	return m
}

// LibModel states what the rules rely on about code outside of the library.
func LibModel(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
	n := e.Name()
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	switch n {
	case "runtime.NumCPU", "runtime.GOMAXPROCS":
		return []engine.Alt{{Results: []engine.Val{engine.NewNonNil("number of processors", types.Typ[types.Int])},
			Assume: []engine.Cond{{V: engine.Lt(engine.Int(0), engine.NewNonNil("number of processors", types.Typ[types.Int])), Val: true}}}}, true
	case "github.com/snivilised/nefilim.NewUniversalABS", "github.com/snivilised/nefilim.NewUniversalFS",
		"log/slog.New", "log/slog.NewTextHandler":
		return []engine.Alt{{Results: []engine.Val{engine.NewNonNil(n, e.Sig.Results().At(0).Type())}}}, true
	}
	return nil, false
}

// Done reports what a machine has analysed; an analysis that gave up is a
// violation: the property is undecided.
func (c *C) Done(m *engine.Machine, key string) bool {
	c.stats["abstract_states"] += m.States
	c.stats["partition_forks"] += m.Forks
	c.stats["instructions"] += m.CallsOp
	for f := range m.Visited {
		if f.Synthetic == "" || f.Origin() != nil {
			c.fns[engine.FuncName(f)] = true
		}
	}
	if m.Err != nil {
		c.Ob(key+"/decided", "the analysis reaches a verdict", false, "-", "undecided: %v", m.Err)
		return false
	}
	return true
}

// Count adds to a statistic of the evidence.
func (c *C) Count(name string, n int) { c.stats[name] += n }

// Saw records that a function was analysed.
func (c *C) Saw(fn *ssa.Function) { c.fns[engine.FuncName(fn)] = true }

type known struct {
	Property, Key, Text string
}

func loadKnown(dir string) ([]known, error) {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		if !strings.HasPrefix(l, "finding: ") {
			return nil, fmt.Errorf("known-findings.txt: cannot read %q", l)
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " | ", 2)
		h := strings.Fields(f[0])
		if len(f) != 2 || len(h) != 2 {
			return nil, fmt.Errorf("known-findings.txt: cannot read %q", l)
		}
		out = append(out, known{strings.TrimPrefix(h[0], "property="), strings.TrimPrefix(h[1], "key="), f[1]})
	}
	return out, nil
}

// Main runs the checks named and returns the exit code.
func Main(verif, repo, tier string, seed int, ids []string) int {
	start := time.Now()
	kn, kerr := loadKnown(verif)
	w, err := Load(repo)
	loadWall := time.Since(start)
	code := 0
	for _, id := range ids {
		ck := All[id]
		t0 := time.Now()
		c := &C{W: w, Check: ck, obs: map[string]*Ob{}, stats: map[string]int{}, fns: map[string]bool{}, Tier: tier, began: t0}
		switch {
		case ck == nil:
			fmt.Printf("no check %s\n", id)
			return 2
		case err != nil:
			c.Ob("load", "the source can be loaded", false, "-", "%v", err)
		case kerr != nil:
			c.Ob("known", "the known findings can be read", false, "-", "%v", kerr)
		default:
			c.guard()
			if n := len(c.obs); n < ck.Min {
				c.Ob("instances", "enough instances", false, "-",
					"only %d obligations, at least %d were confirmed by hand", n, ck.Min)
			}
		}
		if !c.report(verif, id, kn, tier, seed, time.Since(t0)+loadWall) {
			code = 1
		}
	}
	return code
}

func (c *C) guard() {
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(Missing); ok {
				c.Ob("anchor", "the anchors resolve", false, "-", "unresolved anchor: %s", string(m))
				return
			}
			c.Ob("panic", "the analysis completes", false, "-", "the analysis failed: %v\n%s", r, debug.Stack())
		}
	}()
	c.Check.Run(c)
}

func (c *C) report(verif, id string, kn []known, tier string, seed int, wall time.Duration) bool {
	var bad, findings []*Ob
	good := 0
	var samples []string
	for _, k := range c.order {
		o := c.obs[k]
		if o.OK {
			good++
			if len(samples) < 6 {
				samples = append(samples, o.Key+": "+o.What)
			}
			continue
		}
		listed := ""
		for _, x := range kn {
			if x.Property == id && x.Key == o.Key {
				listed = x.Text
			}
		}
		if listed != "" {
			findings = append(findings, o)
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s at %s)\n", id, listed, o.Key, o.At)
			continue
		}
		bad = append(bad, o)
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation": fmt.Sprintf("Static: %s. %d obligations generated from the current source, %d discharged, %d listed as known findings, %d violated; %d functions analysed.",
			c.Check.Rule, len(c.obs), good, len(findings), len(bad), len(fns)),
		"rule":               c.Check.Rule,
		"obligations":        len(c.obs),
		"discharged":         good,
		"known_findings":     len(findings),
		"functions_analysed": fns,
		"samples":            samples,
	}
	for k, v := range c.stats {
		cov[k] = v
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall.Seconds(),
		"assumptions": []string{
			"calls that leave the library do not modify the library's private state",
			"the library's own goroutine-free code runs sequentially; schedules are only considered where the rule says so",
		},
	}
	path := ""
	if len(bad) > 0 {
		var vs []map[string]any
		var b strings.Builder
		for _, o := range bad {
			vs = append(vs, map[string]any{"key": o.Key, "what": o.What, "at": o.At, "why": o.Why})
			fmt.Fprintf(&b, "property   %s\nrule       %s\nobligation %s\nrequires   %s\nat         %s\nbecause    %s\n\n", id, c.Check.Rule, o.Key, o.What, o.At, o.Why)
		}
		ev["violations"] = vs
		path = filepath.Join(verif, "evidence", id+".violation.txt")
		_ = os.MkdirAll(filepath.Dir(path), 0o755)
		_ = os.WriteFile(path, []byte(b.String()), 0o644)
		for i, o := range bad {
			if i == 12 {
				fmt.Printf("  ... and %d more\n", len(bad)-i)
				break
			}
			why := o.Why
			if len(why) > 1500 {
				why = strings.ToValidUTF8(why[:1500], "") + "…"
			}
			fmt.Printf("  %s at %s: %s — %s\n", o.Key, o.At, o.What, why)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	} else {
		_ = os.Remove(filepath.Join(verif, "evidence", id+".violation.txt"))
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
		return false
	}
	if len(bad) == 0 {
		fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d functions, %.1fs\n",
			id, len(c.obs), good, len(findings), len(fns), wall.Seconds())
	}
	return len(bad) == 0
}
