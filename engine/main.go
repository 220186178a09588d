package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: engine check|externs|fn ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	repo := fs.String("repo", "/repo", "source tree")
	specs := fs.String("specs", "/verif/specs", "contract files")
	prop := fs.String("prop", "", "property")
	fnName := fs.String("fn", "", "verify only this function")
	out := fs.String("out", "", "write the result here as JSON")
	timeout := fs.Int("timeout", 20, "seconds per obligation")
	verbose := fs.Bool("v", false, "list every obligation")
	dump := fs.String("dump", "", "directory for the failed queries")
	fs.BoolVar(&double, "double", false, "confirm every discharged obligation with a second solver")
	budget := fs.Int("budget", 550, "seconds for the whole run")
	fs.Parse(os.Args[2:])
	deadline = time.Now().Add(time.Duration(*budget) * time.Second)
	start := time.Now()
	en, err := load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the source:", err)
		os.Exit(3)
	}
	en.specs = newSpecs()
	if os.Args[1] != "externs" {
		if err := en.specs.loadDir(*specs); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	en.build()
	switch os.Args[1] {
	case "externs":
		externs(en)
	case "names":
		for _, f := range en.all {
			fmt.Println(en.names[f], len(f.Params), len(f.Blocks))
		}
	case "check", "fn":
		r := en.check(*prop, *fnName, *timeout, *verbose, *dump)
		r.Wall = time.Since(start).Seconds()
		if *out != "" {
			b, _ := json.MarshalIndent(r, "", " ")
			os.WriteFile(*out, b, 0644)
		}
		r.print()
		if len(r.Failed) > 0 {
			os.Exit(1)
		}
	}
}

type ObRes struct {
	Fn, Label, Kind, Pos, Status, Backend, Why string
	Ms                                         float64
	Path                                       []string `json:",omitempty"`
	Out                                        string   `json:",omitempty"`
	Query                                      string   `json:",omitempty"`
	Model                                      string   `json:",omitempty"`
}

type FnSum struct {
	Name, Pos           string
	Obligations, Failed int
	Inlined             []string
}

type Result struct {
	Property   string
	Functions  []FnSum
	Total      int
	Discharged int
	Covers     int
	Failed     []ObRes
	ByBackend  map[string]int
	SolverMs   float64
	Confirmed  int
	Trusted    []string
	Externs    []string
	Lemmas     int
	Axioms     []string
	Wall       float64
	All        []ObRes `json:",omitempty"`
}

func (r *Result) print() {
	fmt.Printf("property %s: %d functions, %d obligations, %d discharged, %d covers, %.1fs solver, %.1fs wall\n", r.Property, len(r.Functions), r.Total, r.Discharged, r.Covers, r.SolverMs/1000, r.Wall)
	for _, f := range r.Failed {
		fmt.Printf("FAILED %s: %s [%s] at %s: %s %s\n", f.Fn, f.Label, f.Kind, f.Pos, f.Status, f.Why)
		if len(f.Path) > 0 {
			fmt.Printf("       path %s\n", strings.Join(f.Path, " "))
		}
	}
}

func hasTag(ts []string, p string) bool {
	for _, t := range ts {
		if t == p {
			return true
		}
	}
	return false
}

func (c *Contract) concerns(p string) bool {
	if p == "" || hasTag(c.tags, p) {
		return true
	}
	for _, cl := range c.ensures {
		if hasTag(cl.tags, p) {
			return true
		}
	}
	for _, l := range c.loops {
		for _, cl := range append(append(append(append([]Clause{}, l.inv...), l.step...), l.leave...), l.done...) {
			if hasTag(cl.tags, p) {
				return true
			}
		}
	}
	return false
}

func (en *Engine) check(prop, only string, timeout int, verbose bool, dump string) *Result {
	curProp = prop
	r := &Result{Property: prop, ByBackend: map[string]int{}}
	var obs []*Oblig
	// axioms and lemmas
	for _, cl := range en.specs.axioms {
		a := en.axiomTermSafe(cl, &obs)
		if a != nil {
			axioms = append(axioms, *a)
			r.Axioms = append(r.Axioms, cl.label)
		}
	}
	for _, cl := range en.specs.lemmas {
		if prop != "" && len(cl.tags) > 0 && !hasTag(cl.tags, prop) {
			continue
		}
		a := en.axiomTermSafe(cl, &obs)
		if a == nil {
			continue
		}
		n := len(axioms)
		obs = append(obs, &Oblig{fn: "lemma", label: cl.label, kind: "lemma", goal: a.t, pos: cl.line, ax: n, hasAx: true})
		r.Lemmas++
		axioms = append(axioms, *a)
	}
	for _, cd := range en.specs.carried {
		if prop == "" || hasTag(cd.cl.tags, prop) {
			goal, why := True, en.carried(cd)
			if why != "" {
				goal = False
			}
			obs = append(obs, &Oblig{fn: "carried", label: cd.cl.label, kind: "lemma", goal: goal, pos: cd.cl.line, why: why})
		}
	}
	// contracts reachable from the property
	var work []*Contract
	seen := map[string]bool{}
	add := func(c *Contract) {
		if !seen[c.name] {
			seen[c.name] = true
			work = append(work, c)
		}
	}
	for _, c := range en.specs.order {
		if only != "" {
			if c.name == only {
				add(c)
			}
			continue
		}
		if !c.extern && c.concerns(prop) {
			add(c)
		}
	}
	trusted := map[string]bool{}
	ext := map[string]bool{}
	for len(work) > 0 {
		c := work[0]
		work = work[1:]
		t0 := time.Now()
		f := en.verify(c)
		if verbose {
			fmt.Fprintf(os.Stderr, "%s: %d obligations, %d steps, %.1fs, %d/%d feasibility\n", c.name, len(f.obs), f.steps, time.Since(t0).Seconds(), feasPruned, feasCount)
		}
		sum := FnSum{Name: c.name, Pos: f.pos, Inlined: sortedKeys(f.inlined)}
		for _, o := range f.obs {
			o.sum = len(r.Functions)
		}
		r.Functions = append(r.Functions, sum)
		obs = append(obs, f.obs...)
		for k := range f.trusted {
			trusted[k] = true
		}
		for k := range f.used {
			u := en.specs.contracts[k]
			if u == nil {
				continue
			}
			if u.extern {
				ext[k] = true
			} else if only == "" {
				add(u)
			}
		}
	}
	addImplAxioms()
	en.solveAll(obs, timeout)
	for _, o := range obs {
		if o.kind == "cover" || o.kind == "coverany" {
			r.Covers++
			if o.failed {
				r.Failed = append(r.Failed, ObRes{Fn: o.fn, Label: o.label, Kind: "cover", Pos: o.pos, Status: "vacuous", Why: "the assumptions are contradictory"})
			}
			continue
		}
		r.Total++
		res := ObRes{Fn: o.fn, Label: o.label, Kind: o.kind, Pos: o.pos, Status: o.res.status, Backend: o.res.backend, Ms: o.res.ms, Why: o.why}
		r.SolverMs += o.res.ms
		if o.kind != "lemma" && o.fn != "axiom" {
			r.Functions[o.sum].Obligations++
		}
		if o.res.status == "unsat" {
			r.Discharged++
			r.ByBackend[o.res.backend]++
			if o.second != "" || o.res.query == "" {
				r.Confirmed++
			}
		} else {
			if o.kind != "lemma" && o.fn != "axiom" {
				r.Functions[o.sum].Failed++
			}
			f := res
			f.Path = o.marks
			f.Out = o.res.out
			f.Query = o.res.query
			f.Model = o.model
			r.Failed = append(r.Failed, f)
			if dump != "" {
				os.MkdirAll(dump, 0755)
				os.WriteFile(filepath.Join(dump, fmt.Sprintf("q%d.smt2", len(r.Failed))), []byte("; "+o.fn+": "+o.label+"\n"+o.res.query), 0644)
			}
		}
		if verbose {
			fmt.Printf("  %-8s %7.0fms %-30s %s: %s [%s] %s\n", res.Status, res.Ms, res.Backend, o.fn, o.label, o.kind, o.pos)
		}
		r.All = append(r.All, res)
	}
	r.Trusted = sortedKeys(trusted)
	r.Externs = sortedKeys(ext)
	return r
}

func (en *Engine) axiomTermSafe(cl Clause, obs *[]*Oblig) (a *Axiom) {
	defer func() {
		if e := recover(); e != nil {
			msg := fmt.Sprint(e)
			if _, ok := e.(error); !ok {
				panic(e)
			}
			*obs = append(*obs, &Oblig{fn: "axiom", label: cl.label, kind: "contract", goal: False, pos: cl.line, why: msg})
			a = nil
		}
	}()
	return en.axiomTerm(cl)
}

var queryMu sync.Mutex

// deadline bounds the whole run: afterwards obligations get a short time only
var deadline = time.Now().Add(550 * time.Second)
var double bool

func (en *Engine) solveAll(obs []*Oblig, timeout int) {
	// identical obligations are solved once
	sort.SliceStable(obs, func(i, j int) bool { return false })
	var wg sync.WaitGroup
	ch := make(chan *Oblig)
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				en.solveOne(o, timeout)
			}
		}()
	}
	for _, o := range obs {
		ch <- o
	}
	close(ch)
	wg.Wait()
}

func (en *Engine) solveOne(o *Oblig, timeout int) {
	switch o.kind {
	case "cover":
		o.failed = !feasible(o.facts)
		return
	case "coverany":
		o.failed = true
		for _, f := range o.alts {
			if feasible(f) {
				o.failed = false
				break
			}
		}
		return
	}
	if o.why != "" {
		o.res = SolveResult{status: "unknown", backend: "none", out: o.why}
		return
	}
	lim := -1
	if o.hasAx {
		lim = o.ax
	}
	if left := int(time.Until(deadline).Seconds()); left < timeout {
		timeout = max(left, 2)
	}
	o.res = solve(o.facts, o.goal, timeout, lim)
	if double && o.res.status == "unsat" && o.res.query != "" {
		// a second, independent solver on the same query
		cmd, nm := cvc5c(10), "cvc5"
		if strings.HasPrefix(o.res.backend, "cvc5") {
			cmd, nm = z3new(10), "z3-5"
		}
		if statusOf(runSolver(context.Background(), cmd, o.res.query)) == "unsat" {
			o.second = nm
		}
	}
	if o.res.status == "sat" {
		o.model = modelOf(o.facts, o.goal, lim)
	}
}

func externs(en *Engine) {
	m := map[string][]string{}
	for _, f := range en.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					k := ""
					if cc.IsInvoke() {
						k = "invoke " + cc.Value.Type().String() + "." + cc.Method.Name()
					} else if fn, ok := cc.Value.(*ssa.Function); ok && !isRepoPkg(fnPkg(fn)) {
						k = fn.String()
					} else {
						continue
					}
					m[k] = append(m[k], en.short(f.String()))
				}
			}
		}
	}
	for _, k := range sortedKeys(m) {
		sort.Strings(m[k])
		fmt.Println(k, len(m[k]), m[k][:min(4, len(m[k]))])
	}
}
