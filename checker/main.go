package main

// Command line: verifcheck check ID | unit NAME | list.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// UnitResult is what the analysis of one configuration found.
type UnitResult struct {
	Unit        string
	Config      string
	States      int
	Transitions int
	Final       int
	Forks       int
	Obligations map[string]int
	Verdicts    map[string]int
	Functions   []string
	Findings    []UnitFinding
	Notes       []string
	Seconds     float64
}

// UnitFinding is a violation with the category that assigns it to properties.
type UnitFinding struct {
	Cat, Msg, Where, Witness, Config string
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func main() {
	if p := os.Getenv("PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
		if n, err := time.ParseDuration(os.Getenv("PROFT")); err == nil {
			go func() { time.Sleep(n); pprof.StopCPUProfile(); os.Exit(0) }()
		}
	}
	args := os.Args[1:]
	switch {
	case len(args) == 2 && args[0] == "check":
		os.Exit(checkMain(args[1]))
	case len(args) >= 2 && args[0] == "unit":
		os.Exit(unitMain(args[1]))
	case len(args) >= 1 && args[0] == "show":
		for _, n := range args[1:] {
			showUnit(n)
		}
	case len(args) == 1 && args[0] == "list":
		for _, u := range units_ {
			fmt.Println(u.name)
		}
	default:
		fmt.Println("usage: verifcheck check ID | unit NAME | show NAME... | list")
		os.Exit(2)
	}
}

func runUnit(name string) (r *UnitResult) {
	r = &UnitResult{Unit: name, Obligations: map[string]int{}, Verdicts: map[string]int{}}
	t0 := time.Now()
	defer func() {
		if x := recover(); x != nil {
			r.Findings = append(r.Findings, UnitFinding{Cat: "undecided", Msg: fmt.Sprintf("internal error: %v", x), Where: string(firstLines(debug.Stack(), 20))})
		}
		r.Seconds = time.Since(t0).Seconds()
	}()
	w, err := load(repoDir())
	if err != nil {
		r.Findings = append(r.Findings, UnitFinding{Cat: "undecided", Msg: "the program cannot be analysed: " + err.Error()})
		return r
	}
	for _, u := range units_ {
		if u.name == name {
			u.run(w, r)
			return r
		}
	}
	r.Findings = append(r.Findings, UnitFinding{Cat: "undecided", Msg: "unknown unit " + name})
	return r
}

// addEngine records the outcome of an exploration.
func (r *UnitResult) addEngine(e *Engine) {
	if r.Config == "" {
		r.Config = e.config
	}
	r.States += e.nStates
	r.Transitions += e.nAdvance + e.nForks
	r.Final += e.nFinal
	r.Forks += e.nForks
	for k, v := range e.oblig {
		r.Obligations[k] += v
	}
	for k, v := range e.verdicts {
		r.Verdicts[k] += v
	}
	have := map[string]bool{}
	for _, f := range r.Functions {
		have[f] = true
	}
	for f := range e.funcs {
		if p := pkgPath(f); e.w.isRepo(p) && !have[f.String()] {
			r.Functions = append(r.Functions, f.String())
			have[f.String()] = true
		}
	}
	sort.Strings(r.Functions)
	for _, f := range e.findings {
		r.Findings = append(r.Findings, UnitFinding{f.cat, f.msg, f.where, f.witness, f.config})
	}
	if e.nFinal == 0 && !e.loops && len(e.findings) == 0 {
		r.Findings = append(r.Findings, UnitFinding{Cat: "undecided", Msg: "no execution reaches the end of the harness", Config: e.config})
	}
	if len(e.findings) == 0 {
		for _, v := range e.mustVerdicts {
			if e.verdicts[v] == 0 {
				r.Findings = append(r.Findings, UnitFinding{Cat: "undecided", Msg: "vacuous: the verdict " + v + " was never reached", Config: e.config})
			}
		}
	}
}

func firstLines(b []byte, n int) []byte {
	l := bytes.SplitN(b, []byte("\n"), n+1)
	if len(l) > n {
		l = l[:n]
	}
	return bytes.Join(l, []byte("\n"))
}

func unitMain(name string) int {
	r := runUnit(name)
	json.NewEncoder(os.Stdout).Encode(r)
	return 0
}

func showUnit(name string) {
	r := runUnit(name)
	fmt.Printf("%s: states %d transitions %d final %d obligations %v %.1fs\n  verdicts %v\n", r.Unit, r.States, r.Transitions, r.Final, r.Obligations, r.Seconds, r.Verdicts)
	for _, n := range r.Notes {
		fmt.Println("  note:", n)
	}
	for i, f := range r.Findings {
		if i >= 12 {
			fmt.Println("  ...", len(r.Findings), "in all")
			break
		}
		fmt.Printf("  [%s] %s\n     at %s\n     %s  (%s)\n", f.Cat, f.Msg, f.Where, f.Witness, f.Config)
	}
}

func checkMain(id string) int {
	t0 := time.Now()
	p := propByID(id)
	if p == nil {
		fmt.Println("no check for", id)
		return 2
	}
	self, _ := os.Executable()
	root := filepath.Dir(filepath.Dir(self))
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		root = d
	}
	res := make([]*UnitResult, len(p.units))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i, u := range p.units {
		i, u := i, u
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			res[i] = spawn(self, u)
		}()
	}
	wg.Wait()
	var bad []UnitFinding
	states, trans, final := 0, 0, 0
	ob := map[string]int{}
	verd := map[string]int{}
	fns := map[string]bool{}
	var confs []map[string]interface{}
	samples := []string{}
	for i, r := range res {
		states += r.States
		trans += r.Transitions
		final += r.Final
		for k, v := range r.Obligations {
			ob[k] += v
		}
		for k, v := range r.Verdicts {
			verd[k] += v
		}
		for _, f := range r.Functions {
			fns[f] = true
		}
		confs = append(confs, map[string]interface{}{"unit": p.units[i], "config": r.Config, "abstract_states": r.States, "transitions": r.Transitions, "final_states": r.Final, "seconds": round(r.Seconds), "notes": r.Notes})
		if r.Config != "" {
			samples = append(samples, fmt.Sprintf("%s: %d abstract states, %d end states compared with the reference", r.Config, r.States, r.Final))
		}
		for _, f := range r.Findings {
			if p.concerns(p.units[i], f.Cat) {
				if f.Config == "" {
					f.Config = p.units[i]
				}
				bad = append(bad, f)
			}
		}
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].Cat != "undecided" && bad[j].Cat == "undecided" })
	known := loadKnown(filepath.Join(root, "known_findings.txt"), id)
	var viol []UnitFinding
	for _, f := range bad {
		if k := known.match(f); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		viol = append(viol, f)
	}
	total := 0
	for _, v := range ob {
		total += v
	}
	nf := make([]string, 0, len(fns))
	for f := range fns {
		nf = append(nf, f)
	}
	sort.Strings(nf)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	cov := map[string]interface{}{
		"explanation":         p.explain,
		"rule":                p.rule,
		"obligations":         total,
		"discharged":          total - len(bad),
		"obligations_by_kind": ob,
		"states":              states,
		"transitions":         trans,
		"end_states":          final,
		"reference_verdicts":  verd,
		"functions_analysed":  nf,
		"configurations":      confs,
		"samples":             samples,
		"exhaustive":          len(viol) == 0,
		"checker_cmd":         "/verif/check " + id,
		"trusted_base":        trustedBase,
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
		"assumptions": p.assume, "wall_s": round(time.Since(t0).Seconds()), "violations": len(viol),
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	fmt.Printf("%s: %d functions, %d configurations, %d abstract states, %d end states, %d obligations, %.1fs\n", id, len(nf), len(res), states, final, total, time.Since(t0).Seconds())
	if len(viol) == 0 {
		return 0
	}
	os.MkdirAll(filepath.Join(root, "out"), 0o755)
	rp := filepath.Join(root, "out", id+".txt")
	var out strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&out, "property %s, rule %s\n  %s\n  at %s\n  configuration: %s\n  input leading there: %s\n\n", id, f.Cat, f.Msg, f.Where, f.Config, f.Witness)
	}
	os.WriteFile(rp, []byte(out.String()), 0o644)
	for i, f := range viol {
		if i == 5 {
			fmt.Printf("... %d findings in all\n", len(viol))
			break
		}
		fmt.Printf("[%s] %s\n   at %s (%s)\n   input: %s\n", f.Cat, f.Msg, f.Where, f.Config, f.Witness)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func spawn(self, unit string) *UnitResult {
	cmd := exec.Command(self, "unit", unit)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	done := make(chan error, 1)
	fail := func(msg string) *UnitResult {
		return &UnitResult{Unit: unit, Findings: []UnitFinding{{Cat: "undecided", Msg: msg, Where: string(firstLines(errb.Bytes(), 8))}}}
	}
	if err := cmd.Start(); err != nil {
		return fail("analysis did not start: " + err.Error())
	}
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			return fail("analysis ended: " + err.Error())
		}
	case <-time.After(unitLimit):
		cmd.Process.Kill()
		<-done
		return fail("analysis did not reach a fixpoint in time")
	}
	r := &UnitResult{}
	if err := json.Unmarshal(out.Bytes(), r); err != nil {
		return fail("analysis output: " + err.Error())
	}
	return r
}

const unitLimit = 780 * time.Second

// known findings ---------------------------------------------------------------

type knownFinding struct{ text, match string }
type knownFindings []knownFinding

// loadKnown reads lines "known: property=ID | text | words that identify the finding".
func loadKnown(file, id string) knownFindings {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r knownFindings
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		p := strings.SplitN(l, "|", 3)
		if len(p) == 3 {
			r = append(r, knownFinding{strings.TrimSpace(p[1]), strings.TrimSpace(p[2])})
		}
	}
	return r
}

func (k knownFindings) match(f UnitFinding) string {
	for _, x := range k {
		if x.match != "" && strings.Contains(f.Cat+" "+f.Msg+" "+f.Where, x.match) {
			return x.text
		}
	}
	return ""
}
