package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"
)

// witness is the outcome of the bounded search for a concrete failing input on
// the real code. It replays failed obligations and stands in for functions
// without contracts.
type witness struct {
	Failing  map[string]any
	Trouble  string // the search itself could not be run
	Cases    int
	Distinct int
	Samples  []string
	Out      string
	Deep     string
	Sec      float64
	Cmd      string
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
}

func runCmd(d time.Duration, dir string, env []string, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir, c.Env = dir, env
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	c.WaitDelay = 5 * time.Second
	err := c.Run()
	if ctx.Err() != nil {
		err = fmt.Errorf("no answer within %v", d)
	}
	return out.String(), err
}

func searchWitness(prop, tier, work string) *witness {
	t0 := time.Now()
	w := &witness{}
	defer func() { w.Sec = time.Since(t0).Seconds() }()
	repl := map[string]string{}
	pkg, test := "./proto", "^Test"+prop+"$"
	wd := filepath.Join(verifDir, "witness")
	if prop == "C17" {
		pkg = "./internal/generator"
		repl[filepath.Join(repoDir, "internal/generator/zz_verif_gen_test.go")] = filepath.Join(wd, "gen_test.go")
	} else {
		for _, n := range []string{"lib", "zoo", "props"} {
			repl[filepath.Join(repoDir, "proto/zz_verif_"+n+"_test.go")] = filepath.Join(wd, n+"_test.go")
		}
	}
	ov := filepath.Join(work, "overlay.json")
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(ov, j, 0o644)
	bin := filepath.Join(work, "witness.test")
	build := func(race bool) (string, error) {
		a := []string{"test", "-vet=off", "-overlay", ov, "-c", "-o", bin}
		if race {
			a = append(a, "-race")
		}
		return runCmd(300*time.Second, repoDir, goEnv(), "go", append(a, pkg)...)
	}
	race := prop == "C13"
	out, err := build(race)
	if err != nil && race {
		race = false
		out, err = build(false)
	}
	if err != nil {
		w.Trouble = "the search does not build against /repo: " + clip(out, 3000)
		return w
	}
	limit := 400 * time.Second
	if tier == "thorough" {
		limit = 800 * time.Second
	}
	env := append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1")
	run := func(test string) (string, error) {
		return runCmd(limit, work, env, bin, "-test.run", test, "-test.timeout", "1000s")
	}
	w.Cmd = fmt.Sprintf("cd %s && GOFLAGS=-mod=mod GOPROXY=off go test -vet=off%s -overlay %s -run '%s' %s", repoDir, map[bool]string{true: " -race"}[race], "OVERLAY.json", test, pkg)
	out, err = run(test)
	w.Out = out
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "FAILING-INPUT "):
			if w.Failing == nil {
				json.Unmarshal([]byte(l[len("FAILING-INPUT "):]), &w.Failing)
			}
		case strings.HasPrefix(l, "CASES "):
			fmt.Sscan(l[6:], &w.Cases)
		case strings.HasPrefix(l, "DISTINCT "):
			fmt.Sscan(l[9:], &w.Distinct)
		case strings.HasPrefix(l, "SAMPLE "):
			w.Samples = append(w.Samples, clip(l[7:], 500))
		}
	}
	if w.Failing == nil && err != nil {
		if strings.Contains(err.Error(), "no answer within") {
			w.Trouble = "the search did not finish: " + err.Error()
		} else {
			// the real code brought the process down (fault, fatal error, race)
			w.Failing = map[string]any{"what": "the process running the real code died", "output": clip(out, 20000)}
		}
	}
	if w.Failing == nil && w.Trouble == "" && w.Cases == 0 {
		w.Trouble = "the search ran no case"
	}
	if prop == "C05" && w.Failing == nil {
		out, err := run("^TestC05Deep$")
		switch {
		case strings.Contains(out, "DEEP-OVERFLOW"):
			w.Deep = "overflow"
		case strings.Contains(out, "DEEP-OK"):
			w.Deep = "ok"
		default:
			w.Failing = map[string]any{"what": "deeply nested input", "output": clip(out, 8000), "error": fmt.Sprint(err)}
		}
	}
	return w
}

// knownFindings reads the committed list.
func knownFindings(prop string) (r []string) {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" ") {
			r = append(r, strings.TrimPrefix(l, "known: property="+prop+" "))
		}
	}
	return
}

func check(prop string) int {
	t0 := time.Now()
	seed, tier := seedTier()
	work, err := os.MkdirTemp("", "govc-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		work = "/tmp"
	} else {
		defer os.RemoveAll(work)
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence", "replay"), 0o755)

	wch := make(chan *witness, 1)
	go func() { wch <- searchWitness(prop, tier, work) }()

	var ts []Task
	loadErr := func() (msg string) {
		defer func() {
			if r := recover(); r != nil {
				msg = fmt.Sprint(r)
			}
		}()
		for _, t := range load() {
			if has(t.Props, prop) || prop == "ALL" {
				ts = append(ts, t)
			}
		}
		return ""
	}()
	limit, total := 150*time.Second, 480*time.Second
	if tier == "thorough" {
		limit, total = 400*time.Second, 3000*time.Second
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	res := runAll(ts, n, limit, total)
	w := <-wch

	ev := &evidence{prop: prop, seed: seed, tier: tier, w: w}
	ev.collect(res, prop)
	if loadErr != "" {
		ev.failed = append(ev.failed, failure{Task: "load", What: "the verifier could not load the code: " + loadErr})
	}
	code := 0
	replay := filepath.Join(verifDir, "evidence", "replay", prop+".json")
	os.Remove(replay)
	write := func(m map[string]any) {
		m["property"] = prop
		j, _ := json.MarshalIndent(m, "", " ")
		os.WriteFile(replay, append(j, '\n'), 0o644)
	}
	for _, k := range knownFindings(prop) {
		// the only finding so far: unbounded recursion of the decoder
		if prop == "C05" && strings.HasPrefix(k, "deep-nesting ") && w.Deep == "overflow" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, strings.TrimPrefix(k, "deep-nesting "))
			w.Deep = "known"
		}
	}
	if w.Deep == "overflow" {
		w.Failing = map[string]any{"what": "deeply nested input overflows the stack and ends the process (TestC05Deep)"}
	}
	var und []map[string]any
	for _, f := range ev.failed {
		fmt.Printf("undischarged: %s: %s\n", f.Task, clip(f.What, 300))
		und = append(und, map[string]any{"task": f.Task, "obligation": f.What, "verifier_output": f.Detail, "where": f.Pos})
	}
	if len(und) > 12 {
		und = und[:12]
	}
	switch {
	case w.Failing != nil:
		code = 1
		write(map[string]any{"failing_input": w.Failing, "replay": w.Cmd, "seed": seed, "tier": tier, "undischarged_obligations": und,
			"overlay": "maps proto/zz_verif_{lib,zoo,props}_test.go (generator: internal/generator/zz_verif_gen_test.go) to /verif/witness; run with VERIF_SEED and VERIF_TIER as here"})
		fmt.Printf("failing input: %v\n", clip(fmt.Sprint(w.Failing["what"]), 600))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	case len(ev.failed) > 0 || w.Trouble != "":
		code = 1
		if w.Trouble != "" {
			fmt.Println(w.Trouble)
		}
		write(map[string]any{"undischarged_obligations": und, "search_trouble": w.Trouble, "searched_cases": w.Cases, "seed": seed})
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
	}
	ev.wall = time.Since(t0).Seconds()
	ev.write(code)
	fmt.Printf("%s %s: %d obligations in %d functions, %d discharged; search: %d cases, %d distinct; %.1fs\n", prop, tier, ev.obs, len(ev.fns), ev.ok, w.Cases, w.Distinct, ev.wall)
	return code
}

type failure struct{ Task, What, Detail, Pos string }

type evidence struct {
	prop, tier string
	seed       int
	w          *witness
	obs, ok    int
	fns        map[string]int
	failed     []failure
	missing    []string
	ext, inl   map[string]bool
	con        map[string]bool
	queries    int64
	solverMs   int64
	kinds      map[string]int
	names      []string
	wall       float64
}

func (e *evidence) collect(res []*TaskResult, prop string) {
	e.fns, e.ext, e.inl, e.con, e.kinds = map[string]int{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]int{}
	for _, r := range res {
		if r.Missing {
			e.missing = append(e.missing, r.Task)
			continue
		}
		e.queries += r.Queries
		e.solverMs += r.SolverMs
		for _, x := range r.Ext {
			e.ext[x] = true
		}
		for _, x := range r.Con {
			e.con[x] = true
		}
		for _, x := range r.Inl {
			e.inl[x] = true
		}
		n := 0
		bad := false
		for _, o := range r.Obs {
			if !has(o.Props, prop) {
				continue
			}
			n++
			e.obs++
			e.kinds[o.Kind]++
			if o.OK {
				e.ok++
			} else {
				bad = true
				e.failed = append(e.failed, failure{r.Task, o.Kind + " " + o.Name + " " + strings.Join(o.Labels, " "), clip(o.Detail, 4000), o.Pos})
			}
		}
		e.fns[r.Task] = n
		if r.Err != "" && !bad && has(r.Props, prop) {
			e.obs++
			e.failed = append(e.failed, failure{r.Task, "not verified: " + r.Err, "", r.ErrPos})
		}
		if r.Err == "" && len(r.Obs) == 0 {
			e.obs++
			e.failed = append(e.failed, failure{r.Task, "no obligation was generated (vacuous)", "", ""})
		}
	}
}

func keysOf(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

// assumedContracts: contracts used by callers whose own function is not verified.
func assumedContracts(m map[string]bool) []string {
	r := []string{}
	for _, k := range keysOf(m) {
		if c := spec.fns[k]; c != nil && c.flags["assumed"] {
			r = append(r, k)
		}
	}
	return r
}

func (e *evidence) write(code int) {
	lvl := "proof"
	if e.obs == 0 {
		lvl = "exploration"
	}
	var fns []string
	for k, n := range e.fns {
		fns = append(fns, fmt.Sprintf("%s (%d)", k, n))
	}
	sort.Strings(fns)
	samples := append([]string{}, e.w.Samples...)
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	cov := map[string]any{
		"obligations":               e.obs,
		"discharged":                e.ok,
		"checker_cmd":               "bash /verif/check.sh " + e.prop,
		"trusted_base":              trustedBase,
		"functions_under_contract":  fns,
		"obligations_by_kind":       e.kinds,
		"contracts_used_by_callers": keysOf(e.con),
		"functions_inlined":         keysOf(e.inl),
		"contracts_assumed":         assumedContracts(e.con),
		"assumed_dependencies":      keysOf(e.ext),
		"contracts_without_code":    e.missing,
		"backends":                  "z3 4.8.12 first, cvc5 1.1.2 and z3 5.3.2 for what it leaves open",
		"solver_queries":            e.queries,
		"solver_seconds":            float64(e.solverMs) / 1000,
		"evaluations":               e.w.Cases,
		"distinct_nontrivial":       e.w.Distinct,
		"rule":                      "bounded search (not counted as proved): " + searchRule,
		"samples":                   samples,
		"search_seconds":            e.w.Sec,
	}
	j, _ := json.MarshalIndent(map[string]any{
		"property": e.prop, "tier": e.tier, "seed": e.seed, "level": lvl, "coverage": cov,
		"assumptions": assumptions, "wall_s": e.wall, "violations": code,
	}, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", e.prop+".json"), append(j, '\n'), 0o644)
}

const searchRule = "random and boundary messages of the static and of random struct types are run through the real Marshal, Size and Unmarshal and compared with an independent reference codec; a case is non-trivial if its encoding is not empty, distinct by operation, type and bytes"

var trustedBase = []string{
	"govc: condition generator over go/ssa (x/tools v0.52.0), its memory model and its rewriting",
	"z3 4.8.12, z3 5.3.2, cvc5 1.1.2",
	"Go compiler, runtime and the reflect/strconv/math/bits contracts listed under assumed_dependencies",
}

var assumptions = []string{
	"machine integers are 64-bit vectors (amd64); no integer is treated as mathematical",
	"allocation always succeeds; the stack does not overflow (see known-findings.txt)",
	"arguments satisfy the type's memory invariants: pointers handed to codecs point to a field of the type the codec was built for",
	"floating point values are their IEEE bits; comparisons with zero and Signbit are the only float operations",
}
