package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var repoDir = envOr("GOVC_REPO", "/repo")
var verifDir = envOr("GOVC_VERIF", "/verif")

// Task is one unit of verification work: a function against its contract, a
// codec function against its role, a lemma.
type Task struct {
	ID    string
	Props []string
	Run   func(s *Solver) *TaskResult
}

const solverMS = 8000

func load() []Task {
	P = loadProgram(repoDir)
	loadSpec(filepath.Join(verifDir, "contracts"))
	for _, cv := range codecVars() {
		if k := hintKind(cv.g.Name()); k != nil {
			cgKind[cv.g.Name()] = [2]uint64{k.args[0].v, k.args[1].v}
		}
	}
	ts := allTasks()
	markTerms()
	return ts
}

func allTasks() []Task {
	var ts []Task
	for _, n := range spec.order {
		con := spec.fns[n]
		if con.flags["assumed"] { // reported as an unchecked assumption
			continue
		}
		run := verifyFn
		if con.flags["grows"] {
			run = func(con *Contract, _ *Solver) *TaskResult { return verifyGrows(con) }
		}
		ts = append(ts, Task{"fn " + n, con.allProps(), func(s *Solver) *TaskResult { return run(con, s) }})
	}
	for _, l := range spec.lemmas {
		l := l
		for part := 0; part < l.parts; part++ {
			part, id := part, "lemma "+l.name
			if l.parts > 1 {
				id += fmt.Sprintf(" %d", part+1)
			}
			ts = append(ts, Task{id, l.props, func(s *Solver) *TaskResult { return verifyLemma(l, part, s) }})
		}
	}
	for _, cv := range codecVars() {
		cv := cv
		for _, role := range []string{"size", "encode", "decode"} {
			role := role
			f := cv.fns[role]
			if f == nil {
				continue
			}
			ts = append(ts, Task{"codec " + cv.g.Name() + " " + role, propsUnion(propsUnion(spec.groupOr(roleProps[role]), spec.groupOr(roleProps[role]+"SAFE")), propsUnion(propsUnion(spec.groupOr("RDECN", "C05"), spec.groupOr("RDECE")), frameProps())), func(s *Solver) *TaskResult {
				return verifyRole(fnName(f), f, role, codecKind(cv, s), s, nil)
			}})
		}
	}
	return ts
}

func runTask(t Task) *TaskResult {
	resetTerms()
	s := newSolver(solverMS)
	t0 := time.Now()
	q0, ns0 := stats.queries, stats.ns
	if strings.HasPrefix(t.ID, "fn ") {
		if con := spec.fns[t.ID[3:]]; con != nil && (con.codec != nil || con.info != nil) {
			for _, cv := range codecVars() {
				if _, ok := cgKind[cv.g.Name()]; !ok {
					if k := codecKind(cv, s); k != nil {
						cgKind[cv.g.Name()] = [2]uint64{k.args[0].v, k.args[1].v}
					}
				}
			}
		}
	}
	r := t.Run(s)
	s.close()
	r.Task = t.ID
	r.Ms = time.Since(t0).Milliseconds()
	r.Queries = stats.queries - q0
	r.SolverMs = (stats.ns - ns0) / 1e6
	r.Props = propsUnion(r.Props, t.Props)
	return r
}

func main() {
	if pf := os.Getenv("GOVC_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	cmd := ""
	if len(os.Args) > 1 {
		cmd = os.Args[1]
	}
	switch cmd {
	case "worker":
		worker()
	case "dev":
		dev(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2]))
	default:
		fmt.Fprintln(os.Stderr, "usage: govc check <property> | dev [task...]")
		os.Exit(1)
	}
}

func dev(sel []string) {
	ts := load()
	for _, t := range ts {
		ok := len(sel) == 0
		for _, y := range sel {
			if strings.Contains(" "+t.ID+" ", " "+y+" ") {
				ok = true
			}
		}
		if ok {
			show(runTask(t))
		}
	}
}

func show(r *TaskResult) {
	ok := 0
	for _, o := range r.Obs {
		if o.OK {
			ok++
		}
	}
	fmt.Printf("%-36s %s obs=%d ok=%d missing=%v err=%q %s mode=%s %dms (%d queries, %d ms)\n", r.Task, r.Kind, len(r.Obs), ok, r.Missing, r.Err, r.ErrPos, r.Mode, r.Ms, r.Queries, r.SolverMs)
	for _, o := range r.Obs {
		if !o.OK {
			fmt.Printf("   FAIL %s/%s %s labels=%v props=%v\n  %s\n", o.Kind, o.Name, o.Pos, o.Labels, o.Props, clip(o.Detail, 3000))
		}
	}
}

// worker: one task id per line in, one result per line out.
func worker() {
	ts := load()
	byID := map[string]Task{}
	for _, t := range ts {
		byID[t.ID] = t
	}
	w := bufio.NewWriter(os.Stdout)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<20)
	enc := json.NewEncoder(w)
	enc.Encode(&TaskResult{Task: "ready"})
	w.Flush()
	for in.Scan() {
		id, ms, _ := strings.Cut(in.Text(), "\t")
		taskDeadline = time.Time{}
		if n, err := strconv.Atoi(ms); err == nil {
			taskDeadline = time.Now().Add(time.Duration(n) * time.Millisecond)
		}
		enc.Encode(runTask(byID[id]))
		w.Flush()
	}
}

type proc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
	raw interface{ Close() error }
}

func startWorker() (*proc, error) {
	c := exec.Command(os.Args[0], "worker")
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c.Stderr = os.Stderr
	if err := c.Start(); err != nil {
		return nil, err
	}
	p := &proc{c, bufio.NewWriter(in), bufio.NewReaderSize(out, 1<<20), in}
	if r := p.read(60 * time.Second); r == nil || r.Task != "ready" {
		p.kill()
		return nil, fmt.Errorf("worker did not start")
	}
	return p, nil
}
func (p *proc) kill() { p.cmd.Process.Kill(); p.cmd.Wait() }
func (p *proc) read(d time.Duration) *TaskResult {
	ch := make(chan *TaskResult, 1)
	go func() {
		l, err := p.out.ReadBytes('\n')
		if err != nil {
			ch <- nil
			return
		}
		r := &TaskResult{}
		if json.Unmarshal(l, r) != nil {
			ch <- nil
			return
		}
		ch <- r
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(d):
		return nil
	}
}

// runAll distributes tasks over worker processes.
// A task gets at most limit, all of them together at most total (0: no bound).
func runAll(ts []Task, n int, limit, total time.Duration) []*TaskResult {
	begin := time.Now()
	left := func() time.Duration {
		if total == 0 {
			return limit
		}
		if d := total - time.Since(begin); d < limit {
			return d
		}
		return limit
	}
	if len(ts) < n {
		n = len(ts)
	}
	ch := make(chan int, len(ts))
	for i := range ts {
		ch <- i
	}
	close(ch)
	res := make([]*TaskResult, len(ts))
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			for i := range ch {
				t := ts[i]
				var r *TaskResult
				for try := 0; try < 2 && r == nil && left() > 0; try++ {
					if p == nil {
						var err error
						if p, err = startWorker(); err != nil {
							p = nil
							continue
						}
					}
					t0, limit := time.Now(), left()
					// the worker stops a little earlier and tells what it has
					fmt.Fprintf(p.in, "%s\t%d\n", t.ID, limit.Milliseconds()*5/6)
					p.in.Flush()
					if r = p.read(limit); r == nil {
						p.kill()
						p = nil
						if time.Since(t0) >= limit {
							break
						}
					}
				}
				if r == nil {
					r = &TaskResult{Task: t.ID, Fn: t.ID, Props: t.Props, Err: "verifier gave no answer within its limits"}
				}
				res[i] = r
			}
			if p != nil {
				p.raw.Close()
				p.cmd.Wait()
			}
		}()
	}
	wg.Wait()
	return res
}

func has(ps []string, p string) bool {
	for _, q := range ps {
		if p == q {
			return true
		}
	}
	return false
}

func seedTier() (int, string) {
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	return seed, tier
}

var _ = sort.Strings
