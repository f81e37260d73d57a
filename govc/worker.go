package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// OblRep is the report of one named obligation.
type OblRep struct {
	ID     string            `json:"id"`
	Pos    string            `json:"pos,omitempty"`
	Status string            `json:"status"`
	Solver string            `json:"solver,omitempty"`
	Ms     int64             `json:"ms,omitempty"`
	Goal   string            `json:"goal,omitempty"`
	Model  map[string]string `json:"model,omitempty"`
	Trace  []string          `json:"trace,omitempty"`
	Path   string            `json:"path,omitempty"`
}

// FnReport is the verification result of one function.
type FnReport struct {
	Key         string         `json:"key"`
	Pos         string         `json:"pos"`
	Total       int            `json:"total"`
	Proved      int            `json:"proved"`
	BySolver    map[string]int `json:"by_solver"`
	Failed      []OblRep       `json:"failed,omitempty"`
	Unsupported string         `json:"unsupported,omitempty"`
	Vacuous     string         `json:"vacuous,omitempty"`
	Externs     []string       `json:"externs,omitempty"`
	Trusted     []string       `json:"trusted,omitempty"`
	Inlined     []string       `json:"inlined,omitempty"`
	Used        []string       `json:"used,omitempty"`
	Notes       []string       `json:"notes,omitempty"`
	Loops       []string       `json:"loops,omitempty"`
	Kinds       map[string]int `json:"kinds"`
	Rets        int            `json:"rets"`
	Ms          int64          `json:"ms"`
	SolverMs    int64          `json:"solver_ms"`
	Queries     int64          `json:"queries"`
}

func (r *FnReport) OK() bool {
	return r.Unsupported == "" && r.Vacuous == "" && len(r.Failed) == 0
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func reportFn(p *Program, s *Solver, key string) *FnReport {
	p.Externs, p.TrustedUsed, p.Inlined, p.Used = map[string]int{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	s.FailMs = 0
	q0, m0, t0 := s.Queries, s.TimeMs, time.Now()
	var r *FnResult
	usedAxioms = map[string]bool{}
	if strings.HasPrefix(key, "ginv:") {
		r = VerifyGinv(p, s, key[5:])
	} else if strings.HasPrefix(key, "lemma:") {
		r = VerifyLemma(p, s, key[6:])
	} else {
		r = VerifyFn(p, s, key)
	}
	key, _, _ = splitKey(key)
	rep := &FnReport{Key: key, BySolver: map[string]int{}, Kinds: map[string]int{}, Unsupported: r.Unsupported, Vacuous: r.Vacuous,
		Notes: r.Notes, Loops: r.Loops, Rets: r.Returns}
	if f := p.Funcs[key]; f != nil {
		rep.Pos = posStr(p, f.Pos())
	}
	add := func(o *Oblig, path string) {
		rep.Total++
		rep.Kinds[o.Kind]++
		if o.Status == "proved" {
			rep.Proved++
			sv := o.Solver
			if sv == "" {
				sv = "simplifier"
			}
			rep.BySolver[sv]++
			return
		}
		g := o.Goal.String()
		rep.Failed = append(rep.Failed, OblRep{ID: o.ID(), Pos: o.Pos, Status: o.Status, Solver: o.Solver, Ms: o.Ms, Goal: g, Model: o.ModelVals, Trace: o.Trace, Path: path})
	}
	for _, o := range r.Obls {
		if len(o.Parts) == 0 {
			add(o, "")
			continue
		}
		for _, pt := range o.Parts {
			if o.Status == "proved" && pt.Status == "" {
				pt.Status, pt.Solver = "proved", o.Solver
				if pt.Goal == True {
					pt.Solver = "simplifier"
				}
			}
			pt.Trace = o.Trace
			add(pt, o.Name)
		}
	}
	for k := range p.Externs {
		rep.Externs = append(rep.Externs, k)
	}
	sort.Strings(rep.Externs)
	for k := range usedAxioms {
		if k != key {
			p.Used[k] = true
		}
	}
	rep.Trusted, rep.Inlined, rep.Used = keysOf(p.TrustedUsed), keysOf(p.Inlined), keysOf(p.Used)
	rep.Ms = time.Since(t0).Milliseconds()
	rep.Queries, rep.SolverMs = s.Queries-q0, s.TimeMs-m0
	return rep
}

// cmdWorker verifies the functions named on stdin, one JSON report per line on stdout.
func cmdWorker(repo, specs string, pool int) {
	debug.SetGCPercent(400)
	_, p, err := loadAll(repo, specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	s := NewSolver(pool)
	snap := takeSnapshot(p)
	sc := bufio.NewScanner(os.Stdin)
	w := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		snap.restore()
		s.Restart()
		rep := reportFn(p, s, sc.Text())
		b, _ := json.Marshal(rep)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}

func loadAll(repo, specs string) (*SpecDB, *Program, error) {
	db, err := LoadSpecs(specs)
	if err != nil {
		return nil, nil, err
	}
	p, err := LoadProgram(repo, db)
	if err != nil {
		return nil, nil, err
	}
	p.LoadFields(specs + "/fields.json")
	p.InstallAxioms()
	installTypeNames()
	installTexts()
	return db, p, nil
}

var heavyFns = []string{"(*parser).getRowSlice", "(*Table).NewTableReorderColsByColIndex", "(*Table).ReorderColsByColIndex", "(*Table).Equals",
	"(*Table).GetSortKeysAsTable", "(*Table).OrderColsBySortKeys", "(*Table).AppendRowsFromTable", "(*Table).AppendColsFromTable",
	"(*Table).GetColInfoAsTable", "(*Table).Walk", "(*Table).GetTableAsCSV"}

func heavy(task string) int {
	base, _, _ := splitKey(task)
	for i, f := range heavyFns {
		if f == base {
			return len(heavyFns) - i
		}
	}
	return 0
}

// VerifyAll distributes keys over worker processes.
func VerifyAll(repo, specs string, keys []string, nw int, extra []string, on func(*FnReport)) (map[string]*FnReport, error) {
	out := map[string]*FnReport{}
	var mu sync.Mutex
	db, err := LoadSpecs(specs)
	if err != nil {
		return nil, err
	}
	var tasks []string
	left := map[string]int{}
	for _, k := range keys {
		ts := taskKeys(db, k)
		left[k] = len(ts)
		tasks = append(tasks, ts...)
	}
	// the functions known to take longest go first
	sort.SliceStable(tasks, func(i, j int) bool { return heavy(tasks[i]) > heavy(tasks[j]) })
	work := make(chan string, len(tasks))
	for _, k := range tasks {
		work <- k
	}
	close(work)
	if nw > len(tasks) {
		nw = len(tasks)
	}
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	var wg sync.WaitGroup
	var firstErr error
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var c *exec.Cmd
			var in io.WriteCloser
			var rd *bufio.Reader
			start := func() error {
				c = exec.Command(self, append([]string{"worker", "-repo", repo, "-specs", specs}, extra...)...)
				c.Stderr = os.Stderr
				var err error
				if in, err = c.StdinPipe(); err != nil {
					return err
				}
				o, err := c.StdoutPipe()
				if err != nil {
					return err
				}
				rd = bufio.NewReaderSize(o, 1<<20)
				return c.Start()
			}
			stop := func() {
				if c != nil {
					in.Close()
					c.Process.Kill()
					c.Wait()
					c = nil
				}
			}
			defer stop()
			for k := range work {
				base, _, _ := splitKey(k)
				limit := fnLimit
				if !verifyDeadline.IsZero() {
					if d := time.Until(verifyDeadline); d < limit {
						limit = d
					}
				}
				skip := ""
				mu.Lock()
				if r := out[base]; r != nil && (len(r.Failed) > 0 || r.Unsupported != "") {
					skip = "some of its tasks not tried after the first failure"
				} else if limit <= 0 {
					skip = "time used up"
				}
				mu.Unlock()
				if c == nil && skip == "" {
					if err := start(); err != nil {
						mu.Lock()
						firstErr = err
						mu.Unlock()
						return
					}
				}
				type ans struct {
					l   string
					err error
				}
				ch := make(chan ans, 1)
				if skip == "" {
					io.WriteString(in, k+"\n")
					go func() {
						l, err := rd.ReadString('\n')
						ch <- ans{l, err}
					}()
				}
				rep := &FnReport{}
				if skip == "time used up" {
					rep.Unsupported = "not verified: the time for the whole check is used up"
				} else if skip != "" {
					rep.Notes = []string{skip}
				} else {
					select {
					case a := <-ch:
						if a.err != nil {
							rep = &FnReport{Key: k, Unsupported: "the verifier stopped on this function: " + a.err.Error()}
							stop()
						} else if err := json.Unmarshal([]byte(a.l), rep); err != nil {
							rep = &FnReport{Key: k, Unsupported: "bad report: " + err.Error()}
							stop()
						}
					case <-time.After(limit):
						rep = &FnReport{Key: k, Unsupported: fmt.Sprintf("no answer within %v", limit.Round(time.Second))}
						stop()
					}
				}
				key := base
				rep.Key = key
				mu.Lock()
				if r := out[key]; r != nil {
					r.merge(rep)
					rep = r
				} else {
					out[key] = rep
				}
				if left[key]--; left[key] == 0 && on != nil {
					on(rep)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return out, firstErr
}

// fnLimit bounds one task; no task starts or runs on past verifyDeadline.
var fnLimit = 200 * time.Second
var verifyDeadline time.Time

func printReport(r *FnReport, verbose bool) {
	status := "ok"
	switch {
	case r.Unsupported != "":
		status = "UNSUPPORTED " + r.Unsupported
	case len(r.Failed) > 0:
		status = fmt.Sprintf("FAILED %d", len(r.Failed))
	case r.Vacuous != "":
		status = "VACUOUS " + r.Vacuous
	}
	fmt.Printf("%-46s %4d obls %3d rets %6dms %s\n", r.Key, r.Total, r.Rets, r.Ms, status)
	if status == "ok" && !verbose {
		return
	}
	for _, o := range r.Failed {
		g := o.Goal
		if len(g) > 700 && !verbose {
			g = g[:700] + "..."
		}
		fmt.Printf("     %s %s @%s: %s [%s]\n", o.Path, o.ID, o.Pos, g, o.Solver)
		if len(o.Model) > 0 {
			var ks []string
			for k, v := range o.Model {
				ks = append(ks, k+"="+v)
			}
			sort.Strings(ks)
			fmt.Println("        model:", strings.Join(ks, " "))
		}
		if verbose && len(o.Trace) > 0 {
			fmt.Println("        trace:", strings.Join(o.Trace, " "))
		}
	}
	for _, l := range r.Loops {
		fmt.Println("     ", l)
	}
	for _, l := range r.Notes {
		fmt.Println("      note:", l)
	}
}
