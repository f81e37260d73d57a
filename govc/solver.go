package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type query struct {
	text string
	ms   int
}

type Solver struct {
	pool    chan *z3proc
	n       int
	mu      sync.Mutex
	memo    map[[32]byte]bool
	Queries int64
	TimeMs  int64
	FailMs  int64
}

const stepsPerMs, wallFactor = 2500, 5
const failBudgetMs = 60000

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	bin string
}

var dumpDir string

func dumpQuery(name, text string) {
	if dumpDir == "" {
		return
	}
	os.MkdirAll(dumpDir, 0755)
	os.WriteFile(filepath.Join(dumpDir, name+".smt2"), []byte(text), 0644)
}

var z3bin = "z3"

func NewSolver(n int) *Solver {
	s := &Solver{pool: make(chan *z3proc, n), n: n, memo: map[[32]byte]bool{}}
	for i := 0; i < n; i++ {
		s.pool <- nil
	}
	return s
}

// Restart drops every solver process and everything remembered.
func (s *Solver) Restart() {
	for i := 0; i < s.n; i++ {
		(<-s.pool).kill()
		s.pool <- nil
	}
	s.memo = map[[32]byte]bool{}
}

func startZ3(bin string) (*z3proc, error) {
	c := exec.Command(bin, "-in", "-smt2")
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &z3proc{c, in, bufio.NewReaderSize(out, 1<<16), bin}, nil
}
func (p *z3proc) kill() {
	if p != nil {
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
}

// run sends one query and returns everything printed up to the marker.
func (p *z3proc) run(text string, ms int) (string, error) {
	var b bytes.Buffer
	// the effort limit is a count of solver steps, so that the verdict does not depend on the load
	// of the machine; wall-clock time is only a backstop
	fmt.Fprintf(&b, "(reset)\n(set-option :timeout %d)\n(set-option :rlimit %d)\n", ms*wallFactor, ms*stepsPerMs)
	b.WriteString(text)
	b.WriteString("(echo \"@@done\")\n")
	type res struct {
		s   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		var sb strings.Builder
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				ch <- res{sb.String(), err}
				return
			}
			if strings.Contains(l, "@@done") {
				ch <- res{sb.String(), nil}
				return
			}
			sb.WriteString(l)
		}
	}()
	if _, err := p.in.Write(b.Bytes()); err != nil {
		return "", err
	}
	select {
	case r := <-ch:
		return r.s, r.err
	case <-time.After(time.Duration(ms*wallFactor)*time.Millisecond + 3*time.Second):
		return "timeout\n", fmt.Errorf("hard timeout")
	}
}

// raw runs a query on a pooled z3.
func (s *Solver) raw(text string, ms int) string {
	p := <-s.pool
	t0 := time.Now()
	var err error
	if p == nil {
		p, err = startZ3(z3bin)
		if err != nil {
			s.pool <- nil
			return "error: " + err.Error()
		}
	}
	out, err := p.run(text, ms)
	if err != nil {
		p.kill()
		p = nil
	}
	s.pool <- p
	atomic.AddInt64(&s.Queries, 1)
	atomic.AddInt64(&s.TimeMs, int64(time.Since(t0)/time.Millisecond))
	return out
}

func verdict(out string) string {
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return l
		}
	}
	return "unknown"
}

func (s *Solver) Prove(pc []*Term, goal *Term, ms int) bool {
	if goal == True {
		return true
	}
	return s.check(query{BuildQuery(pc, goal, nil), ms})
}

func (s *Solver) check(q query) bool {
	h := sha256.Sum256([]byte(q.text))
	s.mu.Lock()
	r, ok := s.memo[h]
	s.mu.Unlock()
	if ok {
		return r
	}
	t0 := time.Now()
	v := verdict(s.raw(q.text, q.ms))
	if d := time.Since(t0); d > 300*time.Millisecond && os.Getenv("GOVC_TIME") != "" {
		fmt.Fprintf(os.Stderr, "slow %v limit %d %s size %d ...%s\n", d, q.ms, v, len(q.text), q.text[max(0, len(q.text)-200):])
		dumpQuery(fmt.Sprintf("slow%d", d.Milliseconds()), q.text)
	}
	if strings.HasPrefix(v, "(error") {
		fmt.Fprintln(os.Stderr, "SMT ERROR:", v)
		dumpQuery("error", q.text)
		if os.Getenv("GOVC_ERRDUMP") != "" {
			os.WriteFile(os.Getenv("GOVC_ERRDUMP"), []byte(q.text), 0644)
		}
	}
	r = v == "unsat"
	s.mu.Lock()
	s.memo[h] = r
	s.mu.Unlock()
	return r
}

func (s *Solver) Batch(qs []query) []bool {
	res := make([]bool, len(qs))
	var wg sync.WaitGroup
	for i := range qs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res[i] = s.check(qs[i])
		}(i)
	}
	wg.Wait()
	return res
}

// oneShot runs an external solver binary on a file.
func oneShot(bin string, args []string, text string, ms int) string {
	f, err := os.CreateTemp("", "govc*.smt2")
	if err != nil {
		return "error"
	}
	defer os.Remove(f.Name())
	f.WriteString(text)
	f.Close()
	c := exec.Command(bin, append(args, f.Name())...)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	if err := c.Start(); err != nil {
		return "error: " + err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(time.Duration(ms)*time.Millisecond + 2*time.Second):
		c.Process.Kill()
		<-done
		return "timeout"
	}
	return out.String()
}

// Discharge decides an obligation with the portfolio z3, z3-new, cvc5.
func (s *Solver) Discharge(o *Oblig, text string, ms int) {
	t0 := time.Now()
	defer func() {
		if o.Status != "proved" {
			atomic.AddInt64(&s.FailMs, int64(time.Since(t0)/time.Millisecond))
		}
	}()
	if atomic.LoadInt64(&s.FailMs) > failBudgetMs {
		// the function has failed already: do not spend the portfolio on every other obligation
		o.Status, o.Solver = "failed", "z3:unknown (short attempt)"
		if s.check(query{text, 1500}) {
			o.Status, o.Solver = "proved", "z3-4.8.12"
		}
		return
	}
	defer func() {
		o.Ms += int64(time.Since(t0) / time.Millisecond)
		if os.Getenv("GOVC_TIME") != "" {
			fmt.Fprintf(os.Stderr, "discharge %s %s %v %s\n", o.ID(), o.Status, time.Since(t0), o.Solver)
		}
	}()
	if s.check(query{text, ms}) {
		o.Status, o.Solver = "proved", "z3-4.8.12"
		return
	}
	if s.check(query{strings.Replace(text, "(set-option :smt.mbqi false)\n", "(set-option :smt.mbqi false)\n(set-option :smt.relevancy 0)\n", 1), ms / 2}) {
		o.Status, o.Solver = "proved", "z3-4.8.12"
		return
	}
	// the default tactic eliminates constants by equalities first, which now and then helps
	if s.check(query{strings.Replace(text, "(push 1)\n(check-sat)", "(check-sat)", 1), ms}) {
		o.Status, o.Solver = "proved", "z3-4.8.12"
		return
	}
	alt := withAutoConfig(text)
	if s.check(query{alt, ms}) {
		o.Status, o.Solver = "proved", "z3-4.8.12"
		return
	}
	out := oneShot("z3-new", []string{fmt.Sprintf("-T:%d", (ms+999)/1000)}, alt, ms)
	if verdict(out) == "unsat" {
		o.Status, o.Solver = "proved", "z3-5.3.2"
		return
	}
	out = oneShot("z3-new", []string{fmt.Sprintf("-T:%d", (ms+999)/1000)}, text, ms)
	if verdict(out) == "unsat" {
		o.Status, o.Solver = "proved", "z3-5.3.2"
		return
	}
	ctext := "(set-logic ALL)\n" + strings.Replace(strings.Replace(text, "(set-option :auto_config false)\n", "", 1), "(set-option :smt.mbqi false)\n", "", 1)
	ctext = strings.Replace(ctext, "(push 1)\n", "", 1)
	if strings.Contains(ctext, "((as const (Array Int Str)) |") { // cvc5 wants a value there, and Str is uninterpreted
		ctext = strings.ReplaceAll(ctext, "((as const (Array Int Str)) |", "(constarr!Str |")
		ctext = strings.Replace(ctext, "(define-fun", "(declare-fun constarr!Str (Str) (Array Int Str))\n(assert (forall ((s Str) (i Int)) (! (= (select (constarr!Str s) i) s) :pattern ((select (constarr!Str s) i)))))\n(define-fun", 1)
	}
	out2 := oneShot("cvc5", []string{fmt.Sprintf("--tlimit=%d", ms)}, ctext, ms)
	if verdict(out2) == "unsat" {
		o.Status, o.Solver = "proved", "cvc5-1.1.2"
		return
	}
	o.Status = "failed"
	o.Solver = "z3:" + verdict(out) + " cvc5:" + verdict(out2)
}

func (x *Exec) provable(st *State, g *Term) bool {
	return x.S.Prove(st.pcList(), g, 600)
}

// withAutoConfig is the same query under z3's automatic configuration.
func withAutoConfig(text string) string {
	return strings.Replace(text, "(set-option :auto_config false)", "(set-option :auto_config true)", 1)
}
