// Command drivers runs the real gotables code (exported API only) against reference
// models. It replays and searches for failing inputs for the contract checks; what it
// covers is bounded and is never counted as proved.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// Rec records one case.
type Rec struct {
	ops  []string
	sig  string
	what string
	n    int64
	hash uint64
}

func (r *Rec) op(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	r.ops = append(r.ops, s)
	h := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(r.hash >> (8 * i))
	}
	h.Write(b[:])
	h.Write([]byte(s))
	r.hash = h.Sum64()
	if progress != nil {
		fmt.Fprintln(progress, s)
	}
}

var progress io.Writer // set with -trace: print each operation before it runs

type failed struct{}

// fail ends the case with a violation; sig names the kind of failure.
func (r *Rec) fail(sig, f string, a ...interface{}) {
	r.sig, r.what = sig, fmt.Sprintf(f, a...)
	panic(failed{})
}

func (r *Rec) check(ok bool, sig, f string, a ...interface{}) {
	r.n++
	if !ok {
		r.fail(sig, f, a...)
	}
}

// safe runs f and turns a panic of the real code into a failure.
func (r *Rec) safe(what string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(failed); ok {
				panic(p)
			}
			st := strings.Split(string(debug.Stack()), "\n")
			var keep []string
			for i, l := range st {
				if strings.Contains(l, "/repo/") && len(keep) < 4 {
					keep = append(keep, strings.TrimSpace(st[i]))
				}
			}
			r.sig, r.what = "panic", fmt.Sprintf("%s panicked: %v at %s", what, p, strings.Join(keep, " <- "))
			panic(failed{})
		}
	}()
	f()
}

type Driver struct {
	rule string
	// fixed cases first (index < fixed), then random ones
	fixed func(r *Rec, i int) bool // false: no such case
	rnd   func(r *Rec, rg *rand.Rand)
}

var drivers = map[string]*Driver{}

type failRep struct {
	Sig  string   `json:"sig"`
	What string   `json:"what"`
	Ops  []string `json:"ops"`
}
type report struct {
	Evaluations int64     `json:"evaluations"`
	Distinct    int64     `json:"distinct_nontrivial"`
	Rule        string    `json:"rule"`
	Samples     []string  `json:"samples"`
	Fail        []failRep `json:"fail"`
}

func runCase(f func(r *Rec)) (r *Rec) {
	r = &Rec{}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(failed); ok {
				return
			}
			r.sig, r.what = "panic", fmt.Sprintf("%v", p)
			if os.Getenv("DRV_STACK") != "" {
				fmt.Fprintln(os.Stderr, string(debug.Stack()))
			}
		}
	}()
	f(r)
	return
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "literals" {
		writeLiterals(os.Args[2])
		return
	}
	if len(os.Args) < 2 || drivers[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: drivers PROPERTY [-seed N] [-ms N] [-case N]")
		os.Exit(2)
	}
	d := drivers[os.Args[1]]
	fs := flag.NewFlagSet("drivers", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	ms := fs.Int64("ms", 3000, "")
	one := fs.Int64("case", -1, "run only this random case")
	max := fs.Int64("max", 1<<40, "")
	trace := fs.Bool("trace", false, "")
	fs.String("tier", "quick", "")
	src := fs.String("src", "/repo", "source whose literals steer the search")
	fs.Parse(os.Args[2:])
	loadDict(*src)
	if *trace {
		progress = os.Stderr
	}
	// the real code reports some errors on stdout and stderr: keep the report apart
	out := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
		if progress == nil {
			os.Stderr = null
		}
	}
	rep := report{Rule: d.rule}
	seen := map[uint64]bool{}
	sigs := map[string]bool{}
	var caseNo, started int64
	var current atomic.Value
	current.Store((*Rec)(nil))
	emit := func() {
		rep.Distinct = int64(len(seen))
		b, _ := json.Marshal(rep)
		fmt.Fprintln(out, string(b))
	}
	// a case that does not end is a failure
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			n := atomic.LoadInt64(&caseNo)
			if n != last {
				last, since = n, time.Now()
			}
			if time.Since(since) > 20*time.Second {
				f := failRep{Sig: "hang", What: fmt.Sprintf("case %d did not end within 20s", n)}
				if r, _ := current.Load().(*Rec); r != nil {
					f.Ops = append(f.Ops, r.ops...)
				}
				rep.Fail = append(rep.Fail, f)
				emit()
				os.Exit(1)
			}
		}
	}()
	_ = started
	done := func(r *Rec, label string) {
		rep.Evaluations++
		if !seen[r.hash] && len(seen) < 4000000 && len(r.ops) > 0 {
			seen[r.hash] = true
		}
		if len(rep.Samples) < 3 && len(r.ops) > 2 && rep.Evaluations%7 == 3 {
			s := strings.Join(r.ops, "; ")
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			rep.Samples = append(rep.Samples, s)
		}
		if r.sig != "" && !sigs[r.sig] {
			sigs[r.sig] = true
			rep.Fail = append(rep.Fail, failRep{r.sig, label + ": " + r.what, r.ops})
		}
	}
	deadline := time.Now().Add(time.Duration(*ms) * time.Millisecond)
	run := func(label string, f func(r *Rec)) {
		atomic.AddInt64(&caseNo, 1)
		r := runCase(func(r *Rec) { current.Store(r); f(r) })
		done(r, label)
	}
	if *one < 0 && d.fixed != nil {
		more := true
		for i := 0; more && len(rep.Fail) < 5; i++ {
			i := i
			run(fmt.Sprintf("fixed case %d", i), func(r *Rec) { more = d.fixed(r, i) })
		}
	}
	if d.rnd != nil {
		for i := int64(0); i < *max && time.Now().Before(deadline) && len(rep.Fail) < 5; i++ {
			if *one >= 0 {
				i = *one
			}
			i := i
			run(fmt.Sprintf("seed %d case %d", *seed, i), func(r *Rec) {
				d.rnd(r, rand.New(rand.NewSource(*seed*1000003+i)))
			})
			if *one >= 0 {
				break
			}
		}
	}
	emit()
	if len(rep.Fail) > 0 {
		os.Exit(1)
	}
}
