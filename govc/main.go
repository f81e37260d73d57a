package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime/pprof"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc verify|fields ...")
		os.Exit(2)
	}
	if pf := os.Getenv("GOVC_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "worker":
		fs := flag.NewFlagSet("worker", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		specs := fs.String("specs", "/verif/contracts", "")
		pool := fs.Int("pool", 2, "")
		fs.StringVar(&dumpDir, "dump", "", "")
		th := fs.Bool("thorough", false, "")
		fs.Parse(os.Args[2:])
		if *th {
			defaultMs, vacMs = 20000, 3000
		}
		cmdWorker(*repo, *specs, *pool)
	case "list": // contracts, and package functions without one
		db, p, err := loadAll("/repo", "/verif/contracts")
		if err != nil {
			panic(err)
		}
		p.listFuncs(db)
	case "fields":
		db := newSpecDB()
		p, err := LoadProgram(os.Args[2], db)
		if err != nil {
			panic(err)
		}
		if err := p.DumpFields(os.Args[3]); err != nil {
			panic(err)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "/verif/contracts", "")
	pat := fs.String("f", ".*", "function key regexp")
	v := fs.Bool("v", false, "")
	workers := fs.Int("j", 7, "")
	fs.BoolVar(&debugLoops, "loops", false, "")
	fs.StringVar(&dumpDir, "dump", "", "")
	fs.Parse(args)
	nw := *workers
	db, p, err := loadAll(*repo, *specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	t0 := time.Now()
	re := regexp.MustCompile("^(?:" + *pat + ")$")
	var keys []string
	for _, k := range db.Order {
		if !db.Contracts[k].Trusted && re.MatchString(k) {
			keys = append(keys, k)
		}
	}
	for _, k := range append(ginvKeys(db), lemmaKeys(db)...) {
		if re.MatchString(k) {
			keys = append(keys, k)
		}
	}
	bad, total, proved := 0, 0, 0
	var sms int64
	on := func(r *FnReport) {
		if !r.OK() {
			bad++
		}
		total += r.Total
		proved += r.Proved
		sms += r.SolverMs
		printReport(r, *v)
	}
	if nw <= 1 {
		s := NewSolver(8)
		for _, k := range keys {
			for _, t := range taskKeys(db, k) {
				on(reportFn(p, s, t))
			}
		}
	} else {
		var extra []string
		if dumpDir != "" {
			extra = append(extra, "-dump", dumpDir)
		}
		if _, err := VerifyAll(*repo, *specs, keys, nw, extra, on); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	fmt.Printf("total %v, %d functions, %d/%d obligations, solver %dms, %d bad\n", time.Since(t0), len(keys), proved, total, sms, bad)
	if bad > 0 {
		os.Exit(1)
	}
}
