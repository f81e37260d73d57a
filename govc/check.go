package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// PropConf is one entry of contracts/properties.json: the functions whose contracts state
// the property, the clauses of those contracts that do, and the replay driver.
type PropConf struct {
	Roots     []string `json:"roots"`            // regular expressions over contract keys
	Posts     string   `json:"posts,omitempty"`  // postcondition names that state the property (default all)
	Kinds     string   `json:"kinds,omitempty"`  // obligation kinds counted in the roots (default all)
	Driver    string   `json:"driver,omitempty"` // driver name
	LevelNote string   `json:"level_note,omitempty"`
	Level     string   `json:"level,omitempty"` // "other" where the statement as a whole is only checked up to a bound (default "proof")
	Lemmas    []string `json:"lemmas,omitempty"`
	// Elsewhere matches functions that other functions of this property may call but whose own
	// obligations are discharged by the check of another property
	Elsewhere string `json:"elsewhere,omitempty"`
	Note      string `json:"note,omitempty"`
}

type driverOut struct {
	Evaluations int64        `json:"evaluations"`
	Distinct    int64        `json:"distinct_nontrivial"`
	Rule        string       `json:"rule"`
	Samples     []string     `json:"samples"`
	Fail        []driverFail `json:"fail"`
}

type driverFail struct {
	Sig  string   `json:"sig"`
	What string   `json:"what"`
	Ops  []string `json:"ops"`
	Seed int64    `json:"seed"`
}

type finding struct {
	prop, sig, text string
}

func loadFindings(path string) (out []finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	re := regexp.MustCompile(`^known: property=(\S+) sig=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, finding{m[1], m[2], m[3]})
		}
	}
	return
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("p", "", "property")
	tier := fs.String("tier", "quick", "")
	drv := fs.String("driver", "", "driver binary")
	workers := fs.Int("j", 7, "")
	fs.Parse(args)
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	specs := filepath.Join(*verif, "contracts")
	var confs map[string]*PropConf
	b, err := os.ReadFile(filepath.Join(specs, "properties.json"))
	if err == nil {
		err = json.Unmarshal(b, &confs)
	}
	die := func(err error) {
		fmt.Fprintln(os.Stderr, "check error:", err)
		os.Exit(2)
	}
	if err != nil {
		die(err)
	}
	conf := confs[*prop]
	if conf == nil {
		die(fmt.Errorf("no property %s", *prop))
	}
	db, p, err := loadAll(*repo, specs)
	if err != nil {
		die(err)
	}
	// driver: runs beside the verifier
	quick, deep := 15*time.Second, 60*time.Second
	verifyDeadline = time.Now().Add(600 * time.Second)
	if *tier == "thorough" {
		fnLimit = 600 * time.Second
		verifyDeadline = time.Time{}
		quick, deep = 240*time.Second, 240*time.Second
	}
	runOne := func(budget time.Duration, seed int64) (*driverOut, error) {
		c := exec.Command(*drv, conf.Driver, "-seed", fmt.Sprint(seed), "-ms", fmt.Sprint(budget.Milliseconds()), "-tier", *tier, "-src", *repo)
		var ob, eb bytes.Buffer
		c.Stdout, c.Stderr = &ob, &eb
		if err := c.Start(); err != nil {
			return nil, err
		}
		done := make(chan error, 1)
		go func() { done <- c.Wait() }()
		var werr error
		select {
		case werr = <-done:
		case <-time.After(budget + 60*time.Second):
			c.Process.Kill()
			werr = fmt.Errorf("driver did not end in time")
			<-done
		}
		var o driverOut
		// the last line is the report; a hang or a crash leaves the case under way
		lines := strings.Split(strings.TrimSpace(ob.String()), "\n")
		if err := json.Unmarshal([]byte(lines[len(lines)-1]), &o); err != nil {
			o.Fail = append(o.Fail, driverFail{"driver-died", fmt.Sprintf("the process running the real code ended without a report (%v)", werr), tail(eb.String(), 60), seed})
		}
		for i := range o.Fail {
			o.Fail[i].Seed = seed
		}
		return &o, nil
	}
	// several processes with seeds of their own
	runDriver := func(budget time.Duration, seed int64) (*driverOut, error) {
		const procs = 4
		outs, errs := make([]*driverOut, procs), make([]error, procs)
		var wg sync.WaitGroup
		for i := 0; i < procs; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				outs[i], errs[i] = runOne(budget, seed+int64(i)*7919)
			}(i)
		}
		wg.Wait()
		o := outs[0]
		sigs := map[string]bool{}
		for i := 0; i < procs; i++ {
			if errs[i] != nil {
				return nil, errs[i]
			}
			for _, f := range outs[i].Fail {
				if i == 0 {
					sigs[f.Sig] = true
				} else if !sigs[f.Sig] {
					sigs[f.Sig] = true
					o.Fail = append(o.Fail, f)
				}
			}
			if i > 0 {
				o.Evaluations += outs[i].Evaluations
				o.Distinct += outs[i].Distinct
			}
		}
		return o, nil
	}
	type dres struct {
		o   *driverOut
		err error
	}
	dch := make(chan dres, 1)
	if conf.Driver != "" && *drv != "" {
		go func() {
			o, err := runDriver(quick, seed)
			dch <- dres{o, err}
		}()
	} else {
		dch <- dres{}
	}

	// roots and closure
	isRoot := map[string]bool{}
	var todo []string
	queued := map[string]bool{}
	missing := []string{}
	var elseRe *regexp.Regexp
	if conf.Elsewhere != "" {
		elseRe = regexp.MustCompile("^(?:" + conf.Elsewhere + ")$")
	}
	var elsewhere []string
	add := func(k string) {
		if queued[k] {
			return
		}
		queued[k] = true
		if elseRe != nil && elseRe.MatchString(k) {
			elsewhere = append(elsewhere, k)
			return
		}
		if !strings.HasPrefix(k, "ginv:") && !strings.HasPrefix(k, "lemma:") {
			con := db.Contracts[k]
			if con == nil || con.Trusted || con.Inline {
				return
			}
			if p.Funcs[k] == nil {
				missing = append(missing, k)
				return
			}
		}
		todo = append(todo, k)
	}
	for _, r := range conf.Roots {
		re, err := regexp.Compile("^(?:" + r + ")$")
		if err != nil {
			die(err)
		}
		n := 0
		for _, k := range db.Order {
			if re.MatchString(k) {
				n++
				isRoot[k] = true
				add(k)
			}
		}
		for _, l := range db.Lemmas {
			if k := "lemma:" + l.Name; r != ".*" && re.MatchString(k) {
				n++
				isRoot[k] = true
				add(k)
			}
		}
		for _, gi := range db.Ginvs {
			if k := "ginv:" + gi.Global; r != ".*" && re.MatchString(k) {
				n++
				isRoot[k] = true
				add(k)
			}
		}
		if n == 0 {
			die(fmt.Errorf("root %s of %s matches no contract", r, *prop))
		}
	}
	sort.Strings(todo)
	reps := map[string]*FnReport{}
	var extra []string
	if *tier == "thorough" {
		extra = append(extra, "-thorough")
	}
	for len(todo) > 0 {
		batch := todo
		todo = nil
		out, err := VerifyAll(*repo, specs, batch, *workers, extra, nil)
		if err != nil {
			die(err)
		}
		for k, r := range out {
			reps[k] = r
		}
		for _, k := range batch {
			if r := out[k]; r != nil {
				for _, u := range r.Used {
					add(u)
				}
			}
		}
		sort.Strings(todo)
	}

	// account
	postRe := regexp.MustCompile("^(?:" + orAny(conf.Posts) + ")$")
	kindRe := regexp.MustCompile("^(?:" + orAny(conf.Kinds) + ")$")
	type failure struct {
		id, why string
		rep     *FnReport
		ob      *OblRep
	}
	var fails []failure
	total, proved := 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	externs, trusted, inlined := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var fns, notes []string
	var solverMs int64
	var queries int64
	slowest, slowMs := "", int64(0)
	for _, k := range sortedKeys(reps) {
		r := reps[k]
		fns = append(fns, k)
		total += r.Total
		proved += r.Proved
		for s, n := range r.BySolver {
			by[s] += n
		}
		for s, n := range r.Kinds {
			kinds[s] += n
		}
		for _, e := range r.Externs {
			externs[e] = true
		}
		for _, e := range r.Trusted {
			trusted[e] = true
		}
		for _, e := range r.Inlined {
			inlined[e] = true
		}
		for _, n := range r.Notes {
			notes = append(notes, k+": "+n)
		}
		solverMs += r.SolverMs
		queries += r.Queries
		if r.Ms > slowMs {
			slowest, slowMs = k, r.Ms
		}
		switch {
		case r.Unsupported != "":
			fails = append(fails, failure{k + "#unsupported", r.Unsupported, r, nil})
		case r.Vacuous != "":
			fails = append(fails, failure{k + "#vacuous", r.Vacuous, r, nil})
		}
		for i := range r.Failed {
			o := &r.Failed[i]
			if isRoot[k] {
				kind, name := oblKind(o.ID)
				if kind == "post" && !postRe.MatchString(name) {
					continue
				}
				if !kindRe.MatchString(kind) {
					continue
				}
			}
			fails = append(fails, failure{o.ID, o.Status + " " + o.Solver, r, o})
		}
	}
	d := <-dch
	if d.err != nil {
		die(d.err)
	}
	known := loadFindings(filepath.Join(*verif, "known-findings.txt"))
	isKnown := func(sig string) *finding {
		for i := range known {
			if known[i].prop == *prop && known[i].sig == sig {
				return &known[i]
			}
		}
		return nil
	}
	knownPrinted := map[string]bool{}
	for i := range known {
		if known[i].prop == *prop && !knownPrinted[known[i].sig] {
			knownPrinted[known[i].sig] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, known[i].text)
		}
	}
	newDriverFail := func(o *driverOut) (out []int) {
		if o == nil {
			return
		}
		for i := range o.Fail {
			if isKnown(o.Fail[i].Sig) == nil {
				out = append(out, i)
			}
		}
		return
	}
	var real []failure
	for _, f := range fails {
		if isKnown(f.id) == nil {
			real = append(real, f)
		}
	}
	dfail := newDriverFail(d.o)
	if len(real) > 0 && len(dfail) == 0 && conf.Driver != "" && *drv != "" {
		// look longer for an input on which the real code breaks the property
		for i := int64(1); i <= 2 && len(dfail) == 0; i++ {
			o, err := runDriver(deep, seed+1000*i)
			if err != nil {
				die(err)
			}
			o.Evaluations += d.o.Evaluations
			d.o = o
			dfail = newDriverFail(o)
		}
	}
	viol := 0
	if len(real) > 0 || len(dfail) > 0 {
		viol = 1
		dir := filepath.Join(*verif, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, *prop+".json")
		m := map[string]interface{}{"property": *prop, "seed": seed, "tier": *tier}
		if len(dfail) > 0 {
			var cs []interface{}
			for _, i := range dfail {
				cs = append(cs, d.o.Fail[i])
			}
			m["failing_inputs"] = cs
			m["replay_cmd"] = fmt.Sprintf("cd %s/drivers && go run . %s -seed %d", *verif, conf.Driver, d.o.Fail[dfail[0]].Seed)
		}
		var fo []interface{}
		for _, f := range real {
			e := map[string]interface{}{"obligation": f.id, "verifier": f.why, "function": f.rep.Key, "at": f.rep.Pos}
			if f.ob != nil {
				e["at"], e["goal"], e["path"], e["trace"], e["model"] = f.ob.Pos, f.ob.Goal, f.ob.Path, f.ob.Trace, f.ob.Model
			}
			e["loops"] = f.rep.Loops
			fo = append(fo, e)
		}
		m["failed_obligations"] = fo
		jb, _ := json.MarshalIndent(m, "", " ")
		os.WriteFile(path, jb, 0644)
		for i, f := range real {
			if i < 12 {
				fmt.Printf("obligation not discharged: %s (%s)\n", f.id, f.why)
			}
		}
		for _, i := range dfail {
			fmt.Printf("failing input: %s: %s\n", d.o.Fail[i].Sig, d.o.Fail[i].What)
		}
		if len(dfail) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, path)
		}
	}

	// evidence
	base := []string{
		"govc (" + filepath.Join(*verif, "govc") + "): verification conditions generated from the go/ssa form of the current source of " + *repo + "; solvers z3 4.8.12, z3 (z3-new), cvc5 1.1.2",
		"golang.org/x/tools/go/ssa and go/types as front end",
	}
	for _, e := range sortedKeys(externs) {
		base = append(base, "assumed contract of external function "+e)
	}
	for _, e := range sortedKeys(trusted) {
		base = append(base, "trusted contract (body not verified): "+e)
	}
	assum := []string{
		"int, uint and the sized integer types wrap as in Go; lengths, capacities and iteration counts are below 2^60",
		"floating-point values are abstract: comparison is by rank with NaN unordered, arithmetic and conversions are uninterpreted",
		"one goroutine at a time uses a table; heap exhaustion and stack overflow are not modelled",
		"partial correctness: termination of loops and recursion is not proved",
	}
	cov := map[string]interface{}{
		"obligations": total, "discharged": proved,
		"checker_cmd":              fmt.Sprintf("%s/check.sh %s %s", *verif, *prop, *tier),
		"trusted_base":             base,
		"functions_under_contract": fns,
		"functions":                len(fns),
		"obligations_by_kind":      kinds,
		"discharged_by":            by,
		"solver_ms":                solverMs,
		"solver_queries":           queries,
		"inlined_without_contract": sortedKeys(inlined),
		"slowest_function":         fmt.Sprintf("%s %dms", slowest, slowMs),
		"missing_functions":        missing,
		"decided_in_another_check": elsewhere,
		"generator_notes":          notes,
	}
	if conf.Note != "" {
		cov["scope"] = conf.Note
	}
	if d.o != nil {
		cov["bounded_runtime_check"] = map[string]interface{}{
			"label": "bounded: not counted as proved", "evaluations": d.o.Evaluations, "distinct_nontrivial": d.o.Distinct,
			"rule": d.o.Rule, "samples": d.o.Samples, "failing": len(d.o.Fail),
		}
	}
	level := "proof"
	if conf.Level != "" {
		level = conf.Level
		cov["explanation"] = conf.LevelNote
	}
	if conf.LevelNote != "" {
		cov["level_note"] = conf.LevelNote
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": assum, "wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), eb, 0644); err != nil {
		die(err)
	}
	if total == 0 {
		die(fmt.Errorf("no obligations were generated"))
	}
	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged, %.1fs\n", *prop, len(fns), proved, total, time.Since(t0).Seconds())
	if viol > 0 {
		os.Exit(1)
	}
}

func tail(s string, n int) []string {
	l := strings.Split(strings.TrimRight(s, "\n"), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return l
}

func orAny(s string) string {
	if s == "" {
		return ".*"
	}
	return s
}

// oblKind splits an obligation identifier F#kind:name.
func oblKind(id string) (string, string) {
	i := strings.LastIndex(id, "#")
	if i < 0 {
		return "", id
	}
	s := id[i+1:]
	if j := strings.Index(s, ":"); j >= 0 {
		return s[:j], s[j+1:]
	}
	return s, ""
}
