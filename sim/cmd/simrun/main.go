// Command simrun drives the simulated runs of one property.
//
//	simrun check  -prop C01 -tier quick -seed 1 -evidence F -replays DIR -known F
//	simrun replay FILE
//	simrun one    -prop C01 -seed 1 -i 17     (prints the trace of one run)
//	simrun hashes -prop C01 -seed 1 -n 1000   (determinism self-test)
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif.local/sim/harness"
	"verif.local/sim/vsim"
)

func main() {
	if len(os.Args) < 2 {
		fatal("no command")
	}
	os.Setenv("TZ", "UTC")
	time.Local = time.UTC
	cmd, args := os.Args[1], os.Args[2:]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Uint64("seed", 1, "base seed")
	evid := fs.String("evidence", "", "evidence file")
	repl := fs.String("replays", "", "directory for replay files")
	known := fs.String("known", "", "known findings")
	workers := fs.Int("workers", 8, "worker processes")
	runs := fs.Int("runs", 0, "number of runs (0: as the tier says)")
	budget := fs.Duration("budget", 0, "wall time limit of the search")
	idx := fs.Int("i", 0, "index of the run")
	n := fs.Int("n", 100, "number")
	from := fs.Int("from", 0, "first index")
	step := fs.Int("step", 1, "index step")
	mark := fs.String("mark", "", "file to note the current index in")
	out := fs.String("out", "", "output file")
	fs.Parse(args)
	switch cmd {
	case "check":
		os.Exit(check(*prop, *tier, *seed, *evid, *repl, *known, *workers, *runs, *budget))
	case "worker":
		worker(*prop, *seed, *from, *step, *n, *budget, *mark, *known)
	case "one":
		os.Exit(one(*prop, *seed, *idx, true))
	case "probe": // a single run without a trace: does it kill the process?
		os.Exit(one(*prop, *seed, *idx, false))
	case "hashes":
		hashes(*prop, *seed, *from, *step, *n)
	case "replay":
		os.Exit(replayCmd(fs.Arg(0)))
	case "shrink":
		shrink(fs.Arg(0), *out, *budget)
	case "list":
		var l []string
		for id := range harness.Scenarios {
			l = append(l, id)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
	default:
		fatal("unknown command " + cmd)
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simrun: "+f+"\n", a...)
	os.Exit(2)
}

func scen(id string) *harness.Scenario {
	sc := harness.Scenarios[id]
	if sc == nil {
		fatal("no scenario for property %q", id)
	}
	return sc
}

func runSeed(base uint64, prop string, i int) uint64 {
	h := base*0x9e3779b97f4a7c15 + 0x1234567
	for _, c := range []byte(prop) {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	h += uint64(i) * 0xd1342543de82ef95
	h = (h ^ (h >> 32)) * 0xd6e8feb86659fd93
	return h ^ (h >> 29)
}

func fresh(prop string, base uint64, i int) (g, f, s *vsim.Stream) {
	sd := runSeed(base, prop, i)
	return vsim.NewStream("gen", sd), vsim.NewStream("fault", sd), vsim.NewStream("sched", sd)
}

// ---------------------------------------------------------------- replay files

type tapes struct {
	Gen   []uint32 `json:"gen"`
	Fault []uint32 `json:"fault"`
	Sched []uint32 `json:"sched"`
}

type replay struct {
	Property  string          `json:"property"`
	BaseSeed  uint64          `json:"base_seed"`
	Index     int             `json:"index"`
	RunSeed   uint64          `json:"run_seed"`
	Native    bool            `json:"native,omitempty"` // the process dies or hangs: replayed from the seed
	Tapes     *tapes          `json:"tapes,omitempty"`
	Violation *vsim.Violation `json:"violation"`
	EvHash    string          `json:"event_hash,omitempty"`
	Config    []string        `json:"configuration,omitempty"`
	Trace     []string        `json:"trace,omitempty"`
	Shrunk    string          `json:"shrunk,omitempty"`
}

func load(file string) *replay {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	r := new(replay)
	if err := json.Unmarshal(b, r); err != nil {
		fatal("%s: %v", file, err)
	}
	return r
}

func (r *replay) save(file string) {
	b, _ := json.MarshalIndent(r, "", " ")
	// keep the tapes on one line each
	if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func playTapes(sc *harness.Scenario, t *tapes, trace bool) (*harness.H, *vsim.Sim) {
	return harness.Exec(sc, vsim.ReplayStream("gen", t.Gen), vsim.ReplayStream("fault", t.Fault), vsim.ReplayStream("sched", t.Sched), trace)
}

func replayCmd(file string) int {
	r := load(file)
	sc := scen(r.Property)
	if r.Native {
		fmt.Printf("replaying %s from its seed (the run ends the process)\n", file)
		v := probeNative(r.Property, r.BaseSeed, r.Index)
		if v == nil {
			fmt.Println("not reproduced")
			return 0
		}
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return 1
	}
	h, s := playTapes(sc, r.Tapes, true)
	if e := s.InternalError(); e != "" {
		fatal("internal error: %s", e)
	}
	for _, l := range h.Desc {
		fmt.Println("  #", l)
	}
	printTrace(s.Trace)
	if s.Viol == nil {
		fmt.Println("not reproduced: the property holds in this run")
		return 0
	}
	fmt.Printf("%s: %s\n", s.Viol.Class, s.Viol.Msg)
	if hs := fmt.Sprintf("%016x", s.EvHash); r.EvHash == "" {
		fmt.Printf("(no event history recorded to compare with)\n")
	} else if hs != r.EvHash {
		fmt.Printf("(event history differs from the recorded one: %s, recorded %s)\n", hs, r.EvHash)
	}
	if s.Viol.Class != r.Violation.Class {
		fmt.Printf("(recorded: %s)\n", r.Violation.Class)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
	return 1
}

// printTrace prints a trace, leaving out the middle of a very long one.
func printTrace(tr []string) {
	const head, tail = 200, 60
	for i, l := range tr {
		if i >= head && i < len(tr)-tail && os.Getenv("SIM_FULL") == "" {
			if i == head {
				fmt.Printf("   ... %d events (SIM_FULL=1 prints them) ...\n", len(tr)-head-tail)
			}
			continue
		}
		fmt.Println("  ", l)
	}
}

func one(prop string, seed uint64, i int, verbose bool) int {
	debug.SetMaxStack(64 << 20)
	sc := scen(prop)
	g, f, sd := fresh(prop, seed, i)
	h, s := harness.Exec(sc, g, f, sd, verbose)
	if verbose {
		for _, l := range h.Desc {
			fmt.Println("  #", l)
		}
		printTrace(s.Trace)
		fmt.Printf("yields=%d switches=%d simulated=%v events=%d hash=%016x stats=%v\n", s.Yields, s.Switches, s.Elapsed(), s.EvCount, s.EvHash, s.Stats)
	}
	if e := s.InternalError(); e != "" {
		fmt.Println("INTERNAL", e)
		return 2
	}
	if s.Viol != nil {
		fmt.Printf("violation: %s: %s\n", s.Viol.Class, s.Viol.Msg)
		return 1
	}
	return 0
}

func hashes(prop string, seed uint64, from, step, n int) {
	sc := scen(prop)
	w := bufio.NewWriter(os.Stdout)
	for i := from; i < n; i += step {
		g, f, sd := fresh(prop, seed, i)
		_, s := harness.Exec(sc, g, f, sd, false)
		fmt.Fprintf(w, "%d %016x %016x %d\n", i, s.EvHash, s.SchedHash, s.Yields)
	}
	w.Flush()
}

// ---------------------------------------------------------------- worker

type record struct {
	T     string          `json:"t"`
	I     int             `json:"i,omitempty"`
	Viol  *vsim.Violation `json:"v,omitempty"`
	Tapes *tapes          `json:"tapes,omitempty"`
	Msg   string          `json:"msg,omitempty"`
	Known string          `json:"known,omitempty"`

	Runs     int               `json:"runs,omitempty"`
	Work     int               `json:"work,omitempty"`
	Yields   int64             `json:"yields,omitempty"`
	Switches int64             `json:"switches,omitempty"`
	Events   int64             `json:"events,omitempty"`
	SimNS    int64             `json:"sim_ns,omitempty"`
	Stats    map[string]int    `json:"stats,omitempty"`
	RunsWith map[string]int    `json:"runs_with,omitempty"`
	Ev       []uint64          `json:"ev,omitempty"`
	Sched    []uint64          `json:"sched,omitempty"`
	Check    map[string]uint64 `json:"check,omitempty"`
	Sample   []string          `json:"sample,omitempty"`
}

const sampleEvery = 50 // every so many runs is executed a second time elsewhere

func worker(prop string, seed uint64, from, step, n int, budget time.Duration, mark, known string) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMaxStack(64 << 20)
	sc := scen(prop)
	kn := readKnown(known, prop)
	start := time.Now()
	enc := json.NewEncoder(os.Stdout)
	var mf *os.File
	if mark != "" {
		var err error
		if mf, err = os.OpenFile(mark, os.O_CREATE|os.O_WRONLY, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	agg := record{T: "done", Stats: map[string]int{}, RunsWith: map[string]int{}, Check: map[string]uint64{}}
	var b8 [16]byte
	for i := from; i < n; i += step {
		if budget > 0 && time.Since(start) > budget {
			break
		}
		if mf != nil {
			binary.LittleEndian.PutUint64(b8[:8], uint64(i))
			binary.LittleEndian.PutUint64(b8[8:], uint64(time.Now().UnixNano()))
			mf.WriteAt(b8[:], 0)
		}
		g, f, sd := fresh(prop, seed, i)
		h, s := harness.Exec(sc, g, f, sd, false)
		if e := s.InternalError(); e != "" {
			enc.Encode(record{T: "internal", I: i, Msg: e})
			return
		}
		agg.Runs++
		agg.Work += h.Work
		agg.Yields += int64(s.Yields)
		agg.Switches += int64(s.Switches)
		agg.Events += int64(s.EvCount)
		agg.SimNS += int64(s.Elapsed())
		for k, v := range s.Stats {
			agg.Stats[k] += v
			agg.RunsWith[k]++
		}
		if h.Nontrivial(sc) {
			agg.Ev = append(agg.Ev, s.EvHash)
		}
		agg.Sched = append(agg.Sched, s.SchedHash)
		if i%sampleEvery == 0 {
			agg.Check[fmt.Sprint(i)] = s.EvHash ^ s.SchedHash*31 ^ uint64(s.Yields)
		}
		if s.Viol != nil {
			if k := match(kn, s.Viol); k != "" {
				enc.Encode(record{T: "known", I: i, Viol: s.Viol, Known: k})
				continue
			}
			enc.Encode(record{T: "viol", I: i, Viol: s.Viol, Tapes: &tapes{g.Tape, f.Tape, sd.Tape}})
			break
		}
	}
	if from == 0 && agg.Runs > 2 { // write out a case or two
		for _, i := range []int{1 * step, 2 * step} {
			g, f, sd := fresh(prop, seed, i)
			h, s := harness.Exec(sc, g, f, sd, true)
			tr := s.Trace
			if len(tr) > 14 {
				tr = append(append([]string(nil), tr[:12]...), fmt.Sprintf("... %d more events", len(tr)-12))
			}
			agg.Sample = append(agg.Sample, fmt.Sprintf("run %d seed %016x | %s | %d yields, %d task switches, %v simulated | %s", i, runSeed(seed, prop, i), strings.Join(h.Desc, "; "), s.Yields, s.Switches, s.Elapsed(), strings.Join(tr, " // ")))
		}
	}
	enc.Encode(agg)
}

// ---------------------------------------------------------------- known findings

type finding struct {
	Status   string `json:"status"`
	Property string `json:"property"`
	ID       string `json:"id"`
	Class    string `json:"class"` // exact class of violation
	Match    string `json:"match"` // regular expression on the message
	What     string `json:"what"`
	re       *regexp.Regexp
}

func readKnown(file, prop string) []*finding {
	var out []*finding
	if file == "" {
		return nil
	}
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		f := new(finding)
		if err := json.Unmarshal([]byte(l), f); err != nil {
			fatal("%s: %v", file, err)
		}
		if f.Status == "open" && f.Property == prop {
			f.re = regexp.MustCompile(f.Match)
			out = append(out, f)
		}
	}
	return out
}

func match(fs []*finding, v *vsim.Violation) string {
	for _, f := range fs {
		if f.Class == v.Class && f.re.MatchString(v.Msg) {
			return f.ID
		}
	}
	return ""
}

// ---------------------------------------------------------------- check

func self() string {
	p, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return p
}

// probeNative runs one seed in a fresh process; non-nil if that kills it or
// takes for ever.
func probeNative(prop string, seed uint64, i int) *vsim.Violation {
	cmd := exec.Command(self(), "probe", "-prop", prop, "-seed", fmt.Sprint(seed), "-i", fmt.Sprint(i))
	var eb, ob bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return nil
		}
		if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 1 || ee.ExitCode() == 2 && !strings.Contains(eb.String(), "goroutine ")) {
			return nil
		}
		e := eb.String()
		if !strings.Contains(e, "nathanaelle/syslog5424") {
			return nil
		}
		first := e
		for _, l := range strings.Split(e, "\n") {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack") || strings.HasPrefix(l, "panic:") {
				first = l
				break
			}
		}
		if len(first) > 300 {
			first = first[:300]
		}
		return &vsim.Violation{Class: "process dies", Msg: "the Go runtime ends the process: " + first}
	case <-time.After(90 * time.Second):
		cmd.Process.Kill()
		<-done
		return &vsim.Violation{Class: "process hangs", Msg: "the code under test runs for ever without reaching a scheduling point"}
	}
}

type found struct {
	rec    record
	native bool
}

func check(prop, tier string, seed uint64, evid, repl, known string, nw, runs int, budget time.Duration) int {
	start := time.Now()
	sc := scen(prop)
	n := sc.Quick
	if tier == "thorough" {
		n = sc.Deep
	}
	if runs > 0 {
		n = runs
	}
	if budget == 0 {
		budget = 300 * time.Second
		if tier == "thorough" {
			budget = 3 * time.Hour
		}
	}
	dir, err := os.MkdirTemp("", "simrun")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)

	var mu sync.Mutex
	var dones []record
	var viols []found
	knownHits := map[string]int{}
	knownMsg := map[string]string{}
	var internal string
	var cmds []*exec.Cmd
	stopAll := func() {
		for _, c := range cmds {
			c.Process.Kill()
		}
	}
	stopped := false
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		mark := filepath.Join(dir, fmt.Sprint("mark", w))
		cmd := exec.Command(self(), "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(w), "-step", fmt.Sprint(nw), "-n", fmt.Sprint(n), "-budget", budget.String(), "-mark", mark, "-known", known)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all")
		op, err := cmd.StdoutPipe()
		if err != nil {
			fatal("%v", err)
		}
		eb := &tail{}
		cmd.Stderr = eb
		if err := cmd.Start(); err != nil {
			fatal("%v", err)
		}
		mu.Lock()
		cmds = append(cmds, cmd)
		mu.Unlock()
		// watchdog: a run that makes no progress at all
		hung := make(chan struct{})
		fin := make(chan struct{})
		go func() {
			for {
				select {
				case <-fin:
					return
				case <-time.After(5 * time.Second):
				}
				b, err := os.ReadFile(mark)
				if err != nil || len(b) < 16 {
					continue
				}
				at := time.Unix(0, int64(binary.LittleEndian.Uint64(b[8:])))
				if time.Since(at) > 120*time.Second {
					mu.Lock()
					if !stopped {
						close(hung)
						cmd.Process.Kill()
					}
					mu.Unlock()
					return
				}
			}
		}()
		wg.Add(1)
		go func() {
			defer wg.Done()
			ok := false
			rd := bufio.NewReaderSize(op, 1<<20)
			for {
				line, err := rd.ReadBytes('\n')
				if len(line) > 0 {
					var r record
					if json.Unmarshal(line, &r) == nil {
						mu.Lock()
						switch r.T {
						case "done":
							dones = append(dones, r)
							ok = true
						case "viol":
							viols = append(viols, found{rec: r})
						case "known":
							knownHits[r.Known]++
							knownMsg[r.Known] = r.Viol.Class + ": " + r.Viol.Msg
						case "internal":
							internal = fmt.Sprintf("run %d: %s", r.I, r.Msg)
							stopped = true
							stopAll()
						}
						mu.Unlock()
					}
				}
				if err != nil {
					if err != io.EOF {
						break
					}
					break
				}
			}
			err := cmd.Wait()
			close(fin)
			if ok {
				// a violation was found: the others need not go on for long
				mu.Lock()
				if len(viols) > 0 && !stopped {
					stopped = true
					go func() {
						time.Sleep(300 * time.Millisecond)
						mu.Lock()
						stopAll()
						mu.Unlock()
					}()
				}
				mu.Unlock()
				return
			}
			mu.Lock()
			skip := stopped
			mu.Unlock()
			if skip {
				return
			}
			b, _ := os.ReadFile(mark)
			if len(b) < 8 {
				mu.Lock()
				internal = fmt.Sprintf("worker died before its first run: %v\n%s", err, eb)
				mu.Unlock()
				return
			}
			i := int(binary.LittleEndian.Uint64(b))
			v := probeNative(prop, seed, i)
			mu.Lock()
			defer mu.Unlock()
			if v == nil {
				if !stopped {
					internal = fmt.Sprintf("worker died in run %d, which does not repeat: %v\n%s", i, err, eb)
				}
				return
			}
			viols = append(viols, found{rec: record{I: i, Viol: v}, native: true})
			if !stopped {
				stopped = true
				stopAll()
			}
		}()
	}
	wg.Wait()
	if internal != "" {
		fmt.Fprintf(os.Stderr, "simrun: %s: internal error, no verdict: %s\n", prop, internal)
		return 2
	}
	searchWall := time.Since(start)

	// determinism: a sample of the runs again, in another process, in another order
	checked, differ := 0, ""
	if len(viols) == 0 {
		want := map[int]uint64{}
		for _, d := range dones {
			for k, v := range d.Check {
				var i int
				fmt.Sscan(k, &i)
				want[i] = v
			}
		}
		checked, differ = recheck(prop, seed, want, nw)
		if differ != "" {
			fmt.Fprintf(os.Stderr, "simrun: %s: not deterministic, no verdict: %s\n", prop, differ)
			return 3
		}
	}

	code := 0
	if len(viols) > 0 {
		sort.Slice(viols, func(a, b int) bool { return viols[a].rec.I < viols[b].rec.I })
		v := viols[0]
		r := &replay{Property: prop, BaseSeed: seed, Index: v.rec.I, RunSeed: runSeed(seed, prop, v.rec.I), Native: v.native, Tapes: v.rec.Tapes, Violation: v.rec.Viol}
		os.MkdirAll(repl, 0o755)
		file := filepath.Join(repl, fmt.Sprintf("%s-%d-%d.json", prop, seed, v.rec.I))
		r.save(file)
		if !v.native {
			tmp := filepath.Join(dir, "shrunk.json")
			limit := 40 * time.Second
			cmd := exec.Command(self(), "shrink", "-out", tmp, "-budget", limit.String(), file)
			cmd.Stderr = os.Stderr
			if err := runLimit(cmd, limit+60*time.Second); err == nil {
				if b, err := os.ReadFile(tmp); err == nil {
					os.WriteFile(file, b, 0o644)
				}
			}
			// it must reproduce in a fresh process, exactly
			cmd = exec.Command(self(), "replay", file)
			ob, _ := cmd.Output()
			if cmd.ProcessState.ExitCode() != 1 || bytes.Contains(ob, []byte("history differs")) {
				fmt.Fprintf(os.Stderr, "simrun: %s: the replay file %s does not reproduce, no verdict\n%s\n", prop, file, ob)
				return 3
			}
		}
		r = load(file)
		fmt.Printf("%s: %s: %s\n", prop, r.Violation.Class, r.Violation.Msg)
		for _, l := range r.Config {
			fmt.Println("  #", l)
		}
		tr := r.Trace
		if len(tr) > 40 {
			tr = append([]string{fmt.Sprintf("... %d earlier events", len(tr)-40)}, tr[len(tr)-40:]...)
		}
		for _, l := range tr {
			fmt.Println("  ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		code = 1
	}
	var kids []string
	for _, k := range readKnown(known, prop) {
		kids = append(kids, k.ID)
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (met in %d runs)\n", prop, k.ID, k.What, knownHits[k.ID])
	}

	// evidence
	ev := map[uint64]bool{}
	sch := map[uint64]bool{}
	stats, runsWith := map[string]int{}, map[string]int{}
	var tot record
	var samples []string
	for _, d := range dones {
		tot.Runs += d.Runs
		tot.Work += d.Work
		tot.Yields += d.Yields
		tot.Switches += d.Switches
		tot.Events += d.Events
		tot.SimNS += d.SimNS
		for k, v := range d.Stats {
			stats[k] += v
		}
		for k, v := range d.RunsWith {
			runsWith[k] += v
		}
		for _, e := range d.Ev {
			ev[e] = true
		}
		for _, e := range d.Sched {
			sch[e] = true
		}
		samples = append(samples, d.Sample...)
	}
	if len(samples) == 0 {
		samples = append(samples, fmt.Sprintf("%d runs, cut short by a violation", tot.Runs))
	}
	if evid != "" {
		faults := map[string]any{}
		probes := map[string]any{}
		for k, v := range stats {
			e := map[string]int{"times": v, "runs": runsWith[k]}
			if strings.HasPrefix(k, "fault.") || strings.HasPrefix(k, "sched.") {
				faults[k] = e
			} else {
				probes[k] = e
			}
		}
		perHour := 0.0
		if s := searchWall.Seconds(); s > 0 {
			perHour = float64(tot.Runs) / s * 3600
		}
		nv := len(viols)
		m := map[string]any{
			"property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
			"wall_s":      time.Since(start).Seconds(),
			"violations":  nv,
			"assumptions": append([]string{"sequentially consistent memory, preemption at statement granularity and inside assignments to shared memory", "the stand-ins for sync, time, context, os, net and log behave as the real packages do (self-tested; listed under stub_components)"}, sc.Asm...),
			"coverage": map[string]any{
				"evaluations":                  tot.Runs,
				"planned_runs":                 n,
				"distinct_nontrivial":          len(ev),
				"rule":                         sc.Rule,
				"samples":                      samples,
				"operations_handled":           tot.Work,
				"events_recorded":              tot.Events,
				"scheduling_points":            tot.Yields,
				"task_switches":                tot.Switches,
				"distinct_schedules":           len(sch),
				"distinct_schedules_measure":   "hash of the sequence of (task switched to, events so far)",
				"distinct_histories_measure":   "hash of the observable event history with its simulated times",
				"simulated_seconds":            float64(tot.SimNS) / 1e9,
				"runs_per_hour":                int(perHour),
				"seeds_per_hour":               int(perHour),
				"faults_injected":              faults,
				"situations_reached":           probes,
				"runs_re-executed_identically": checked,
				"real_components":              sc.Real,
				"stub_components":              sc.Stub,
				"known_findings_listed":        kids,
				"worker_processes":             nw,
			},
		}
		b, _ := json.MarshalIndent(m, "", " ")
		os.MkdirAll(filepath.Dir(evid), 0o755)
		if err := os.WriteFile(evid, append(b, '\n'), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("%s %s: %d runs (%d distinct non-trivial histories, %d schedules), %.0f s simulated, %d faults, %d re-executed identically, %.1f s wall\n",
		prop, tier, tot.Runs, len(ev), len(sch), float64(tot.SimNS)/1e9, faultTotal(stats), checked, time.Since(start).Seconds())
	if code == 0 && tot.Runs == 0 {
		fmt.Fprintln(os.Stderr, "simrun: nothing was run")
		return 2
	}
	return code
}

func faultTotal(m map[string]int) (n int) {
	for k, v := range m {
		if strings.HasPrefix(k, "fault.") {
			n += v
		}
	}
	return
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 20000 {
		t.b = append([]byte(nil), t.b[:10000]...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

func runLimit(cmd *exec.Cmd, d time.Duration) error {
	if err := cmd.Start(); err != nil {
		return err
	}
	tm := time.AfterFunc(d, func() { cmd.Process.Kill() })
	defer tm.Stop()
	return cmd.Wait()
}

// recheck executes the given runs again in fresh processes, each going through
// them in a different order, and compares.
func recheck(prop string, seed uint64, want map[int]uint64, nw int) (int, string) {
	max := 0
	for i := range want {
		if i > max {
			max = i
		}
	}
	if len(want) == 0 {
		return 0, ""
	}
	if max > 60*1000*sampleEvery { // of a very long search, the first part
		max = 60 * 1000 * sampleEvery
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	n, diff := 0, ""
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			// a stride other than that of the search
			cmd := exec.Command(self(), "hashes", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(w*sampleEvery), "-step", fmt.Sprint(sampleEvery*nw), "-n", fmt.Sprint(max+1))
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=50")
			b, err := cmd.Output()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				diff = err.Error()
				return
			}
			for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
				var i, y int
				var e, s uint64
				if _, err := fmt.Sscanf(l, "%d %x %x %d", &i, &e, &s, &y); err != nil {
					continue
				}
				wv, ok := want[i]
				if !ok {
					continue
				}
				n++
				if wv != e^s*31^uint64(y) {
					diff = fmt.Sprintf("run %d gave another history the second time", i)
				}
			}
		}()
	}
	wg.Wait()
	return n, diff
}

// ---------------------------------------------------------------- shrinking

type shrinker struct {
	sc    *harness.Scenario
	class string
	end   time.Time
	tries int
	since int64 // when the candidate under way was started, 0: none
}

func (k *shrinker) fails(t *tapes) (*tapes, bool) {
	k.tries++
	atomic.StoreInt64(&k.since, time.Now().UnixNano())
	_, s := playTapes(k.sc, t, false)
	atomic.StoreInt64(&k.since, 0)
	if s.InternalError() != "" || s.Viol == nil || s.Viol.Class != k.class {
		return nil, false
	}
	return &tapes{s.Gen.Tape, s.Fault.Tape, s.Sched.Tape}, true
}

func (k *shrinker) over() bool { return time.Now().After(k.end) }

func trim(a []uint32) []uint32 {
	for len(a) > 0 && a[len(a)-1] == 0 {
		a = a[:len(a)-1]
	}
	return a
}

func (k *shrinker) pass(t *tapes, get func(*tapes) *[]uint32) (*tapes, bool) {
	better := false
	try := func(mut func(a []uint32) []uint32) bool {
		if k.over() {
			return false
		}
		c := &tapes{append([]uint32(nil), t.Gen...), append([]uint32(nil), t.Fault...), append([]uint32(nil), t.Sched...)}
		p := get(c)
		*p = mut(*p)
		if _, ok := k.fails(c); ok {
			t = &tapes{trim(c.Gen), trim(c.Fault), trim(c.Sched)}
			better = true
			return true
		}
		return false
	}
	// cut the end
	for n := len(*get(t)); n > 0; n /= 2 {
		for len(*get(t)) >= n && !k.over() {
			l := len(*get(t)) - n
			if !try(func(a []uint32) []uint32 { return a[:l] }) {
				break
			}
		}
	}
	// delete and zero chunks
	for sz := len(*get(t)) / 2; sz > 0 && !k.over(); sz /= 2 {
		for i := 0; i+sz <= len(*get(t)) && !k.over(); {
			a := *get(t)
			zero := true
			for _, v := range a[i : i+sz] {
				if v != 0 {
					zero = false
				}
			}
			if !zero && try(func(a []uint32) []uint32 {
				for j := i; j < i+sz; j++ {
					a[j] = 0
				}
				return a
			}) {
				if i+sz > len(*get(t)) {
					break
				}
			}
			if sz <= 64 && try(func(a []uint32) []uint32 { return append(a[:i], a[i+sz:]...) }) {
				continue
			}
			i += sz
		}
	}
	// smaller values
	for i := 0; i < len(*get(t)) && !k.over(); i++ {
		for i < len(*get(t)) && (*get(t))[i] > 0 {
			v := (*get(t))[i]
			if try(func(a []uint32) []uint32 { a[i] = v / 2; return a }) {
				continue
			}
			if v > 1 && try(func(a []uint32) []uint32 { a[i] = v - 1; return a }) {
				continue
			}
			break
		}
	}
	return t, better
}

func shrink(in, out string, budget time.Duration) {
	debug.SetMaxStack(64 << 20)
	r := load(in)
	sc := scen(r.Property)
	k := &shrinker{sc: sc, class: r.Violation.Class, end: time.Now().Add(budget)}
	t := r.Tapes
	before := len(t.Gen) + len(t.Fault) + len(t.Sched)
	write := func(t *tapes) {
		h, s := playTapes(sc, t, true)
		if s.Viol == nil {
			fatal("the recorded run does not fail again")
		}
		r.Tapes, r.Violation, r.Config, r.Trace = t, s.Viol, h.Desc, s.Trace
		if n := len(r.Trace); n > 2000 {
			r.Trace = append(append([]string{}, r.Trace[:1000]...), append([]string{fmt.Sprintf("... %d events ...", n-2000)}, r.Trace[n-1000:]...)...)
		}
		r.EvHash = fmt.Sprintf("%016x", s.EvHash)
		r.Shrunk = fmt.Sprintf("%d -> %d choices in %d attempts", before, len(t.Gen)+len(t.Fault)+len(t.Sched), k.tries)
		r.save(out + ".new")
		if err := os.Rename(out+".new", out); err != nil {
			fatal("%v", err)
		}
	}
	// the run as it was found first: what is shorter replaces it, and a candidate
	// that does not come to an end leaves the best one so far
	write(t)
	go func() {
		for {
			time.Sleep(time.Second)
			if b := atomic.LoadInt64(&k.since); b != 0 && time.Now().UnixNano()-b > int64(20*time.Second) {
				os.Exit(0)
			}
		}
	}()
	for !k.over() {
		any := false
		for _, get := range []func(*tapes) *[]uint32{
			func(t *tapes) *[]uint32 { return &t.Sched },
			func(t *tapes) *[]uint32 { return &t.Fault },
			func(t *tapes) *[]uint32 { return &t.Gen },
		} {
			var b bool
			t, b = k.pass(t, get)
			if b {
				write(t)
			}
			any = any || b
		}
		if !any {
			break
		}
	}
	write(t)
}
