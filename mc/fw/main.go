package fw

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Known is a listed finding.
type Known struct {
	Property, Probe, Payload, What string
}

func encode(r Result) Result {
	for i := range r.Viols {
		r.Viols[i].Payload = base64.StdEncoding.EncodeToString([]byte(r.Viols[i].Payload))
	}
	return r
}

// Merged is the sum of the workers' results.
type Merged struct {
	Counts  map[string]int64
	Consts  map[string]int64
	Sets    map[string]int64
	Samples []string
	Cut     bool
}

// loadKnown reads the known findings of a property. Lines: "fixed: ..." and
// "known: property=<id> probe=<name> payload=<Go string literal> what=<text>".
func loadKnown(verif, id string) (out []Known) {
	b, _ := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" probe=")
		if !ok {
			continue
		}
		probe, rest, _ := strings.Cut(rest, " payload=")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			fmt.Println("bad line in known_findings.txt:", l)
			os.Exit(2)
		}
		payload, _ := strconv.Unquote(q)
		out = append(out, Known{id, probe, payload, strings.TrimPrefix(rest[len(q):], " what=")})
	}
	return out
}

// Main is the entry point of the program.
func Main() {
	id := flag.String("check", "", "")
	verif := flag.String("verif", "/verif", "")
	dir := flag.String("dir", "", "scratch directory")
	worker := flag.Int("worker", -1, "")
	n := flag.Int("n", 1, "")
	budget := flag.Int("budget", 0, "")
	replay := flag.String("replay", "", "replay a violation")
	runs := flag.Int("runs", 5, "")
	flag.Parse()
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	if *replay != "" {
		os.Exit(replayMain(*replay, *dir, *runs, thorough))
	}
	ck := Registry[*id]
	if ck == nil {
		fmt.Println("no such check:", *id)
		os.Exit(2)
	}
	known := loadKnown(*verif, *id)
	if *worker >= 0 {
		workerMain(ck, *worker, *n, *dir, thorough, time.Duration(*budget)*time.Second, known)
		return
	}
	os.Exit(parent(ck, *verif, *dir, thorough, known))
}

type outcome struct {
	code   int
	stderr string
}

func runSelf(dir, tag string, limit time.Duration, args ...string) outcome {
	cmd := exec.Command(os.Args[0], args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	fn := filepath.Join(dir, tag+".err")
	f, err := os.Create(fn)
	if err != nil {
		return outcome{2, err.Error()}
	}
	defer f.Close()
	cmd.Stdout, cmd.Stderr = f, f
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	if err := cmd.Start(); err != nil {
		return outcome{2, err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var code int
	select {
	case <-done:
		code = cmd.ProcessState.ExitCode()
	case <-time.After(limit):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		code = exitHang
		// a process that has neither used its time nor waited has just been slow
		if cpu := cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime(); cpu > limit/100 && cpu < limit/4 {
			code = exitFlaky
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	b, _ := os.ReadFile(fn)
	if len(b) > 1<<16 {
		b = append(b[:1<<15:1<<15], b[len(b)-1<<15:]...)
	}
	return outcome{code, string(b)}
}

// replay file
type replayFile struct {
	Check, Probe string
	Payload      string // base64
	Text         string // for reading
	What         string
	How          string
}

func writeReplay(dir, name string, v Viol, how string) string {
	fn := filepath.Join(dir, name)
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	e.Encode(replayFile{v.Check, v.Probe, base64.StdEncoding.EncodeToString([]byte(v.Payload)), v.Payload, v.What, how})
	os.WriteFile(fn, b.Bytes(), 0644)
	return fn
}

const (
	exitReproduced = 10
	exitFlaky      = 11
)

// replayMain executes a recorded case several times.
func replayMain(fn, dir string, runs int, thorough bool) int {
	b, err := os.ReadFile(fn)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	pl, _ := base64.StdEncoding.DecodeString(r.Payload)
	ck := Registry[r.Check]
	if ck == nil {
		return 2
	}
	if dir == "" {
		dir, _ = os.MkdirTemp("", "replay")
		defer os.RemoveAll(dir)
	}
	c := newCtx(ck, filepath.Join(dir, "replay-scratch"), thorough)
	c.replay = true
	os.MkdirAll(c.Dir, 0755)
	bad := 0
	for i := 0; i < runs; i++ {
		if what := c.call(r.Probe, string(pl)); what != "" {
			bad++
			fmt.Printf("run %d: %s\n", i+1, what)
		}
		time.Sleep(30 * time.Millisecond) // let goroutines that are left behind crash
	}
	fmt.Printf("violated in %d of %d runs\n", bad, runs)
	switch bad {
	case 0:
		return 0
	case runs:
		return exitReproduced
	}
	return exitFlaky
}

func parent(ck *Check, verif, dir string, thorough bool, known []Known) int {
	start := time.Now()
	if dir == "" {
		d, err := os.MkdirTemp("", "mc-"+ck.ID)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		dir = d
		defer os.RemoveAll(dir)
	}
	n := ck.Workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	budget := 240
	if thorough {
		budget = 660
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0755)
	repdir := filepath.Join(evdir, "replay")
	os.MkdirAll(repdir, 0755)

	// the listed findings first: are they still there?
	var notes []string
	for i, k := range known {
		fn := writeReplay(dir, fmt.Sprintf("known%d", i), Viol{ck.ID, k.Probe, k.Payload, k.What}, "")
		o := runSelf(dir, fmt.Sprintf("known%d", i), 2*hangLimit(ck), "-replay", fn, "-dir", dir, "-runs", "1")
		if o.code != 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k.What)
			notes = append(notes, k.What)
		}
	}

	runShard := func(i int, tag string) outcome {
		return runSelf(dir, fmt.Sprintf("worker%d%s", i, tag), time.Duration(budget)*time.Second+2*hangLimit(ck)+30*time.Second,
			"-check", ck.ID, "-verif", verif, "-dir", dir, "-worker", strconv.Itoa(i), "-n", strconv.Itoa(n), "-budget", strconv.Itoa(budget))
	}
	outs := make([]outcome, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			outs[i] = runShard(i, "")
		}(i)
	}
	wg.Wait()

	crashes := time.Now()
	var confirmed []Viol
	var hows []string
	report := func(v Viol, how string) { confirmed = append(confirmed, v); hows = append(hows, how) }
	m := &Merged{Counts: map[string]int64{}, Consts: map[string]int64{}, Sets: map[string]int64{}}
	var raw []Viol
	rawShard := map[int]int{}
	for i := 0; i < n; i++ {
		if outs[i].code == 0 {
			r, ok := loadResult(dir, i)
			if !ok {
				fmt.Println("no result of worker", i)
				return 2
			}
			for k, v := range r.Counts {
				m.Counts[k] += v
			}
			for k, v := range r.Consts {
				m.Consts[k] = v
			}
			m.Samples = append(m.Samples, r.Samples...)
			m.Cut = m.Cut || r.Cut
			for _, v := range r.Viols {
				rawShard[len(raw)] = i
				raw = append(raw, v)
			}
			continue
		}
		// the worker died: find the case that killed it
		m.Cut = true
		if strings.Contains(outs[i].stderr, "reference builder") || strings.Contains(outs[i].stderr, "MACHINERY:") {
			fmt.Println(outs[i].stderr)
			return 2
		}
		if len(confirmed) > 0 && time.Since(crashes) > time.Minute {
			continue // there is enough to report
		}
		found := false
		runs := "5"
		if outs[i].code == exitHang {
			runs = "1"
		}
		for j, cs := range readJournal(filepath.Join(dir, fmt.Sprintf("journal%d", i))) {
			what := fmt.Sprintf("the process died or hung (exit code %d)\n%s", outs[i].code, tail(outs[i].stderr))
			v := Viol{ck.ID, cs[0], cs[1], what}
			fn := writeReplay(dir, fmt.Sprintf("crash%d-%d", i, j), v, "")
			o := runSelf(dir, fmt.Sprintf("crash%d-%d", i, j), 4*hangLimit(ck), "-replay", fn, "-dir", dir, "-runs", runs)
			if o.code == 2 && strings.Contains(o.stderr, "panic") || o.code != 0 && o.code != exitFlaky {
				report(v, "crash, reproduced in a process of its own")
				found = true
				break
			}
		}
		if found {
			continue
		}
		// not reproducible alone: does the shard die again?
		first := outs[i].stderr
		o := runShard(i, "-again")
		if o.code != 0 && fatal(o.stderr) && fatal(first) {
			js := readJournal(filepath.Join(dir, fmt.Sprintf("journal%d", i)))
			v := Viol{ck.ID, "?", "", tail(o.stderr)}
			if len(js) > 0 {
				v.Probe, v.Payload = js[0][0], js[0][1]
			}
			report(v, "crash of the whole exploration, in two runs; not reproduced by the last case alone")
		} else {
			notes = append(notes, fmt.Sprintf("worker %d ended with code %d, not reproducible", i, outs[i].code))
			fmt.Println(notes[len(notes)-1], tail(first))
		}
	}
	// confirm the violations
	confirming := time.Now()
	for k, v := range raw {
		if len(confirmed) >= 5 || len(confirmed) > 0 && time.Since(confirming) > 2*time.Minute {
			break
		}
		fn := writeReplay(dir, fmt.Sprintf("viol%d", k), v, "")
		o := runSelf(dir, fmt.Sprintf("viol%d", k), 10*hangLimit(ck), "-replay", fn, "-dir", dir)
		if o.code == exitReproduced {
			report(v, "reproduced in 5 of 5 runs in a process of its own")
			continue
		}
		if o.code != 0 && o.code != exitFlaky {
			v.What += "\nthe replay ended the process: " + tail(o.stderr)
			report(v, "the process died in the replay")
			continue
		}
		// it depends on what was executed before: the same exploration has to show it again
		sh := rawShard[k]
		again := true
		for rep := 0; rep < 2 && again; rep++ {
			again = false
			os.Remove(filepath.Join(dir, fmt.Sprintf("result%d", sh)))
			runShard(sh, fmt.Sprintf("-viol%d-%d", k, rep))
			if r, ok := loadResult(dir, sh); ok {
				for _, w := range r.Viols {
					if w.Probe == v.Probe && w.Payload == v.Payload {
						again = true
					}
				}
			}
		}
		if again {
			report(v, "reproduced by two more runs of the whole exploration, depends on the cases before it")
		} else {
			notes = append(notes, "not reproducible: "+v.Probe+" "+strconv.Quote(v.Payload))
			fmt.Println(notes[len(notes)-1])
			m.Cut = true
		}
	}

	m.Sets = mergeSets(dir, n)
	cov := map[string]interface{}{}
	for k, v := range m.Counts {
		cov[k] = v
	}
	for k, v := range m.Consts {
		cov[k] = v
	}
	for k, v := range m.Sets {
		cov[k] = v
	}
	var samples []interface{}
	for i, s := range m.Samples {
		if i < 12 {
			samples = append(samples, s)
		}
	}
	cov["samples"] = samples
	cov["rule"] = ck.Rule
	cov["exhaustive"] = !m.Cut && len(confirmed) == 0
	if ck.Leveled != nil {
		ck.Leveled(m, cov)
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"assumptions": ck.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(confirmed),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, ck.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	keys := []string{}
	for k := range cov {
		if k != "samples" && k != "rule" {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("%s=%v ", k, cov[k])
	}
	fmt.Printf("wall=%.1fs\n", time.Since(start).Seconds())
	if len(confirmed) == 0 {
		return 0
	}
	for i, v := range confirmed {
		fn := writeReplay(repdir, fmt.Sprintf("%s-%d.json", ck.ID, i), v, hows[i])
		fmt.Printf("--- %s: probe %s (%s)\ninput: %q\n%s\n", ck.ID, v.Probe, hows[i], clip(v.Payload, 600), clip(v.What, 2500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, fn)
	}
	return 1
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func fatal(s string) bool {
	return strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "DATA RACE")
}

func tail(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		return clip(s[i:], 2000)
	}
	if i := strings.Index(s, "panic:"); i >= 0 {
		return clip(s[i:], 2000)
	}
	if i := strings.Index(s, "fatal error:"); i >= 0 {
		return clip(s[i:], 2000)
	}
	if len(s) > 2000 {
		return s[len(s)-2000:]
	}
	return s
}

func loadResult(dir string, i int) (r Result, ok bool) {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result%d", i)))
	if err != nil || json.Unmarshal(b, &r) != nil {
		return r, false
	}
	for k := range r.Viols {
		p, _ := base64.StdEncoding.DecodeString(r.Viols[k].Payload)
		r.Viols[k].Payload = string(p)
	}
	return r, true
}

func mergeSets(dir string, n int) map[string]int64 {
	out := map[string]int64{}
	all := map[string][]uint64{}
	for i := 0; i < n; i++ {
		fns, _ := filepath.Glob(filepath.Join(dir, fmt.Sprintf("set%d.*", i)))
		for _, fn := range fns {
			b, err := os.ReadFile(fn)
			if err != nil {
				continue
			}
			name := strings.SplitN(filepath.Base(fn), ".", 2)[1]
			for ; len(b) >= 8; b = b[8:] {
				all[name] = append(all[name], binary.LittleEndian.Uint64(b))
			}
		}
	}
	for name, l := range all {
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		var c int64
		for i := range l {
			if i == 0 || l[i] != l[i-1] {
				c++
			}
		}
		out[name] = c
	}
	return out
}
