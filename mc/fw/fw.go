// Package fw runs the checks: it distributes the enumeration over worker
// processes, survives their crashes and hangs, confirms what they report,
// matches it against the known findings, and writes the evidence.
package fw

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Probe executes one case on the implementation and judges it. It has to be a
// deterministic function of the payload; "" means that the property held.
type Probe func(c *Ctx, payload string) string

// Check is the machinery of one property.
type Check struct {
	ID      string
	Level   string
	Rule    string // how cases are made, what counts as what
	Probes  map[string]Probe
	Explore func(c *Ctx)
	// Coverage turns the merged counters into the evidence; nil for the standard keys.
	Assumptions []string
	Workers     int // 0: one for each processor
	HangSecs    int // 0: 30
	Leveled     func(m *Merged, cov map[string]interface{})
}

// Registry lists the checks by property.
var Registry = map[string]*Check{}

func Register(c *Check) { Registry[c.ID] = c }

// Viol is a violation.
type Viol struct {
	Check, Probe, Payload, What string
}

// Result is what a worker reports.
type Result struct {
	Counts  map[string]int64
	Consts  map[string]int64
	Samples []string
	Viols   []Viol
	Cut     bool // stopped before the end of the enumeration
}

// Ctx is the environment of an exploration in a worker.
type Ctx struct {
	Check    *Check
	Worker   int
	N        int
	Thorough bool
	Light    bool   // for the bulk of the cases: fewer variations of each
	Dir      string // scratch directory of this process
	Repo     string
	unit     int
	deadline time.Time
	res      Result
	sets     map[string]map[uint64]struct{}
	jr       *journal
	known    map[string]bool
	expired  bool
	tick     int
	replay   bool
	samples  int
}

// Mine distributes work units: call it for every unit, in the same order in
// all of the workers, and skip the units it returns false for.
func (c *Ctx) Mine() bool {
	c.unit++
	return c.unit%c.N == c.Worker
}

// Expired tells that the time is up.
func (c *Ctx) Expired() bool {
	if c.expired {
		return true
	}
	if c.tick++; c.tick&63 == 0 && time.Now().After(c.deadline) {
		c.expired = true
		c.res.Cut = true
	}
	return c.expired || len(c.res.Viols) >= 8
}

// Add counts something.
func (c *Ctx) Add(name string, n int64) { c.res.Counts[name] += n }

// Const records the size of something all workers compute alike.
func (c *Ctx) Const(name string, n int64) { c.res.Consts[name] = n }

func hash(s string) uint64 { // FNV-1a: the same in all processes
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Seen adds the key to a set whose size is reported, and tells whether it was
// there already (in this worker).
func (c *Ctx) Seen(set, key string) bool {
	m := c.sets[set]
	if m == nil {
		m = map[uint64]struct{}{}
		c.sets[set] = m
	}
	h := hash(key)
	if _, ok := m[h]; ok {
		return true
	}
	m[h] = struct{}{}
	return false
}

// Sample keeps an example for the evidence.
func (c *Ctx) Sample(s string) {
	switch c.samples++; c.samples {
	case 1, 100, 5000, 40000:
		c.res.Samples = append(c.res.Samples, s)
	}
}

// Run executes a case.
func (c *Ctx) Run(probe, payload string) bool {
	if c.Expired() {
		return false
	}
	if c.known[probe+"\x00"+payload] {
		return true
	}
	c.jr.put(probe, payload)
	c.res.Counts["evaluations"]++
	what := c.call(probe, payload)
	if what == "" {
		return true
	}
	c.res.Viols = append(c.res.Viols, Viol{c.Check.ID, probe, payload, what})
	return false
}

func (c *Ctx) call(probe, payload string) (what string) {
	p := c.Check.Probes[probe]
	if p == nil {
		panic("no such probe: " + probe)
	}
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if strings.Contains(fmt.Sprint(r), "reference builder") {
				panic(r) // an error of the machinery
			}
			what = fmt.Sprintf("panic: %v\n%s", r, st)
		}
	}()
	return p(c, payload)
}

// journal is a memory-mapped file with the cases in flight: it survives the
// death of the process.
type journal struct {
	m   []byte
	seq uint64
	cnt atomic.Uint64
}

const (
	jslots = 4
	jsize  = 1 << 18
)

func openJournal(fn string) (*journal, error) {
	f, err := os.OpenFile(fn, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(jslots * jsize); err != nil {
		return nil, err
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, jslots*jsize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &journal{m: m}, nil
}

func (j *journal) put(probe, payload string) {
	if j == nil {
		return
	}
	j.seq++
	s := j.m[(j.seq%jslots)*jsize:][:jsize]
	n := len(payload)
	if n > jsize-256 {
		n = jsize - 256
	}
	binary.LittleEndian.PutUint64(s, 0)
	binary.LittleEndian.PutUint32(s[8:], uint32(len(probe)))
	binary.LittleEndian.PutUint32(s[12:], uint32(n))
	copy(s[16:], probe)
	copy(s[16+len(probe):], payload[:n])
	binary.LittleEndian.PutUint64(s, j.seq)
	j.cnt.Store(j.seq)
}

// cases returns the cases in the journal, latest first.
func readJournal(fn string) (out [][2]string) {
	b, err := os.ReadFile(fn)
	if err != nil || len(b) < jslots*jsize {
		return nil
	}
	type ent struct {
		seq uint64
		c   [2]string
	}
	var es []ent
	for i := 0; i < jslots; i++ {
		s := b[i*jsize:][:jsize]
		seq := binary.LittleEndian.Uint64(s)
		pl, n := int(binary.LittleEndian.Uint32(s[8:])), int(binary.LittleEndian.Uint32(s[12:]))
		if seq == 0 || 16+pl+n > jsize {
			continue
		}
		es = append(es, ent{seq, [2]string{string(s[16 : 16+pl]), string(s[16+pl : 16+pl+n])}})
	}
	for len(es) > 0 {
		k := 0
		for i := range es {
			if es[i].seq > es[k].seq {
				k = i
			}
		}
		out = append(out, es[k].c)
		es = append(es[:k], es[k+1:]...)
	}
	return out
}

const exitHang = 97

// cpuTime is the processor time that this process has used.
func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// watchdog ends the process if a case does not end: it has run for the limit
// in processor time, or has been waiting that long. On a machine with much
// else to do, the limit is not about wall time.
func (c *Ctx) watchdog(limit time.Duration) {
	last, since, used := uint64(0), time.Now(), cpuTime()
	idle, idleUsed := since, used // the processor has not been used since then
	for {
		time.Sleep(500 * time.Millisecond)
		now, cpu := time.Now(), cpuTime()
		if n := c.jr.cnt.Load(); n != last || n == 0 {
			last, since, used = n, now, cpu
			idle, idleUsed = now, cpu
			continue
		}
		if cpu-idleUsed > limit/100 {
			idle, idleUsed = now, cpu
		}
		if cpu-used > limit || now.Sub(idle) > limit || now.Sub(since) > 5*limit {
			buf := make([]byte, 1<<20)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			fmt.Fprintln(os.Stderr, "HANG: no progress for", limit)
			os.Exit(exitHang)
		}
	}
}

// NewCtx is for running a probe outside of an exploration.
func NewCtx(ck *Check, dir string) *Ctx { return newCtx(ck, dir, false) }

func newCtx(ck *Check, dir string, thorough bool) *Ctx {
	return &Ctx{Check: ck, N: 1, Dir: dir, Thorough: thorough, Repo: "/repo",
		res:  Result{Counts: map[string]int64{}, Consts: map[string]int64{}},
		sets: map[string]map[uint64]struct{}{}, deadline: time.Now().Add(time.Hour)}
}

// workerMain explores a shard.
func workerMain(ck *Check, i, n int, dir string, thorough bool, budget time.Duration, known []Known) {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	c := newCtx(ck, filepath.Join(dir, fmt.Sprintf("scratch%d", i)), thorough)
	os.MkdirAll(c.Dir, 0755)
	c.Worker, c.N = i, n
	c.deadline = time.Now().Add(budget)
	c.known = map[string]bool{}
	for _, k := range known {
		c.known[k.Probe+"\x00"+k.Payload] = true
	}
	var err error
	if c.jr, err = openJournal(filepath.Join(dir, fmt.Sprintf("journal%d", i))); err != nil {
		panic(err)
	}
	go c.watchdog(hangLimit(ck))
	ck.Explore(c)
	for name, m := range c.sets {
		b := make([]byte, 0, 8*len(m))
		for h := range m {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("set%d.%s", i, name)), b, 0644)
	}
	b, _ := json.Marshal(encode(c.res))
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("result%d", i)), b, 0644); err != nil {
		panic(err)
	}
}

func hangLimit(ck *Check) time.Duration {
	if ck.HangSecs > 0 {
		return time.Duration(ck.HangSecs) * time.Second
	}
	return 30 * time.Second
}
