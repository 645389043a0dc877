package checks

// C04 and C20: the real code under the controlled scheduler of /verif/rt. All
// executions that deviate from the default one in at most the stated number of
// choices are run, for every scenario.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"

	"schemaverif/fw"
	"schemaverif/ref"
	"schemaverif/rt"
)

// env is what the goroutines of an execution share.
type env struct {
	p    *schemalex.Parser
	a, b model.Stmts
	l    *lint.Linter

	err error                  // of a text that is not accepted
	src schemalex.SchemaSource // a file

	m, n model.Stmts // as a program builds them, with several of everything
}

type step func(e *env) string

// schedCase is an execution.
type schedCase struct {
	S    string     // scenario
	D    [][2]int32 `json:",omitempty"` // deviations: entry, choice
	Seed uint64     `json:",omitempty"` // of the hash function of maps
}

func (k schedCase) String() string { b, _ := json.Marshal(k); return string(b) }

func (k schedCase) prefix() []byte {
	if len(k.D) == 0 {
		return nil
	}
	p := make([]byte, k.D[len(k.D)-1][0]+1)
	for _, d := range k.D {
		p[d[0]] = byte(d[1])
	}
	return p
}

// scenario is a set of goroutines, each a sequence of steps.
type scenario struct {
	threads [][]string
	texts   [2]string
	built   bool
	err     bool
	file    bool
}

const (
	schedA = "CREATE TABLE `t` (id INT NOT NULL, n VARCHAR(5) DEFAULT 'x', PRIMARY KEY (id), KEY k (n)); CREATE TABLE u (i INT);"
	schedB = "CREATE TABLE t (id BIGINT, e ENUM('p','q'), UNIQUE KEY v (id)) ENGINE=InnoDB; CREATE TABLE w LIKE t;"
)

var schedSteps = map[string]step{
	"parse": func(e *env) string { return parseDump(e.p, "CREATE TABLE t (id INT NOT NULL, PRIMARY KEY (id));") },
	"parse2": func(e *env) string {
		return parseDump(e.p, "create table `u` (e ENUM('a','b'), KEY (e)) /* x */ COMMENT 'c';")
	},
	"error": func(e *env) string {
		return parseDump(e.p, "CREATE TABLE x (a INT,, b INT, c INT, d INT, KEY k (a), KEY l (b));")
	},
	"eof":     func(e *env) string { return parseDump(e.p, "CREATE TABLE y (a INT") },
	"illegal": func(e *env) string { return parseDump(e.p, "CREATE TABLE z (a INT COMMENT 'open); \n x") },
	"empty":   func(e *env) string { return parseDump(e.p, "") },
	"own":     func(e *env) string { return parseDump(schemalex.New(), "CREATE TABLE o (a CHAR(3) DEFAULT 'q');") },
	"format": func(e *env) string {
		var b bytes.Buffer
		err := format.SQL(&b, e.a, format.WithIndent(" ", 2))
		return fmt.Sprint(b.String(), err)
	},
	"formatcol": func(e *env) string {
		var b bytes.Buffer
		for c := range firstTable(e.a).Columns() {
			fmt.Fprint(&b, format.SQL(&b, c), ";")
		}
		for i := range firstTable(e.a).Indexes() {
			fmt.Fprint(&b, format.SQL(&b, i, format.WithIndent("\t", 1)), ";")
		}
		return b.String()
	},
	"diff": func(e *env) string {
		var b bytes.Buffer
		err := diff.Statements(&b, e.a, e.b, diff.WithTransaction(true))
		return fmt.Sprint(b.String(), err)
	},
	"undiff": func(e *env) string {
		var b bytes.Buffer
		err := diff.Statements(&b, e.b, e.a)
		return fmt.Sprint(b.String(), err)
	},
	"strings": func(e *env) string {
		var b bytes.Buffer
		err := diff.Strings(&b, "CREATE TABLE a (i INT)", "CREATE TABLE a (i INT, j INT)", diff.WithParser(e.p))
		return fmt.Sprint(b.String(), err)
	},
	"lint": func(e *env) string {
		var b bytes.Buffer
		err := e.l.Run(context.Background(), schemalex.NewReaderSource(strings.NewReader("create table l (i int, key (i));")), &b, lint.WithIndent(" ", 4))
		return fmt.Sprint(b.String(), err)
	},
	"read": func(e *env) string { return dumpStmts(e.a) + readAll(e.a) },
	"norm": func(e *env) string {
		var o []string
		for _, s := range e.a {
			t := s.(model.Table)
			n, _ := t.Normalize()
			o = append(o, fmt.Sprint(ref.CanonTable(n)))
			for c := range t.Columns() {
				c, ok := c.Normalize()
				o = append(o, fmt.Sprint(c.Name(), c.Type(), c.NullState(), ok))
			}
			for i := range t.Indexes() {
				i, ok := i.Normalize()
				o = append(o, fmt.Sprint(i.ID(), ok))
			}
		}
		return strings.Join(o, "\n")
	},
	"clone": func(e *env) string {
		var o []string
		for c := range firstTable(e.a).Columns() {
			c = c.Clone()
			c.SetComment("own")
			o = append(o, c.ID()+c.Comment())
		}
		for i := range firstTable(e.a).Indexes() {
			i = i.Clone()
			i.SetName("own")
			o = append(o, i.ID())
		}
		return strings.Join(o, "\n")
	},
	"message": func(e *env) string {
		p := e.err.(schemalex.ParseError)
		return fmt.Sprint(e.err, p.File(), p.Line(), p.Col(), p.Message(), p.EOF())
	},
	"uri": func(e *env) string {
		var o []string
		for _, u := range []string{"-", "a", "file:///x%20y", "local-git:///r?file=f&commitish=v", "mysql://u:p@tcp(h)/d", "http://x", "%zz://"} {
			s, err := schemalex.NewSchemaSource(u)
			v := fmt.Sprintf("%T", s)
			if u != "-" {
				v = fmt.Sprintf("%#v", s)
			}
			if i := strings.Index(v, "(0x"); i >= 0 {
				v = v[:i]
			}
			o = append(o, fmt.Sprint(v, err))
		}
		return strings.Join(o, "\n")
	},
	"file": func(e *env) string {
		var b bytes.Buffer
		err := e.src.WriteSchema(&b)
		return fmt.Sprint(b.String(), err)
	},
	"nofile": func(e *env) string {
		var b bytes.Buffer
		err := diff.Files(&b, "/nonexistent/a", "/nonexistent/b")
		return fmt.Sprint(b.String(), err)
	},
}

// schedFile is a file that is read.
func schedFile() string {
	fn := os.Getenv("VERIF_MC") + "/sched.sql"
	if _, err := os.Stat(fn); err != nil {
		tmp := fn + strconv.Itoa(os.Getpid())
		if err := os.WriteFile(tmp, []byte("CREATE TABLE f (a INT);\n"), 0644); err != nil {
			panic(err)
		}
		os.Rename(tmp, fn)
	}
	return fn
}

// builtSteps are steps on models that were built by calls.
var builtSteps = []string{"format", "formatcol", "diff", "undiff", "read", "norm", "clone"}

func init() {
	for _, n := range builtSteps {
		f := schedSteps[n]
		schedSteps["built-"+n] = func(e *env) string { return f(&env{p: e.p, l: e.l, a: e.m, b: e.n}) }
	}
}

// builtModel has everything that is kept in lists n times, added one by one
// and all at once.
func builtModel(n int) (l model.Stmts) {
	name := func(s string, i int) string { return fmt.Sprintf("%s%d", s, i) }
	for x := 0; x < 2; x++ {
		t := model.NewTable(name("t", x)).SetTemporary(x == 1)
		if x == 1 {
			t.SetIfNotExists(true)
		}
		var all []model.IndexColumn
		var values []string
		for i := 0; i < n; i++ {
			all = append(all, model.NewIndexColumn(name("c", i)))
			values = append(values, name("v", i))
		}
		for i := 0; i < n; i++ {
			c := model.NewTableColumn(name("c", i)).SetTableID(t.ID())
			switch i % 4 {
			case 0:
				c.SetType(model.ColumnTypeEnum).SetEnumValues(values)
			case 1:
				c.SetType(model.ColumnTypeSet).SetSetValues(values)
			case 2:
				c.SetType(model.ColumnTypeVarChar).SetLength(model.NewLength("9")).SetDefault("x", true)
			default:
				c.SetType(model.ColumnTypeDecimal).SetLength(model.NewLength("9").SetDecimal("2")).SetComment("c")
			}
			t.AddColumn(c)
			t.AddOption(model.NewTableOption(name("O", i), "1", i%2 == 0))
		}
		for i, k := range []model.IndexKind{model.IndexKindPrimaryKey, model.IndexKindNormal, model.IndexKindUnique, model.IndexKindFullText, model.IndexKindForeignKey} {
			for _, once := range []bool{false, true} {
				if once && k == model.IndexKindPrimaryKey {
					continue
				}
				x := model.NewIndex(k, t.ID())
				if k != model.IndexKindPrimaryKey {
					x.SetName(fmt.Sprint("k", i, once))
				}
				add := func(c model.ColumnContainer) {
					if once {
						c.AddColumns(all...)
						return
					}
					for _, v := range all {
						c.AddColumns(v)
					}
				}
				add(x)
				for j := 0; j < n && k == model.IndexKindFullText; j++ {
					x.AddOption(model.NewIndexOption(name("P", j), "q", false))
				}
				if k == model.IndexKindForeignKey {
					r := model.NewReference().SetTableName("p").SetOnDelete(model.ReferenceOptionCascade)
					add(r)
					x.SetSymbol(x.Name())
					x.SetReference(r)
				}
				t.AddIndex(x)
			}
		}
		l = append(l, t)
	}
	return l
}

func firstTable(l model.Stmts) model.Table { return l[0].(model.Table) }

func parseDump(p *schemalex.Parser, text string) string {
	stmts, err := p.ParseString(text)
	s := fmt.Sprint(err)
	if pe, ok := err.(schemalex.ParseError); ok {
		s = fmt.Sprintf("%d %d %v %q %q %v", pe.Line(), pe.Col(), pe.EOF(), pe.Message(), pe.File(), err)
	}
	return dumpStmts(stmts) + s
}

// readAll asks a model for everything.
func readAll(l model.Stmts) string {
	var o []string
	add := func(v ...interface{}) { o = append(o, fmt.Sprint(v...)) }
	for _, s := range l {
		t, ok := s.(model.Table)
		if !ok {
			add(s.ID())
			continue
		}
		add(t.ID(), t.Name(), t.IsTemporary(), t.IsIfNotExists(), t.HasLikeTable(), t.LikeTable())
		for c := range t.Columns() {
			got, ok := t.LookupColumn(c.ID())
			n, ok2 := t.LookupColumnOrder(c.ID())
			before, ok3 := t.LookupColumnBefore(c.ID())
			add(c.ID(), c.TableID(), ok && got.Name() == c.Name(), n, ok2, ok3)
			if ok3 {
				add(before.Name())
			}
			for v := range c.EnumValues() {
				add(v)
			}
			for v := range c.SetValues() {
				add(v)
			}
		}
		for i := range t.Indexes() {
			got, ok := t.LookupIndex(i.ID())
			add(i.ID(), ok && got.Name() == i.Name())
			for c := range i.Columns() {
				add(c.ID(), c.Name(), c.Length())
			}
			for p := range i.Options() {
				add(p.ID(), p.Key(), p.Value())
			}
			if r := i.Reference(); r != nil {
				add(r.ID(), r.TableName(), r.OnDelete(), r.OnUpdate(), r.String())
				for c := range r.Columns() {
					add(c.ID(), c.Name(), c.Length())
				}
			}
		}
		for p := range t.Options() {
			add(p.ID(), p.Key(), p.Value())
		}
	}
	return strings.Join(o, "\n")
}

func newEnv(sc *scenario) *env {
	e := &env{p: schemalex.New(), l: lint.New()}
	var err error
	if sc.texts[0] != "" {
		if e.a, err = parseImpl(sc.texts[0]); err != nil {
			panic(fmt.Sprintf("reference builder: %v", err))
		}
	}
	if sc.texts[1] != "" {
		if e.b, err = parseImpl(sc.texts[1]); err != nil {
			panic(fmt.Sprintf("reference builder: %v", err))
		}
	}
	if sc.err {
		_, e.err = parseImpl("CREATE TABLE t (\n a INT, b 'x')")
	}
	if sc.file {
		e.src = schemalex.NewLocalFileSource(schedFile())
	}
	if sc.built {
		e.m, e.n = builtModel(3), builtModel(5)
	}
	return e
}

// scenarioOf decodes a name: threads are separated by |, their steps by +.
func scenarioOf(name string) *scenario {
	sc := &scenario{}
	for _, t := range strings.Split(name, "|") {
		steps := strings.Split(t, "+")
		for _, s := range steps {
			if schedSteps[s] == nil {
				panic("reference builder: no step " + s)
			}
			switch s {
			case "message":
				sc.err = true
			case "file":
				sc.file = true
			case "format", "formatcol", "diff", "undiff", "read", "norm", "clone":
				sc.texts = [2]string{schedA, schedB}
			}
			sc.built = sc.built || strings.HasPrefix(s, "built-")
		}
		sc.threads = append(sc.threads, steps)
	}
	return sc
}

var (
	lastTrace *rt.Trace
	schedRuns int
	schedWant = map[string]string{}
)

// tend keeps the garbage collector out of the executions.
func tend() {
	if schedRuns++; schedRuns%400 == 0 {
		runtime.GC()
	}
}

func quietRuntime() {
	if !rt.Enabled {
		fmt.Fprintln(os.Stderr, "MACHINERY: built without the controlled scheduler")
		os.Exit(2)
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
}

func judgeSched(c *fw.Ctx, payload string) string {
	var k schedCase
	if err := json.Unmarshal([]byte(payload), &k); err != nil {
		panic(err)
	}
	quietRuntime()
	tend()
	sc := scenarioOf(k.S)
	e := newEnv(sc)
	got := make([][]string, len(sc.threads))
	var fs []func()
	for i, t := range sc.threads {
		i, t := i, t
		got[i] = make([]string, len(t))
		fs = append(fs, func() {
			for j, s := range t {
				got[i][j] = schedSteps[s](e)
			}
		})
	}
	lastTrace = rt.Exec(k.prefix(), k.Seed, fs...)
	c.Add("entries", int64(len(lastTrace.Entries)))
	if lastTrace.Bad&3 != 0 {
		c.Add("prefixes_not_followed", 1)
	}
	for i, d := range lastTrace.Done {
		if !d {
			return fmt.Sprintf("deadlock: goroutine %d (%s) can not go on\n%s", i, strings.Join(sc.threads[i], ", "), stacks())
		}
	}
	if n := lastTrace.Stuck; n > 0 {
		return fmt.Sprintf("%d goroutines are left behind\n%s", n, stacks())
	}
	for i, t := range sc.threads {
		for j, s := range t {
			want, ok := schedWant[s]
			if !ok {
				want = schedSteps[s](newEnv(sc))
				schedWant[s] = want
			}
			if got[i][j] != want {
				return fmt.Sprintf("goroutine %d, %s: alone:\n%s\nhere:\n%s", i, s, want, got[i][j])
			}
		}
	}
	return ""
}

func stacks() string {
	b := make([]byte, 1<<16)
	return string(b[:runtime.Stack(b, true)])
}

// judgeCold executes a case in a process of its own, where nothing has been
// initialized by earlier executions.
func judgeCold(c *fw.Ctx, payload string) string {
	cmd := exec.Command(os.Args[0], "-cold", payload)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	lastTrace = nil
	if err != nil {
		s := errb.String()
		if len(s) > 4000 {
			s = s[:4000]
		}
		return fmt.Sprintf("%v\n%s%s", err, out.String(), s)
	}
	var r coldResult
	if err := json.Unmarshal(out.Bytes(), &r); err != nil {
		panic(fmt.Sprintf("reference builder: %v: %q", err, out.String()))
	}
	lastTrace = r.T
	c.Add("entries", int64(len(r.T.Entries)))
	return r.What
}

type coldResult struct {
	What string
	T    *rt.Trace
}

// Cold is the main function of such a process.
func Cold(args []string) {
	if args[0] == "parse" {
		var n int
		fmt.Sscan(args[1], &n)
		fmt.Print(parseDump(schemalex.New(), historyTexts[n]))
		os.Exit(0)
	}
	if args[0] == "batch" {
		var order, show int
		fmt.Sscan(args[2], &order)
		fmt.Sscan(args[3], &show)
		var seed uint64
		if fmt.Sscan(os.Getenv("VERIF_SEEDS"), &seed); seed != 0 {
			rt.SetSeed(seed)
		}
		batch(args[1] == "keywords", order, show)
		if l := rt.Asked(); len(l) > 0 {
			fmt.Print("\n", strings.Join(l, " "))
		}
		os.Exit(0)
	}
	if args[0] == "step" {
		fmt.Print(anyStep(args[1])(historyEnv()))
		os.Exit(0)
	}
	ck := &fw.Check{ID: "cold"}
	c := fw.NewCtx(ck, os.TempDir())
	r := coldResult{What: judgeSched(c, args[0])}
	r.T = lastTrace
	json.NewEncoder(os.Stdout).Encode(r)
	os.Exit(0)
}

// deviate explores the executions of a scenario. At level 0 the default
// execution is run, then those with one deviation, and so on up to the bound.
type node struct {
	d  [][2]int32
	br []int32
	ns []uint8
}

func newNode(t *rt.Trace, d [][2]int32, kinds func(kind uint8) bool) node {
	first := 0
	if len(d) > 0 {
		first = int(d[len(d)-1][0]) + 1
	}
	n := node{d: d}
	for _, i := range t.Branches(first) {
		if kinds == nil || kinds(t.Entries[i].Kind) {
			n.br = append(n.br, i)
			n.ns = append(n.ns, t.Entries[i].N)
		}
	}
	return n
}

// explore runs everything with up to bound deviations. The executions with one
// deviation are the units of work.
func exploreSched(c *fw.Ctx, probe, name string, seed uint64, bound int, kinds func(kind uint8) bool) {
	if !c.Run(probe, schedCase{S: name, Seed: seed}.String()) || lastTrace == nil {
		return
	}
	level := []node{newNode(lastTrace, nil, kinds)}
	for b := 1; b <= bound; b++ {
		var next []node
		for _, n := range level {
			for x, i := range n.br {
				for alt := uint8(1); alt < n.ns[x]; alt++ {
					if b == 1 && !c.Mine() {
						continue
					}
					if c.Expired() {
						return
					}
					d := append(append([][2]int32{}, n.d...), [2]int32{i, int32(alt)})
					lastTrace = nil
					if !c.Run(probe, schedCase{name, d, seed}.String()) || lastTrace == nil {
						continue
					}
					c.Add(fmt.Sprintf("executions_with_%d_deviations", b), 1)
					if lastTrace.Bad&3 == 0 && b < bound {
						next = append(next, newNode(lastTrace, d, kinds))
					}
				}
			}
		}
		level = next
	}
}

// schedPairs are the inputs of C04: several of everything that is kept in maps and sets.
var schedPairs = [][2]string{
	{"CREATE TABLE a (x INT); CREATE TABLE b (x INT); CREATE TABLE c (x INT);", "CREATE TABLE d (x INT); CREATE TABLE e (x INT); CREATE TABLE f (x INT);"},
	{"CREATE TABLE t (a INT, b INT, c INT, k1 INT, k2 INT);", "CREATE TABLE t (k1 INT, d INT, e INT, k2 INT, f INT);"},
	{"CREATE TABLE t (a INT, b INT, c INT, d INT, PRIMARY KEY (a), KEY k (b), UNIQUE KEY u (c), KEY l (d));", "CREATE TABLE t (a BIGINT, b CHAR(3), c TEXT, d INT NOT NULL, PRIMARY KEY (b), KEY m (b), UNIQUE KEY v (c), FULLTEXT KEY n (c));"},
	{"CREATE TABLE t (a INT, b INT, CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x), CONSTRAINT g FOREIGN KEY (b) REFERENCES p (x));", "CREATE TABLE t (a INT, b INT, CONSTRAINT h FOREIGN KEY (a) REFERENCES q (x), CONSTRAINT i FOREIGN KEY (b) REFERENCES p (x) ON DELETE CASCADE);"},
	{"CREATE TABLE t (a INT, b INT, c INT, KEY (a), KEY (b), KEY (a, b));", "CREATE TABLE t (a INT, b INT, c INT);"},
	{"CREATE TABLE t (a INT, KEY (a)); CREATE TABLE u (b INT, KEY (b)); CREATE TABLE v (b INT, KEY (b));", "CREATE TABLE t (a INT); CREATE TABLE u (b INT); CREATE TABLE v (b INT);"},
	{"CREATE TABLE t (a ENUM('p','q','r'), b SET('x','y','z')) ENGINE=InnoDB, DEFAULT CHARACTER SET utf8, COMMENT='c', AUTO_INCREMENT=3;", "CREATE TABLE t (a ENUM('r','q','p'), b SET('x','y')) COMMENT='d';"},
	{"CREATE TABLE t (c0 INT, c1 INT, c2 INT, c3 INT, c4 INT, c5 INT, c6 INT, c7 INT, c8 INT, c9 INT);", "CREATE TABLE t (c0 INT, d1 INT, d2 INT, d3 INT, d4 INT, d5 INT, d6 INT, d7 INT, d8 INT, d9 INT);"},
	{"CREATE TABLE a (i INT); CREATE TABLE b (i INT); CREATE TABLE c (i INT, KEY k (i), KEY l (i));", "CREATE TABLE c (i INT, j INT, KEY m (i)); CREATE TABLE a (i INT, h INT); CREATE TABLE b (g INT, i INT);"},
	{"CREATE TABLE p (x INT, PRIMARY KEY (x)); CREATE TABLE a (i INT, CONSTRAINT f FOREIGN KEY (i) REFERENCES p (x)); CREATE TABLE b (i INT, CONSTRAINT g FOREIGN KEY (i) REFERENCES p (x));", "CREATE TABLE q (x INT, PRIMARY KEY (x)); CREATE TABLE b (i INT, CONSTRAINT g FOREIGN KEY (i) REFERENCES q (x));"},
	{"CREATE TABLE t (a INT", "CREATE TABLE t (a INT);"},
	{"CREATE TABLE t (a INT);", "CREATE TABLE t (a INT) nonsense"},
}

func detStep(name string) func() string {
	f := strings.Split(name, "#")
	var n int
	fmt.Sscan(f[1], &n)
	p := schedPairs[n]
	switch f[0] {
	case "diff", "txn", "own", "back":
		return func() string {
			var b bytes.Buffer
			var o []diff.Option
			from, to := p[0], p[1]
			switch f[0] {
			case "txn":
				o = append(o, diff.WithTransaction(true))
			case "own":
				o = append(o, diff.WithParser(schemalex.New()))
			case "back":
				from, to = to, from
			}
			err := diff.Strings(&b, from, to, o...)
			return fmt.Sprintf("%s\n%v", b.String(), err)
		}
	case "text":
		return func() string {
			var o strings.Builder
			for _, text := range p {
				stmts, err := schemalex.New().ParseString(text)
				fmt.Fprintln(&o, dumpStmts(stmts), readAll(stmts), err)
				if err == nil {
					fmt.Fprintln(&o, format.SQL(&o, stmts, format.WithIndent(" ", 2)))
				}
				fmt.Fprintln(&o, lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(text)), &o))
			}
			return o.String()
		}
	}
	panic("reference builder: " + name)
}

func judgeSame(c *fw.Ctx, payload string) string {
	var k schedCase
	if err := json.Unmarshal([]byte(payload), &k); err != nil {
		panic(err)
	}
	quietRuntime()
	run := func(k schedCase) (string, string) {
		tend()
		var got string
		f := detStep(k.S)
		t := rt.Exec(k.prefix(), k.Seed, func() { got = f() })
		lastTrace = t
		c.Add("entries", int64(len(t.Entries)))
		if t.Bad&3 != 0 {
			c.Add("prefixes_not_followed", 1)
		}
		if !t.Done[0] {
			return "", "deadlock\n" + stacks()
		}
		if t.Stuck > 0 {
			return "", fmt.Sprintf("%d goroutines are left behind\n%s", t.Stuck, stacks())
		}
		return got, ""
	}
	want, ok := schedWant[k.S]
	if !ok {
		var bad string
		if want, bad = run(schedCase{S: k.S}); bad != "" {
			return bad
		}
		if again, bad := run(schedCase{S: k.S}); bad != "" || again != want {
			return fmt.Sprintf("executed twice in the same way: %s\nfirst:\n%s\nthen:\n%s", bad, want, again)
		}
		schedWant[k.S] = want
	}
	got, bad := run(k)
	if bad != "" {
		return bad
	}
	if got != want {
		return fmt.Sprintf("in the default order:\n%s\nin another order of the same maps, selects and goroutines:\n%s", want, got)
	}
	return ""
}

// batchTexts are many texts with everything that the language has.
func batchTexts(keywords bool) (o []string) {
	c := fw.NewCtx(&fw.Check{ID: "cold"}, os.TempDir())
	seen := map[string]bool{}
	f := func(text string) {
		if !seen[text] {
			seen[text] = true
			o = append(o, text)
		}
	}
	if keywords {
		keywordTexts(c, f)
	} else {
		baseTexts(c, f)
		valueTexts(c, f)
	}
	return o
}

// batchStep parses a text, and formats and diffs the result.
func batchStep(text string, all bool) string {
	var o strings.Builder
	stmts, err := schemalex.New().ParseString(text)
	fmt.Fprintln(&o, dumpStmts(stmts), err)
	if !all {
		return o.String()
	}
	if err == nil {
		fmt.Fprintln(&o, format.SQL(&o, stmts, format.WithIndent(" ", 2)))
		fmt.Fprintln(&o, diff.Statements(&o, nil, stmts))
	}
	fmt.Fprintln(&o, diff.Strings(&o, "CREATE TABLE t (q INT, z INT)", text, diff.WithTransaction(true)))
	return o.String()
}

// batchOrder has n numbers: a positive order goes in steps of that length,
// a negative one backwards.
func batchOrder(n, order int) (o []int) {
	step := order
	if step < 0 {
		step = -step
	}
	for i := 0; i < step; i++ {
		for k := i; k < n; k += step {
			o = append(o, k)
		}
	}
	if order < 0 {
		for i, k := 0, n-1; i < k; i, k = i+1, k-1 {
			o[i], o[k] = o[k], o[i]
		}
	}
	return o
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// batch is the main function of a process that goes through the texts, each
// twice in a row, and tells a hash of each result, or the text that it is to show.
func batch(keywords bool, order, show int) {
	quietRuntime()
	debug.SetGCPercent(800)
	texts := batchTexts(keywords)
	res := make([]string, len(texts))
	for _, i := range batchOrder(len(texts), order) {
		a := batchStep(texts[i], true)
		b := batchStep(texts[i], false)
		if i == show {
			fmt.Print(a)
			if !strings.HasPrefix(a, b) {
				fmt.Print("\nand then\n", b)
			}
			return
		}
		if !strings.HasPrefix(a, b) {
			res[i] = "twice"
		} else {
			res[i] = fmt.Sprintf("%x", hash64(a))
		}
	}
	if show < 0 {
		fmt.Print(strings.Join(res, " "))
	}
}

// judgeBatch goes through all texts of a kind in an order, in a process of its own:
// each result has to be that of the first order.
func judgeBatch(c *fw.Ctx, payload string) string {
	kind, order, _ := strings.Cut(payload, " ")
	if coldWant[kind] == "" {
		coldWant[kind] = coldCall("batch", kind, "1", "-1")
	}
	if order == "1" {
		return ""
	}
	got := coldCall("batch", kind, order, "-1")
	a, b := strings.Split(coldWant[kind], " "), strings.Split(got, " ")
	c.Add("batch_texts", int64(len(b)))
	for i := range a {
		if i >= len(b) || len(a) != len(b) {
			return fmt.Sprintf("the processes have %d and %d results: %.3000s", len(a), len(b), got)
		}
		if a[i] != b[i] || a[i] == "twice" {
			n := strconv.Itoa(i)
			return fmt.Sprintf("%q after others:\n%s\nafter the same ones in another order:\n%s", batchTexts(kind == "keywords")[i], coldCall("batch", kind, "1", n), coldCall("batch", kind, order, n))
		}
	}
	return ""
}

// judgeAround goes through the texts in a process with other surroundings: the payload has the
// variables of its environment, and what else is to differ.
func judgeAround(c *fw.Ctx, payload string) string {
	if aroundWant == "" {
		aroundWant, aroundAsked = around()
	}
	if payload == "" {
		c.Const("asked_variables", int64(len(aroundAsked)))
		for _, k := range aroundAsked {
			for _, v := range []string{"", "0", "1", "40", "true", "x"} {
				if what := judgeAround(c, k+"="+v); what != "" {
					return what
				}
			}
		}
		return ""
	}
	vars := strings.Split(payload, "\x01")
	got, _ := around(vars...)
	a, b := strings.Split(aroundWant, " "), strings.Split(got, " ")
	c.Add("batch_texts", int64(len(b)))
	for i := range a {
		if i >= len(b) || len(a) != len(b) {
			return fmt.Sprintf("%q: the processes have %d and %d results: %.3000s", vars, len(a), len(b), got)
		}
		if a[i] != b[i] {
			return fmt.Sprintf("%q: another result than without", batchTexts(false)[i]) + fmt.Sprintf(" %q", vars)
		}
	}
	return ""
}

var (
	aroundWant  string
	aroundAsked []string
)

func around(vars ...string) (res string, asked []string) {
	cmd := exec.Command(os.Args[0], "-cold", "batch", "values", "1", "-1")
	cmd.Env = append(os.Environ(), "VERIF_AROUND=1")
	var out bytes.Buffer
	cmd.Stdout = &out
	for _, v := range vars {
		if strings.HasPrefix(v, "DIR=") {
			cmd.Dir = v[4:]
		} else if v == "TERMINAL=" {
			cmd.Stdin, _ = os.Open("/dev/zero")
		} else {
			cmd.Env = append(cmd.Env, v)
		}
	}
	var errb bytes.Buffer
	cmd.Stderr = &errb
	if err := cmd.Run(); err != nil {
		return fmt.Sprintf("%v\n%s", err, errb.String()), nil
	}
	res, rest, _ := strings.Cut(out.String(), "\n")
	seen := map[string]bool{}
	for _, k := range strings.Fields(rest) {
		if !seen[k] && !strings.HasPrefix(k, "VERIF") && !strings.HasPrefix(k, "GO") && k != "TMPDIR" && k != "TZ" && k != "ZONEINFO" {
			seen[k] = true
			asked = append(asked, k)
		}
	}
	return res, asked
}

// surroundings differ from those of the checks.
var surroundings = []string{"", "VERIF_SHIFT=1", "VERIF_SHIFT=86399", "VERIF_SHIFT=400000000", "VERIF_SHIFT=1000000007", "VERIF_SEEDS=1", "VERIF_SEEDS=77777777777", "VERIF_SEEDS=18446744073709551615", "DIR=/", "DIR=/proc", "TERMINAL=", "GOMAXPROCS=1", "GOMAXPROCS=3", "GOGC=5", "GOGC=off", "TMPDIR=/nonexistent", "TZ=Asia/Tokyo",
	"LANG=tr_TR.UTF-8\x01LC_ALL=tr_TR.UTF-8\x01LANGUAGE=tr\x01TERM=dumb\x01COLUMNS=20\x01LINES=3\x01NO_COLOR=1\x01CI=true\x01DEBUG=1\x01VERBOSE=1\x01TRACE=1\x01USER=nobody\x01HOME=/nonexistent\x01SHELL=/bin/false\x01EDITOR=ed\x01HOSTNAME=h",
	"SCHEMALEX=1\x01SCHEMALEX_DEBUG=1\x01SCHEMALEX_INDENT=8\x01SCHEMALEX_TXN=1\x01SCHEMADIFF_OPTS=-t\x01SCHEMALINT_OPTS=-i=8\x01MYSQL_HOST=x\x01MYSQL_PWD=x\x01MYSQL_DATABASE=x\x01MYSQL_HOME=/\x01GIT_DIR=/\x01DATABASE_URL=mysql://x"}

// anyStep is a step by name: those of C20, or one of C04 with a number.
func anyStep(name string) step {
	if s := schedSteps[name]; s != nil {
		return s
	}
	f := detStep(name)
	return func(*env) string { return f() }
}

func historyEnv() *env { return newEnv(&scenario{texts: [2]string{schedA, schedB}, built: true, err: true, file: true}) }

// judgeSteps makes calls one after the other, on the same objects; each result
// has to be that of the call in a process of its own.
func judgeSteps(c *fw.Ctx, payload string) string {
	e := historyEnv()
	names := strings.Fields(payload)
	for i, n := range names {
		want, ok := coldWant[n]
		if !ok {
			want = coldCall("step", n)
			coldWant[n] = want
		}
		if got := anyStep(n)(e); got != want {
			return fmt.Sprintf("%s after %v:\n%s\nin a process of its own:\n%s", n, names[:i], got, want)
		}
	}
	return ""
}

func exploreSteps(c *fw.Ctx) {
	var short, all []string
	for n := range schedSteps {
		short = append(short, n)
	}
	sort.Strings(short)
	all = append(all, short...)
	for i := range schedPairs {
		for _, op := range []string{"diff", "txn", "own", "back", "text"} {
			all = append(all, fmt.Sprintf("%s#%d", op, i))
		}
	}
	for _, a := range all {
		for _, b := range all {
			if c.Mine() {
				c.Run("history", a+" "+b)
			}
		}
	}
	for _, a := range short {
		for _, b := range short {
			if !c.Mine() {
				continue
			}
			for _, d := range short {
				c.Run("history", a+" "+b+" "+d)
				if c.Thorough {
					for _, x := range short {
						c.Run("history", a+" "+b+" "+d+" "+x)
					}
				}
			}
		}
	}
}

func init() {
	fw.Register(&fw.Check{
		ID: "C20", Level: "model_checking",
		Rule:   "The code runs under a controlled scheduler inside of a changed Go runtime: one goroutine at a time, with a choice of the next one before every operation on a channel, mutex, pool or atomic, and whenever the running one blocks; also of the case of a select and the start of an iteration over a map. A case is a scenario (goroutines, each a sequence of calls, with a shared parser, shared models, a shared linter) with the deviations from the default choices. All cases up to the bound of deviations are executed; preemptions only where another goroutine has a conflicting operation later. Judged: results equal to those of the same call alone, all goroutines ended, and the race detector, which watches every execution. 'cold' executes in a process of its own.",
		Probes: map[string]fw.Probe{"schedule": judgeSched, "cold": judgeCold},
		Explore: func(c *fw.Ctx) {
			quietRuntime()
			var names []string
			var all []string
			for _, s := range []string{"parse", "parse2", "error", "eof", "illegal", "empty", "own", "format", "formatcol", "diff", "undiff", "strings", "lint", "read", "norm", "clone", "message", "uri", "file", "nofile"} {
				all = append(all, s)
			}
			for i, s := range all {
				for _, t := range all[i:] {
					names = append(names, s+"|"+t)
				}
			}
			names = append(names, "parse+parse2|error+parse", "error+error|parse", "parse|error|illegal", "parse|parse2|strings", "diff|undiff|read", "format|norm|clone", "strings+parse|lint+format", "eof+empty|illegal+parse")
			plain := names
			for i, s := range builtSteps {
				for _, t := range builtSteps[i:] {
					names = append(names, "built-"+s+"|built-"+t)
				}
			}
			c.Const("scenarios", int64(len(names)))
			for _, s := range names {
				if c.Mine() { // the very first execution of a process
					c.Run("cold", schedCase{S: s}.String())
				}
			}
			some := append(plain[:len(plain):len(plain)], "built-format|built-clone", "built-read|built-norm")
			if c.Thorough {
				some = names
			}
			for _, s := range some {
				exploreSched(c, "schedule", s, 0, 1, nil)
			}
			core := []string{"parse|parse", "error|error", "parse|error", "parse|strings", "format|format", "diff|diff", "lint|lint", "read|norm", "message|message", "error|message", "uri|uri", "file|file", "file|nofile"}
			for _, s := range core {
				exploreSched(c, "cold", s, 0, 1, nil)
			}
			for _, s := range []string{"empty|empty", "empty|eof", "eof|eof", "empty|error", "parse|error"} {
				exploreSched(c, "schedule", s, 0, 2, nil)
			}
			if c.Thorough {
				for _, s := range plain {
					exploreSched(c, "schedule", s, 0, 2, nil)
				}
				exploreSched(c, "schedule", "empty|empty", 0, 4, nil)
				exploreSched(c, "schedule", "empty|eof", 0, 3, nil)
				exploreSched(c, "schedule", "eof|eof", 0, 3, nil)
				for _, s := range names {
					exploreSched(c, "cold", s, 0, 1, nil)
				}
			}
		},
		Assumptions: []string{"Operations which the race detector finds ordered or apart commute, so only synchronization operations are points of choice.", "Functions of sync/atomic (not its types) are no points of choice.", "Deviation bound: see executions_with_n_deviations."},
	})
	fw.Register(&fw.Check{
		ID: "C04", Level: "model_checking", HangSecs: 60,
		Rule:   "The code runs under a controlled scheduler inside of a changed Go runtime in which every iteration over a map starts where the explorer says (all starting points of small maps, six of large ones), the hash function has a chosen seed, and ready cases of selects and runnable goroutines are chosen by the explorer. A case is an input and an operation (parse, format, lint, diff in both directions and with options) with the deviations from the default choices; all cases up to the bound of deviations are executed and have to give the output and error of the default execution. 'history' makes all sequences of two calls, and of three and (thorough) four of the shorter list, on the same objects: each result has to be that of the call in a process of its own. 'batch' parses, formats and diffs all texts of the transitions, keywords and values, each twice in a row, in a process of its own, in 7 (thorough: 129) orders: each text has to have the same results in all of them. 'around' goes through all texts of the transitions and values in a process with other surroundings: another time of day, other random numbers, directories, settings of the runtime and environments, and with every value of a list for every environment variable that the process asks for.",
		Probes: map[string]fw.Probe{"order": judgeSame, "history": judgeSteps, "batch": judgeBatch, "around": judgeAround},
		Explore: func(c *fw.Ctx) {
			quietRuntime()
			maps := func(k uint8) bool { return k == rt.Map }
			c.Const("inputs", int64(len(schedPairs)))
			exploreSteps(c)
			orders := []int{-1, 2, -7, 11, -101, 4001}
			for o := 3; c.Thorough && o < 64; o++ {
				orders = append(orders, o, -o)
			}
			for _, o := range orders {
				for _, kind := range []string{"values", "keywords"} {
					if c.Mine() && !c.Expired() && orders != nil {
						c.Run("batch", kind+" 1")
						if !c.Run("batch", kind+" "+strconv.Itoa(o)) {
							orders = nil
						}
					}
				}
			}
			for _, s := range surroundings {
				if c.Mine() && !c.Expired() {
					c.Run("around", s)
				}
			}
			for i := range schedPairs {
				for _, op := range []string{"diff", "txn", "own", "back", "text"} {
					name := fmt.Sprintf("%s#%d", op, i)
					exploreSched(c, "order", name, 0, 1, nil)
					for seed := uint64(1); seed < 6; seed++ {
						exploreSched(c, "order", name, seed, 1, maps)
					}
				}
			}
			for i := range schedPairs {
				for _, op := range []string{"diff", "back"} {
					exploreSched(c, "order", fmt.Sprintf("%s#%d", op, i), 0, 2, maps)
				}
			}
			if c.Thorough {
				for i := range schedPairs {
					exploreSched(c, "order", fmt.Sprintf("diff#%d", i), 3, 3, maps)
				}
			}
		},
		Assumptions: []string{"The order of an iteration over a map with up to eight elements is a rotation, as the runtime has it; larger maps are visited in six orders for each seed of the hash function."},
	})
}
