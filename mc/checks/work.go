package checks

// What is left behind: goroutines, effects on later calls, and the time it takes.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/schemalex/schemalex"

	"schemaverif/fw"
	"schemaverif/ref"
	"schemaverif/rt"
)

// leakCase is a text with deviations from the default schedule.
type leakCase struct {
	T string
	D [][2]int32 `json:",omitempty"`
}

func judgeLeak(c *fw.Ctx, payload string) string {
	var k leakCase
	if err := json.Unmarshal([]byte(payload), &k); err != nil {
		panic(err)
	}
	quietRuntime()
	tend()
	text := bytesOf(k.T)
	var stmts int
	var err error
	lastTrace = rt.Exec(schedCase{D: k.D}.prefix(), 0, func() {
		l, e := schemalex.New().ParseString(text)
		stmts, err = len(l), e
	})
	if lastTrace.Bad&3 != 0 {
		c.Add("prefixes_not_followed", 1)
	}
	if !lastTrace.Done[0] {
		return "the parser can not go on:\n" + stacks()
	}
	if lastTrace.Stuck > 0 {
		return fmt.Sprintf("%d goroutines are left behind\n%s", lastTrace.Stuck, stacks())
	}
	want, werr := parseImpl(text)
	if stmts != len(want) || fmt.Sprint(err) != fmt.Sprint(werr) {
		return fmt.Sprintf("%d statements, %v; on another schedule: %d statements, %v", stmts, err, len(want), werr)
	}
	return ""
}

// The payload is JSON, which has no bytes: bytes that are not valid UTF-8 are
// kept as code points from U+F700 on.
func textOf(s string) string {
	var b strings.Builder
	for i, r := range s {
		if r == 0xFFFD && s[i] != "\uFFFD"[0] {
			b.WriteRune(0xF700 + rune(s[i]))
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func bytesOf(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 0xF700 && r <= 0xF7FF {
			b.WriteByte(byte(r - 0xF700))
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func exploreLeaks(c *fw.Ctx) {
	run := func(text string, bound int) {
		k := leakCase{T: textOf(text)}
		pay := func() string { b, _ := json.Marshal(k); return string(b) }
		c.Add("schedules", 1)
		if !c.Run("leak", pay()) || lastTrace == nil {
			return
		}
		level := []node{newNode(lastTrace, nil, nil)}
		for b := 1; b <= bound; b++ {
			var next []node
			for _, n := range level {
				for x, i := range n.br {
					for alt := uint8(1); alt < n.ns[x]; alt++ {
						k.D = append(append([][2]int32{}, n.d...), [2]int32{i, int32(alt)})
						lastTrace = nil
						c.Add("schedules", 1)
						if c.Run("leak", pay()) && lastTrace != nil && b < bound {
							next = append(next, newNode(lastTrace, k.D, nil))
						}
					}
				}
			}
			level = next
		}
	}
	bound := 1
	if c.Thorough {
		bound = 2
	}
	m := newMachine()
	m.words(1, c.Mine, func(w []sym, from, to ref.State, ok bool) bool {
		text := render(w)
		if ok {
			run(text+rest(m, w, to), 0)
		} else if from != to || c.Thorough {
			run(text+rest(m, w, from), 1)
		} else {
			run(text+rest(m, w, from), 0)
		}
		return !c.Expired()
	})
	for _, text := range []string{schedA, schedB, "CREATE TABLE t (a INT COMMENT 'x /* -- \n', b INT); -- end\nDROP x; SET a = 1; CREATE DATABASE d /* ", "CREATE TABLE t (a INT), b INT, c INT, d INT, e INT, f INT)"} {
		for i := 0; i <= len(text); i++ {
			if !c.Mine() || c.Expired() {
				continue
			}
			run(text[:i], bound)
			for _, x := range []string{"\x00", "'", "\xff", ",,", "!", "((", " b b b b b b b b b b"} {
				run(text[:i]+x+text[i:], bound)
			}
		}
	}
}

// historyTexts are parsed one after the other in all orders.
var historyTexts = []string{
	"", ";", "CREATE TABLE t (a INT);", "CREATE TABLE t (a INT, b TEXT, PRIMARY KEY (a)) ENGINE=InnoDB;", "create table `q``r` (e enum('x','y'));", "CREATE DATABASE d;", "DROP TABLE x;",
	"CREATE TABLE t (a INT", "CREATE TABLE t (a INT COMMENT 'open", "CREATE TABLE t (a INT) /* open", "CREATE TABLE t (a INT,, b INT, c INT, d INT, e INT)", "CREATE TABLE t (a INT) ENGINE", "CREATE VIEW v", "\x00\x01", "CREATE TABLE t LIKE u;",
	"CREATE TABLE t (a DECIMAL(5,2) UNSIGNED ZEROFILL NOT NULL DEFAULT '1.00' COMMENT 'c', CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x) ON DELETE CASCADE);", "-- nothing", "# nothing\n\n\nCREATE TABLE x (y INT) nonsense nonsense nonsense",
}

func coldCall(args ...string) string {
	cmd := exec.Command(os.Args[0], append([]string{"-cold"}, args...)...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return fmt.Sprintf("%v\n%s", err, errb.String())
	}
	return out.String()
}

var coldWant = map[string]string{}

// judgeHistory parses texts one after the other; each result has to be that of
// the text in a process of its own. The payload is the mode and the numbers of the texts.
func judgeHistory(c *fw.Ctx, payload string) string {
	f := strings.Fields(payload)
	p := schemalex.New()
	for i, x := range f[1:] {
		var n int
		fmt.Sscan(x, &n)
		want, ok := coldWant[x]
		if !ok {
			want = coldCall("parse", x)
			coldWant[x] = want
		}
		if f[0] == "new" {
			p = schemalex.New()
		}
		if got := parseDump(p, historyTexts[n]); got != want {
			return fmt.Sprintf("text %d (%q) after %v: %s\nin a process of its own: %s", i, historyTexts[n], f[1:1+i], got, want)
		}
	}
	return ""
}

// judgeScale measures whether the time is proportional to the input. The
// payload is a begin, a unit, and an end; four times as many units must not take
// nine times as long, where that can be measured.
func judgeScale(c *fw.Ctx, payload string) string {
	f := strings.Split(payload, "\x01")
	cpu := func(n int) time.Duration {
		text := f[0] + strings.Repeat(f[1], n) + f[2]
		best := time.Hour
		for try := 0; try < 3; try++ {
			debug.FreeOSMemory()
			var a, b syscall.Rusage
			syscall.Getrusage(syscall.RUSAGE_SELF, &a)
			parseImpl(text)
			syscall.Getrusage(syscall.RUSAGE_SELF, &b)
			d := time.Duration(b.Utime.Nano() + b.Stime.Nano() - a.Utime.Nano() - a.Stime.Nano())
			if d < best {
				best = d
			}
			if n > 1<<12 && best < 700*time.Millisecond || best > 3*time.Second {
				break
			}
		}
		return best
	}
	last := time.Duration(0)
	for n := 1 << 11; n <= 1<<19; n *= 4 {
		d := cpu(n)
		if d < time.Millisecond {
			d = time.Millisecond
		}
		if d > 700*time.Millisecond { // do not go on
			if d > 9*last && last > 0 {
				return fmt.Sprintf("%d repetitions take %v, %d take %v of processor time", n/4, last, n, d)
			}
			return ""
		}
		if n == 1<<17 && d > 100*time.Millisecond && d < 9*last {
			return ""
		}
		last = d
	}
	return ""
}

func exploreWork(c *fw.Ctx) {
	for _, mode := range []string{"shared", "new"} {
		for i := range historyTexts {
			for j := range historyTexts {
				if !c.Mine() {
					continue
				}
				c.Run("history", fmt.Sprint(mode, " ", i, " ", j))
				for k := range historyTexts {
					if mode == "shared" || c.Thorough {
						c.Run("history", fmt.Sprint(mode, " ", i, " ", j, " ", k))
					}
				}
			}
		}
	}
	exploreLeaks(c)
}

func exploreScale(c *fw.Ctx) {
	for _, u := range [][3]string{
		{"", " ", "CREATE TABLE t (a INT)"}, {"", "\n", "!"}, {"CREATE TABLE t (a INT", "\n", ")"}, {"CREATE TABLE t (a INT", "\r\n", ");"}, {"CREATE TABLE t (a", " \n", " INT);"}, {"", ";", ""}, {"", "/**/", ""}, {"/*", "x\n", "*/"}, {"-- ", "y", ""}, {"", "-- x\n", ""}, {"", "#\n", "CREATE"},
		{"", "CREATE TABLE t (a INT);\n", ""}, {"", "CREATE TABLE t (a INT);", "!"}, {"CREATE TABLE t (a INT", ", b INT", ")"}, {"CREATE TABLE t (a INT", ", KEY (a)", ")"}, {"CREATE TABLE t (a INT", ", KEY (a)", ")!"},
		{"CREATE TABLE t (a ENUM ('x'", ",'y'", "))"}, {"CREATE TABLE t (a SET ('x'", ",'y'", "))"}, {"CREATE TABLE t (KEY (a", ",b", "))"}, {"CREATE TABLE t (FOREIGN KEY (a) REFERENCES p (b", ",b", "))"}, {"CREATE TABLE t (a INT)", " ENGINE=x", ""},
		{"CREATE TABLE t (a INT COMMENT '", "x", "')"}, {"CREATE TABLE t (a INT COMMENT '", "''", "')"}, {"CREATE TABLE t (a INT COMMENT '", "\\'", "')"}, {"CREATE TABLE t (a INT COMMENT '", "\n", "')"}, {"CREATE TABLE t (a INT COMMENT '", "é", ""}, {"CREATE TABLE `", "x", "` (a INT)"},
		{"CREATE TABLE ", "x", " (a INT)"}, {"CREATE TABLE t (a INT DEFAULT ", "1", ")"}, {"CREATE TABLE t (a INT(", "1", "))"}, {"DROP ", "x ", ""}, {"DROP ", "x ", "; !"}, {"", "DROP x;", ""}, {"", "\x00", ""}, {"", "!", ""}, {"", "(", ""}, {"'", "x", ""},
		{"", "CREATE DATABASE d;", ""}, {"", "CREATE TABLE a LIKE b;", ""}, {"SET a = ", "1,", ""},
	} {
		if c.Mine() {
			c.Run("scale", strings.Join(u[:], "\x01"))
		}
	}
}
