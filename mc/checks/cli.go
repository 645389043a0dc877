package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/schemalex/schemalex/diff"

	"schemaverif/fw"
	"schemaverif/ref"
)

// C19: the commands.

// Limited limits the size of files, and executes a command.
func Limited(args []string) {
	n, _ := strconv.ParseUint(args[0], 10, 64)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
		os.Exit(99)
	}
	syscall.Exec(args[1], args[1:], os.Environ())
	os.Exit(99)
}

// cliCase is a run of a command.
type cliCase struct {
	Cmd    string
	Flags  []string
	Args   []string
	Stdin  string
	Stdout string // "": collected; "full", "closed", "broken", "file"
	Limit  int    // size of files, -1: no limit
}

const (
	cliA = "CREATE TABLE t (a INT);\n"
	cliB = "CREATE TABLE t (a INT, b TEXT NOT NULL);\nCREATE TABLE `u``` (x INT);\n"
)

var cliFiles = map[string]string{"a.sql": cliA, "b.sql": cliB, "bad.sql": "CREATE TABLE t (a INT", "empty.sql": "", "c d.sql": "CREATE TABLE t (b TEXT, KEY (b(3)))", "unnamed.sql": "CREATE TABLE t (a INT, KEY (a))", "quote.sql": "CREATE TABLE t (a INT) COMMENT='%s %d é'"}

// contents is what a source argument names; reading stdin uses it up.
func (k *cliCase) contents(arg, dir string, stdin *string) (string, bool) {
	if arg == "-" {
		s := *stdin
		*stdin = ""
		return s, true
	}
	n := readURI(arg)
	switch n.kind {
	case "file":
		p := n.path
		if !filepath.IsAbs(p) {
			p = filepath.Join(dir, p)
		}
		if n.path == "" {
			return "", false
		}
		b, err := os.ReadFile(p)
		return string(b), err == nil
	}
	return "", false
}

// options is the reference's reading of the flags, which end at the first other argument.
func (k *cliCase) options() (out string, txn bool, indent int, pos []string, ok bool) {
	txn, indent = true, 2
	l := append(append([]string{}, k.Flags...), k.Args...)
	for len(l) > 0 && len(l[0]) > 1 && l[0][0] == '-' {
		f := l[0]
		l = l[1:]
		if f == "--" {
			break
		}
		name, val, has := strings.Cut(strings.TrimPrefix(strings.TrimPrefix(f, "-"), "-"), "=")
		switch {
		case name == "t" && k.Cmd != "schemalint":
			if !has {
				val = "true"
			}
			b, err := strconv.ParseBool(val)
			if err != nil {
				return
			}
			txn = b
		case name == "o" || name == "i" && k.Cmd == "schemalint":
			if !has {
				if len(l) == 0 {
					return
				}
				val, l = l[0], l[1:]
			}
			if name == "o" {
				out = val
				continue
			}
			n, err := strconv.Atoi(val)
			if err != nil {
				return
			}
			indent = n
		default:
			return
		}
	}
	want := 2
	if k.Cmd == "schemalint" {
		want = 1
	}
	return out, txn, indent, l, len(l) == want
}

func (k *cliCase) expected(dir string) (string, bool) {
	_, txn, indent, pos, ok := k.options()
	if !ok {
		return "", false
	}
	stdin := k.Stdin
	var texts []string
	for _, a := range pos {
		s, ok := k.contents(a, dir, &stdin)
		if !ok {
			return "", false
		}
		if _, bad := ref.Parse(s); bad != nil {
			return "", false
		}
		texts = append(texts, s)
	}
	if k.Cmd == "schemalint" {
		o, err := lintText(texts[0], &indentOpt{" ", indent})
		return o, err == nil
	}
	o, err := diffText(texts[0], texts[1], diff.WithTransaction(txn))
	return o, err == nil
}

func judgeCLI(c *fw.Ctx, payload string) string {
	var k cliCase
	if err := json.Unmarshal([]byte(payload), &k); err != nil {
		return "machinery: " + err.Error()
	}
	dir, err := os.MkdirTemp(scratchDir(c), "cli")
	if err != nil {
		return "machinery: " + err.Error()
	}
	defer os.RemoveAll(dir)
	for n, s := range cliFiles {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0644); err != nil {
			return "machinery: " + err.Error()
		}
	}
	os.Mkdir(filepath.Join(dir, "dir"), 0755)
	os.WriteFile(filepath.Join(dir, "old.out"), []byte(strings.Repeat("old contents\n", 50)), 0644)
	os.Symlink("old.out", filepath.Join(dir, "link.out"))
	for i := range k.Args {
		k.Args[i] = strings.ReplaceAll(k.Args[i], "$D", dir)
	}
	for i := range k.Flags {
		k.Flags[i] = strings.ReplaceAll(k.Flags[i], "$D", dir)
	}
	want, ok := k.expected(dir) // before the run: it may overwrite its input
	out, _, _, _, right := k.options()
	toFile := out != ""
	outPath := out
	if toFile && !filepath.IsAbs(out) {
		outPath = filepath.Join(dir, out)
	}
	before := tree(dir)

	bin := filepath.Join(os.Getenv("VERIF_MC"), "bin", k.Cmd)
	args := append(append([]string{}, k.Flags...), k.Args...)
	var cmd *exec.Cmd
	if k.Limit >= 0 {
		self, _ := os.Executable()
		cmd = exec.Command(self, append([]string{"-limited", strconv.Itoa(k.Limit), bin}, args...)...)
	} else {
		cmd = exec.Command(bin, args...)
	}
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GIT_CONFIG_GLOBAL=/dev/null", "GIT_CONFIG_NOSYSTEM=1", "GIT_CEILING_DIRECTORIES=" + filepath.Dir(dir)}
	cmd.Stdin = strings.NewReader(k.Stdin)
	var stdout, stderr bytes.Buffer
	cmd.Stderr = &stderr
	writable := true // whether the result can be written completely
	sfile := filepath.Join(filepath.Dir(dir), filepath.Base(dir)+".stdout")
	defer os.Remove(sfile)
	var f, rd *os.File
	switch k.Stdout {
	case "":
		cmd.Stdout = &stdout
	case "full":
		f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	case "file":
		f, err = os.Create(sfile)
	case "broken":
		rd, f, err = os.Pipe()
		if err == nil {
			rd.Close()
		}
	case "closed": // not writable
		f, err = os.Open("/dev/null")
	}
	if err != nil {
		return "machinery: " + err.Error()
	}
	if f != nil {
		cmd.Stdout = f
	}
	if err := cmd.Start(); err != nil {
		return "machinery: " + err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(20 * time.Second):
		cmd.Process.Kill()
		<-done
		return "the command does not end: " + payload
	}
	if f != nil {
		f.Close()
	}
	code := cmd.ProcessState.ExitCode()
	if c != nil {
		c.Add("runs", 1)
	}
	got := stdout.String()
	if k.Stdout == "file" {
		b, _ := os.ReadFile(sfile)
		got = string(b)
	}
	n := len(want)
	switch {
	case !ok:
	case toFile:
		switch {
		case strings.HasPrefix(out, "/dev/full"):
			writable = n == 0
		case strings.HasPrefix(out, "/dev/"):
		case strings.HasSuffix(out, "/") || filepath.Base(out) == "dir" || strings.HasPrefix(out, "nodir/") || strings.HasPrefix(out, "a.sql/"):
			writable = false
		case k.Limit >= 0:
			writable = n <= k.Limit
		}
	default:
		switch k.Stdout {
		case "full", "broken", "closed":
			writable = n == 0
		case "file":
			writable = k.Limit < 0 || n <= k.Limit
		}
	}
	describe := func(what string) string {
		return fmt.Sprintf("%s: %s\nexit %d (%v), stdout %q, stderr %q, expected result %q (%v, writable %v)", payload, what, code, cmd.ProcessState, got, stderr.String(), want, ok, writable)
	}
	either := ok && n == 0 && (strings.HasPrefix(out, "/dev/full") || k.Stdout != "") // nothing is to be written
	if (code == 0) != (ok && writable) && !either {
		return describe("the exit status is wrong")
	}
	if code != 0 && stderr.Len() == 0 && k.Stdout != "broken" { // SIGPIPE kills it
		return describe("no message")
	}
	if code == 0 && stderr.Len() != 0 {
		return describe("a message in spite of success")
	}
	after := tree(dir)
	if toFile && ok {
		if writable && !strings.HasPrefix(out, "/dev/") {
			b, err := os.ReadFile(outPath)
			if err != nil || string(b) != want {
				return describe(fmt.Sprintf("the output file has %q, error %v", b, err))
			}
			if fi, err := os.Lstat(filepath.Join(dir, "link.out")); err != nil || fi.Mode()&os.ModeSymlink == 0 {
				return describe("the symbolic link has been replaced")
			}
		}
		if got != "" {
			return describe("there is output on stdout, too")
		}
		if k.Limit < 0 { // nothing else is touched
			rel, _ := filepath.Rel(dir, outPath)
			if out == "link.out" {
				rel = "old.out"
			}
			for n := range after {
				if n != rel && after[n] != before[n] {
					return describe(fmt.Sprintf("%s has been changed", n))
				}
			}
			for n := range before {
				if _, ok := after[n]; !ok {
					return describe(n + " has been removed")
				}
			}
		}
		return ""
	}
	for n := range after {
		if after[n] != before[n] {
			return describe(fmt.Sprintf("%s has been changed or created", n))
		}
	}
	if len(after) != len(before) {
		return describe("a file has been removed")
	}
	if ok && writable && k.Stdout != "full" && k.Stdout != "broken" && k.Stdout != "closed" && got != want {
		return describe("the result is not that of the library")
	}
	if ok && !writable && !strings.HasPrefix(want, got) {
		return describe("something else has been written")
	}
	if !ok && got != "" && !strings.Contains(got, "Examples:") {
		return describe("there is output although there is no result")
	}
	if !ok && got != "" && right { // only wrong arguments give the usage
		return describe("the usage is written although the arguments are right")
	}
	return ""
}

// tree lists the files with their contents.
func tree(dir string) map[string]string {
	o := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			o[rel] = string(b) + fi.Mode().String()
		} else if err == nil {
			o[rel] = fi.Mode().String()
		}
		return nil
	})
	return o
}

func init() {
	fw.Register(&fw.Check{ID: "C19", Level: "model_checking",
		Rule:   "The real commands, built from the working tree, with all pairs of sources of a list (files valid, invalid, empty, missing, directories, stdin, URIs good and bad), all option combinations, all kinds of standard output and output files (new, existing, links, one of the inputs, not writable, full devices), and a limit of the file size at every byte of the output; exit status, standard output, standard error and all files of the directory are compared with what the reference expects and the library returns.",
		Probes: map[string]fw.Probe{"run": judgeCLI},
		Leveled: func(m *fw.Merged, cov map[string]interface{}) {
			cov["states"] = m.Counts["runs"]
			cov["transitions"] = m.Counts["runs"]
			cov["traces_validated_against_impl"] = m.Counts["runs"]
		},
		Explore: func(c *fw.Ctx) {
			run := func(k cliCase) {
				if !c.Mine() || c.Expired() {
					return
				}
				b, _ := json.Marshal(k)
				c.Run("run", string(b))
				if c.Worker == 0 {
					c.Sample(string(b))
				}
			}
			srcs := []string{"a.sql", "b.sql", "bad.sql", "empty.sql", "unnamed.sql", "missing.sql", "dir", "-", "file://$D/a.sql", "http://x/a.sql"}
			if c.Thorough {
				srcs = append(srcs, "c d.sql", "quote.sql", "file://$D/c%20d.sql", "file://host/$D/a.sql", "local-git://$D?file=a.sql&commitish=HEAD", "mysql://::", "file://localhost$D/b.sql", "")
			}
			outs := [][]string{nil, {"-o", "new.out"}, {"-o", "old.out"}, {"-o=a.sql"}, {"-o", "dir"}, {"-o", "nodir/x"}, {"-o", "/dev/full"}}
			more := [][]string{{"-o", "b.sql"}, {"-o", "link.out"}, {"-o", "/dev/null"}, {"-o", "a.sql/x"}, {"-o", "$D/new.out"}, {"--o=old.out"}, {"-o", ""}, {"-o"}}
			if c.Thorough {
				outs = append(outs, more...)
			}
			txns := [][]string{nil, {"-t=false"}}
			for _, cmd := range []string{"schemadiff", "schemalex"} {
				for _, a := range srcs {
					for _, b := range srcs {
						for _, o := range outs {
							for _, t := range txns {
								run(cliCase{Cmd: cmd, Flags: append(append([]string{}, o...), t...), Args: []string{a, b}, Stdin: cliA, Limit: -1})
							}
						}
						for _, so := range []string{"full", "closed", "broken", "file"} {
							run(cliCase{Cmd: cmd, Args: []string{a, b}, Stdin: cliB, Stdout: so, Limit: -1})
							run(cliCase{Cmd: cmd, Flags: []string{"-o", "old.out"}, Args: []string{a, b}, Stdin: cliA, Stdout: so, Limit: -1})
						}
						run(cliCase{Cmd: cmd, Flags: []string{"-t=false"}, Args: []string{a, b}, Stdin: "CREATE", Limit: -1})
					}
				}
				// the order and the spelling of options
				for _, f := range append(append([][]string{}, more...), []string{"-t"}, []string{"-t=true"}, []string{"-t=0"}, []string{"-t=F"}, []string{"-t=maybe"}, []string{"--t=false"}, []string{"-x"}, []string{"-i", "2"}, []string{"-o", "new.out", "-t=0"}, []string{"-t=0", "-o", "new.out"}, []string{"-o", "new.out", "-o", "old.out"}, []string{"-t=false", "-t"}, []string{"-o"}) {
					for _, p := range [][]string{{"a.sql", "b.sql"}, {"b.sql", "a.sql"}, {"a.sql", "a.sql"}, {"a.sql", "bad.sql"}, {"missing.sql", "b.sql"}, {"a.sql"}, {}, {"a.sql", "b.sql", "a.sql"}, {"-", "-"}, {"a.sql", "-t"}, {"a.sql", "b.sql", "-t=false"}, {"", ""}, {"c d.sql", "quote.sql"}} {
						run(cliCase{Cmd: cmd, Flags: f, Args: p, Stdin: cliB, Limit: -1})
					}
				}
				// every byte
				for _, t := range txns {
					for n := 0; n <= 330; n++ {
						run(cliCase{Cmd: cmd, Flags: append([]string{"-o", "new.out"}, t...), Args: []string{"a.sql", "b.sql"}, Limit: n})
						run(cliCase{Cmd: cmd, Flags: t, Args: []string{"a.sql", "b.sql"}, Stdout: "file", Limit: n})
					}
				}
			}
			indents := [][]string{nil, {"-i", "4"}, {"-i=1"}}
			for _, a := range append(append([]string{}, srcs...), "c d.sql", "quote.sql") {
				for _, o := range append(append([][]string{}, outs...), more...) {
					for _, i := range indents {
						run(cliCase{Cmd: "schemalint", Flags: append(append([]string{}, o...), i...), Args: []string{a}, Stdin: cliA + "# x", Limit: -1})
						run(cliCase{Cmd: "schemalint", Flags: append(append([]string{}, i...), o...), Args: []string{a}, Stdin: "CREATE", Limit: -1})
					}
				}
				for _, so := range []string{"full", "closed", "broken", "file"} {
					run(cliCase{Cmd: "schemalint", Args: []string{a}, Stdin: cliB, Stdout: so, Limit: -1})
					run(cliCase{Cmd: "schemalint", Flags: []string{"-o", "old.out"}, Args: []string{a}, Stdin: cliA, Stdout: so, Limit: -1})
				}
			}
			for _, f := range [][]string{{"-i", "x"}, {"-i", "0"}, {"-i", "-3"}, {"-i", "8"}, {"-i"}, {"-t"}, {"-x"}, {"-i", "100000"}} {
				for _, p := range [][]string{{"a.sql"}, {}, {"a.sql", "b.sql"}, {"bad.sql"}, {"a.sql", "-i=3"}} {
					run(cliCase{Cmd: "schemalint", Flags: f, Args: p, Limit: -1})
				}
			}
			for n := 0; n <= 120; n++ {
				run(cliCase{Cmd: "schemalint", Flags: []string{"-o", "new.out"}, Args: []string{"b.sql"}, Limit: n})
				run(cliCase{Cmd: "schemalint", Args: []string{"b.sql"}, Stdout: "file", Limit: n})
			}
		}})
}
