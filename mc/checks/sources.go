package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/schemalex/schemalex"

	"schemaverif/fw"
)

// C15: what a URI names, and what its source delivers.

// named is the reference's reading of a URI.
type named struct {
	kind string // "stdin", "file", "git", "refuse"; "either": not settled whether it is refused
	path string
	file string
	rev  string
	must bool // a source has to be returned, which delivers the contents if there are any
}

func decodePct(s string) (string, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			b = append(b, s[i])
			continue
		}
		if i+2 >= len(s) {
			return "", false
		}
		n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
		if err != nil || strings.ContainsAny(s[i+1:i+3], "+-_") {
			return "", false
		}
		b = append(b, byte(n))
		i += 2
	}
	return string(b), true
}

func schemeOf(s string) (scheme, rest string, ok bool) {
	for i := 0; i < len(s); i++ {
		c := s[i] | 0x20
		switch {
		case c >= 'a' && c <= 'z':
		case i > 0 && (s[i] >= '0' && s[i] <= '9' || s[i] == '+' || s[i] == '-' || s[i] == '.'):
		case i > 0 && s[i] == ':':
			return strings.ToLower(s[:i]), s[i+1:], true
		default:
			return "", s, false
		}
	}
	return "", s, false
}

func safeURI(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c|0x20 >= 'a' && c|0x20 <= 'z' || c >= '0' && c <= '9' || strings.IndexByte("-._~/%?=&:#+", c) >= 0) {
			return false
		}
	}
	return true
}

func readURI(uri string) (n named) {
	if uri == "-" {
		return named{kind: "stdin", must: true}
	}
	if strings.HasPrefix(uri, "mysql://") {
		return named{kind: "mysql"}
	}
	scheme, rest, ok := schemeOf(uri)
	if !ok && !strings.HasPrefix(uri, "//") {
		return named{kind: "file", path: uri, must: true}
	}
	if ok && scheme != "file" && scheme != "local-git" {
		return named{kind: "refuse"}
	}
	n.must = safeURI(rest)
	if i := strings.IndexByte(rest, '#'); i >= 0 {
		if _, ok := decodePct(rest[i+1:]); !ok || strings.Contains(rest[i+1:], "#") {
			n.must = false
		}
		rest = rest[:i]
	}
	rest, query, _ := strings.Cut(rest, "?")
	if strings.HasPrefix(rest, "//") {
		auth := rest[2:]
		rest = ""
		if i := strings.IndexByte(auth, '/'); i >= 0 {
			auth, rest = auth[:i], auth[i:]
		}
		switch h, _ := decodePct(auth); {
		case auth == "" || auth == "localhost":
		case h == "localhost" || strings.HasSuffix(auth, "@localhost") || strings.HasSuffix(auth, "@") || strings.HasPrefix(strings.ToLower(h), "localhost"):
			n.must = false
		default:
			return named{kind: "refuse"}
		}
	} else if !strings.HasPrefix(rest, "/") {
		n.must = false // a relative path: not settled
	}
	p, ok := decodePct(rest)
	if !ok {
		return named{kind: "nothing"}
	}
	n.path = p
	n.kind = "file"
	if scheme != "local-git" {
		return n
	}
	n.kind = "git"
	seen := map[string]bool{}
	for _, kv := range strings.Split(query, "&") {
		k, v, _ := strings.Cut(kv, "=")
		k, ok := decodePct(strings.ReplaceAll(k, "+", " "))
		v, ok2 := decodePct(strings.ReplaceAll(v, "+", " "))
		if !ok || !ok2 || strings.Contains(kv, ";") || seen[k] {
			n.must = false
			continue
		}
		seen[k] = true
		switch k {
		case "file":
			n.file = v
		case "commitish":
			n.rev = v
		}
	}
	return n
}

// the files of the scratch directory
var sourceFiles = map[string]string{
	"f": "CREATE TABLE f (a INT);\n", "A": "contents of A", "dir/f": "in dir", "a b": "blank", "a%20b": "percent", "é": "\xc3\xa9\xff\x00\r\n", "a?b": "question", "a#b": "hash", "-": "a file called dash", "file:": "", "x:y": "with a colon",
	"-dash": "option", "empty": "", "q'\"`": "quotes", "a\nb": "newline", "a+b": "plus", "a&b=c": "amp", "http": "h", "localhost/f": "not the host", "file": "named file", "mysql": "m", "%41": "percent 41", "~": "home", "big": strings.Repeat("0123456789\n", 20000),
}

// sourceTree creates the files and the repository, once for each process.
func sourceTree(c *fw.Ctx) (string, error) {
	dir := filepath.Join(scratchDir(c), "tree")
	os.Setenv("GIT_CONFIG_GLOBAL", "/dev/null")
	os.Setenv("GIT_CONFIG_NOSYSTEM", "1")
	os.Setenv("HOME", dir)
	if _, err := os.Stat(filepath.Join(dir, ".done")); err == nil {
		return dir, os.Chdir(dir)
	}
	for n, s := range sourceFiles {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return "", err
		}
		if err := os.WriteFile(p, []byte(s), 0644); err != nil {
			return "", err
		}
	}
	os.Symlink("f", filepath.Join(dir, "link"))
	os.Symlink("nowhere", filepath.Join(dir, "broken"))
	repo := filepath.Join(dir, "repo sitory")
	run := func(args ...string) error {
		cmd := exec.Command("git", append([]string{"-c", "user.name=x", "-c", "user.email=x@y", "-c", "core.autocrlf=false", "-c", "commit.gpgsign=false"}, args...)...)
		cmd.Dir = repo
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("git %v: %v %s", args, err, out)
		}
		return nil
	}
	if err := os.MkdirAll(repo, 0755); err != nil {
		return "", err
	}
	if err := run("init", "-q", "-b", "main", "."); err != nil {
		return "", err
	}
	for i, files := range gitHistory {
		for n, s := range files {
			p := filepath.Join(repo, n)
			os.MkdirAll(filepath.Dir(p), 0755)
			if err := os.WriteFile(p, []byte(s), 0644); err != nil {
				return "", err
			}
		}
		if err := run("add", "-A"); err != nil {
			return "", err
		}
		if err := run("commit", "-q", "-m", "c"+strconv.Itoa(i)); err != nil {
			return "", err
		}
		if err := run("tag", "v"+strconv.Itoa(i)); err != nil {
			return "", err
		}
	}
	if err := run("branch", "feature/x", "v0"); err != nil {
		return "", err
	}
	// another repository, with other contents of the same names
	other := filepath.Join(dir, "other")
	if err := exec.Command("git", "clone", "-q", "-c", "core.autocrlf=false", repo, other).Run(); err != nil {
		return "", err
	}
	repo = other
	for n := range gitHistory[0] {
		os.WriteFile(filepath.Join(repo, n), []byte("other repository"), 0644)
	}
	for _, args := range [][]string{{"commit", "-q", "-a", "-m", "other"}, {"tag", "-f", "v0"}, {"tag", "-f", "v1"}, {"tag", "nope"}} {
		if err := run(args...); err != nil {
			return "", err
		}
	}
	repo = filepath.Join(dir, "repo sitory")
	// the working tree differs from all of the commits
	for n := range gitHistory[0] {
		os.WriteFile(filepath.Join(repo, n), []byte("working tree"), 0644)
	}
	os.WriteFile(filepath.Join(repo, "untracked"), []byte("untracked"), 0644)
	if err := os.Symlink("repo sitory", filepath.Join(dir, "repo")); err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(dir, ".done"), nil, 0644); err != nil {
		return "", err
	}
	return dir, os.Chdir(dir)
}

var gitHistory = []map[string]string{
	{"f.sql": "CREATE TABLE one (a INT);\r\n", "d/g h.sql": "nested \x00\xff", "-x": "dash", "empty": "", "a:b": "colon", "a&b=c": "amp", "é": "e acute", "nonl": "no newline at the end", "p+q": "plus"},
	{"f.sql": "CREATE TABLE two (a INT);\n\n", "new": "only in the second"},
}

// gitExpected is the contents of a file in a commit.
func gitExpected(rev, file string) (string, bool) {
	n, ok := map[string]int{"v0": 0, "v1": 1, "HEAD": 1, "main": 1, "HEAD~1": 0, "HEAD^": 0, "feature/x": 0, "refs/tags/v0": 0, "main~1": 0}[rev]
	if !ok {
		return "", false
	}
	s, ok := gitHistory[n][file]
	if !ok && n == 1 {
		s, ok = gitHistory[0][file]
	}
	return s, ok
}

// try writes a schema and returns what arrived.
func trySource(s schemalex.SchemaSource) (string, error) {
	var b bytes.Buffer
	err := s.WriteSchema(&b)
	return b.String(), err
}

func sub(uri, dir string) string {
	return strings.NewReplacer("$D", dir, "$E", strings.ReplaceAll(dir, "/", "%2f")).Replace(uri)
}

func judgeURI(c *fw.Ctx, payload string) string {
	dir, err := sourceTree(c)
	if err != nil {
		return "machinery: " + err.Error()
	}
	uri := sub(payload, dir)
	want := readURI(uri)
	const input = "from stdin\x00\xff\n"
	old := os.Stdin
	r, w, _ := os.Pipe()
	os.Stdin = r
	w.WriteString(input)
	w.Close()
	defer func() { os.Stdin = old; r.Close() }()
	src, err := schemalex.NewSchemaSource(uri)
	if (src == nil) == (err == nil) {
		return fmt.Sprintf("%q: the source is %v, the error %v", uri, src, err)
	}
	if err != nil {
		if want.must {
			return fmt.Sprintf("%q is refused: %v", uri, err)
		}
		return ""
	}
	if want.kind == "refuse" {
		return fmt.Sprintf("%q is not refused, but taken for %T %q", uri, src, src)
	}
	got, err := trySource(src)
	exp, ok := "", false
	switch want.kind {
	case "stdin":
		exp, ok = input, true
	case "file":
		b, rerr := os.ReadFile(want.path)
		exp, ok = string(b), rerr == nil
	case "git":
		if p := filepath.Clean(want.path); p == dir+"/repo" || p == dir+"/repo sitory" {
			exp, ok = gitExpected(want.rev, want.file)
			if !ok && err == nil {
				return fmt.Sprintf("%q: %q has been delivered, but there is no such file", uri, got)
			}
		} else if err == nil && p != "." {
			return fmt.Sprintf("%q: %q has been delivered, but there is no repository", uri, got)
		} else {
			return ""
		}
	case "mysql":
		ok = false
	}
	if c != nil {
		c.Add("delivered", 1)
	}
	switch {
	case ok && err == nil && got == exp:
	case ok && err != nil && !want.must:
	case !ok && err != nil:
	default:
		return fmt.Sprintf("%q names %+v, its contents are %.100q (exists: %v); delivered: %.100q, error %v", uri, want, exp, ok, got, err)
	}
	if err != nil && got != "" && want.kind != "file" && want.kind != "stdin" {
		return fmt.Sprintf("%q: an error (%v), but %q has been written", uri, err, got)
	}
	return ""
}

// judgeGit calls the constructor for a git source directly.
func judgeGit(c *fw.Ctx, payload string) string {
	dir, err := sourceTree(c)
	if err != nil {
		return "machinery: " + err.Error()
	}
	f := strings.Split(payload, "\x01")
	got, err := trySource(schemalex.NewLocalGitSource(sub(f[0], dir), f[1], f[2]))
	exp, ok := gitExpected(f[2], f[1])
	if p := filepath.Clean(sub(f[0], dir)); p != dir+"/repo" && p != dir+"/repo sitory" && p != "repo" {
		ok = false
	}
	if ok != (err == nil) || ok && got != exp {
		return fmt.Sprintf("%q: delivered %q, error %v; the contents are %q (exists: %v)", f, got, err, exp, ok)
	}
	if err != nil && got != "" {
		return fmt.Sprintf("%q: an error (%v), but %q has been written", f, err, got)
	}
	return ""
}

// judgeGitEnv reads from a repository in an environment that says something
// about git: the contents are those that are asked for, or there is an error.
func judgeGitEnv(c *fw.Ctx, payload string) string {
	dir, err := sourceTree(c)
	if err != nil {
		return "machinery: " + err.Error()
	}
	f := strings.Split(payload, "\x01")
	for _, kv := range f[3:] {
		k, v, _ := strings.Cut(sub(kv, dir), "=")
		old, set := os.LookupEnv(k)
		os.Setenv(k, v)
		if set {
			defer os.Setenv(k, old)
		} else {
			defer os.Unsetenv(k)
		}
	}
	got, err := trySource(schemalex.NewLocalGitSource(sub(f[0], dir), f[1], f[2]))
	if err != nil {
		if got != "" {
			return fmt.Sprintf("%q: an error (%v), but %q has been written", f, err, got)
		}
		return ""
	}
	if exp, ok := gitExpected(f[2], f[1]); !ok || got != exp {
		return fmt.Sprintf("%q: delivered %q; the contents are %q (exists: %v)", f, got, exp, ok)
	}
	return ""
}

// judgeGitFault replaces the git command by one that fails after some output.
func judgeGitFault(c *fw.Ctx, payload string) string {
	dir, err := sourceTree(c)
	if err != nil {
		return "machinery: " + err.Error()
	}
	bin := filepath.Join(dir, "bin")
	os.MkdirAll(bin, 0755)
	var ft struct {
		Out, Err string
		End      string
	}
	if err := json.Unmarshal([]byte(payload), &ft); err != nil {
		return "machinery: " + err.Error()
	}
	os.WriteFile(filepath.Join(bin, "out"), []byte(ft.Out), 0644)
	os.WriteFile(filepath.Join(bin, "err"), []byte(ft.Err), 0644)
	script := "#!/bin/sh\n/bin/cat '" + bin + "/out'\n/bin/cat '" + bin + "/err' >&2\n" + ft.End + "\n"
	os.Remove(filepath.Join(bin, "git"))
	if ft.End != "none" {
		if err := os.WriteFile(filepath.Join(bin, "git"), []byte(script), 0755); err != nil {
			return "machinery: " + err.Error()
		}
	}
	old := os.Getenv("PATH")
	os.Setenv("PATH", bin)
	defer os.Setenv("PATH", old)
	got, err := trySource(schemalex.NewLocalGitSource(dir+"/repo", "f.sql", "HEAD"))
	if ft.End == "exit 0" {
		if err != nil || got != ft.Out {
			return fmt.Sprintf("git wrote %q, delivered: %q, error %v", ft.Out, got, err)
		}
		return ""
	}
	if err == nil || got != "" {
		return fmt.Sprintf("git wrote %q and failed (%s), delivered: %q, error %v", ft.Out, ft.End, got, err)
	}
	return ""
}

// chunkReader delivers given chunks.
type chunkReader struct {
	chunks []string
	eof    bool // together with the last chunk
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.chunks) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.chunks[0])
	if r.chunks[0] = r.chunks[0][n:]; r.chunks[0] == "" {
		r.chunks = r.chunks[1:]
	}
	if len(r.chunks) == 0 && r.eof {
		return n, io.EOF
	}
	return n, nil
}

func judgeChunks(c *fw.Ctx, payload string) string {
	l := strings.Split(payload, "\x01")
	text := strings.Join(l, "")
	for _, eof := range []bool{false, true} {
		got, err := trySource(schemalex.NewReaderSource(&chunkReader{append([]string{}, l...), eof}))
		if err != nil || got != text {
			return fmt.Sprintf("chunks %q: delivered %q, error %v", l, got, err)
		}
	}
	return ""
}

// judgeLarge delivers as many bytes as the payload says, from all kinds of sources.
func judgeLarge(c *fw.Ctx, payload string) string {
	dir, err := sourceTree(c)
	if err != nil {
		return "machinery: " + err.Error()
	}
	n, err := strconv.Atoi(payload)
	if err != nil {
		panic(err)
	}
	want := bytes.Repeat([]byte("0123456789abcde\n"), n/16+1)[:n]
	bin := filepath.Join(dir, "large")
	os.MkdirAll(bin, 0755)
	defer os.RemoveAll(bin)
	fn := filepath.Join(bin, "contents")
	if err := os.WriteFile(fn, want, 0644); err != nil {
		return "machinery: " + err.Error()
	}
	os.WriteFile(filepath.Join(bin, "git"), []byte("#!/bin/sh\nexec /bin/cat '"+fn+"'\n"), 0755)
	path := os.Getenv("PATH")
	os.Setenv("PATH", bin)
	defer os.Setenv("PATH", path)
	r, w, err := os.Pipe()
	if err != nil {
		return "machinery: " + err.Error()
	}
	stdin := os.Stdin
	os.Stdin = r
	defer func() { os.Stdin = stdin; r.Close() }()
	go func() {
		w.Write(want)
		w.Close()
	}()
	input, err := schemalex.NewSchemaSource("-")
	if err != nil {
		return err.Error()
	}
	uri, err := schemalex.NewSchemaSource("file://" + fn)
	if err != nil {
		return err.Error()
	}
	for i, s := range []schemalex.SchemaSource{input, schemalex.NewReaderSource(bytes.NewReader(want)), schemalex.NewReaderSource(&chunkReader{[]string{string(want[:n/2]), string(want[n/2:])}, true}), schemalex.NewLocalFileSource(fn), uri, schemalex.NewLocalGitSource(dir+"/repo", "f.sql", "HEAD")} {
		var b bytes.Buffer
		if err := s.WriteSchema(&b); err != nil || !bytes.Equal(b.Bytes(), want) {
			return fmt.Sprintf("source %d (%T) of %d bytes: %d bytes are delivered, error %v", i, s, n, b.Len(), err)
		}
	}
	return ""
}

// errSink is a writer which fails after some bytes.
type errSink struct{ left int }

func (w *errSink) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		return len(p), nil
	}
	n := w.left
	w.left = 0
	return n, io.ErrShortWrite
}

var histKinds = []string{"file", "path", "file:", "git", "local-git:", "git d/g h.sql", "git HEAD"}

// judgeMoving reads sources of one name again and again, while what the name stands for changes.
// Operations: r and q read the first and the second source of the name, w reads the first one into a
// writer that fails, and 0, 1, 2, 3 change what the name stands for (2: nothing; 3: contents as long
// and as old as those of 0).
func judgeMoving(c *fw.Ctx, payload string) string {
	before, what := left(), ""
	for try := 0; try < 3; try++ {
		if what = moving(c, payload); what != "" {
			return what
		}
		after := left()
		for i := 0; i < 100 && after[1] > before[1]; i++ {
			time.Sleep(time.Millisecond)
			after = left()
		}
		if after[0] <= before[0] && after[1] <= before[1] {
			return ""
		}
		what = fmt.Sprintf("%q: %d open files and %d goroutines before, %d and %d after it", payload, before[0], before[1], after[0], after[1])
		before = after
	}
	return what
}

// left counts open files and goroutines.
func left() (n [2]int) {
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	defer d.Close()
	l, err := d.Readdirnames(-1)
	if err != nil {
		panic(err)
	}
	return [2]int{len(l), runtime.NumGoroutine()}
}

func moving(c *fw.Ctx, payload string) string {
	dir, err := sourceTree(c)
	if err != nil {
		return "machinery: " + err.Error()
	}
	kind, ops, _ := strings.Cut(payload, "\x01")
	fn := filepath.Join(dir, "moving")
	repo := filepath.Join(dir, "moving repo")
	git := strings.Contains(kind, "git")
	var revs [2]string
	file := "f.sql"
	if kind == "git d/g h.sql" {
		file = "new"
	}
	rev := "moving"
	ref := filepath.Join(repo, ".git", "refs", "heads", "moving")
	if git {
		if _, err := os.Stat(repo); err != nil {
			if out, err := exec.Command("/bin/cp", "-a", filepath.Join(dir, "repo sitory"), repo).CombinedOutput(); err != nil {
				return "machinery: " + string(out)
			}
		}
		for i := range revs {
			b, err := os.ReadFile(filepath.Join(repo, ".git", "refs", "tags", "v"+strconv.Itoa(i)))
			if err != nil {
				return "machinery: " + err.Error()
			}
			revs[i] = string(b)
		}
		if kind == "git HEAD" {
			rev = "HEAD"
			if err := os.WriteFile(filepath.Join(repo, ".git", "HEAD"), []byte("ref: refs/heads/moving\n"), 0644); err != nil {
				return "machinery: " + err.Error()
			}
		}
	}
	texts := [4]string{"CREATE TABLE a (b INT);\n", "-- the second one, which is longer\nCREATE TABLE c (d INT);", "", "CREATE TABLE e (f INT);\n"}
	state := 2
	var set func(n int) error
	set = func(n int) error {
		state = n
		name, now := fn, texts[:]
		if git {
			name, now = ref, revs[:]
		}
		if n == 2 {
			if err := os.Remove(name); err != nil && !os.IsNotExist(err) {
				return err
			}
			return nil
		}
		if err := os.WriteFile(name, []byte(now[n]), 0644); err != nil {
			return err
		}
		return os.Chtimes(name, time.Unix(1e9, 0), time.Unix(1e9, 0))
	}
	mk := func() (schemalex.SchemaSource, error) {
		switch kind {
		case "file":
			return schemalex.NewLocalFileSource(fn), nil
		case "path":
			return schemalex.NewSchemaSource(fn)
		case "file:":
			return schemalex.NewSchemaSource("file://" + fn)
		case "local-git:":
			return schemalex.NewSchemaSource("local-git://" + strings.ReplaceAll(repo, " ", "%20") + "?file=" + file + "&commitish=" + rev)
		}
		return schemalex.NewLocalGitSource(repo, file, rev), nil
	}
	if err := set(0); err != nil {
		return "machinery: " + err.Error()
	}
	var src [2]schemalex.SchemaSource
	for i := range src {
		if src[i], err = mk(); err != nil {
			return fmt.Sprintf("%s: %v", kind, err)
		}
	}
	for i := 0; i < len(ops); i++ {
		if ops[i] >= '0' && ops[i] <= '3' {
			if err := set(int(ops[i] - '0')); err != nil {
				return "machinery: " + err.Error()
			}
			continue
		}
		want, ok := "", state != 2
		if ok {
			want = texts[state]
			if git {
				want, ok = gitExpected([]string{"v0", "v1"}[state], file)
			}
		}
		var got string
		var err error
		switch ops[i] {
		case 'w':
			if err = src[0].WriteSchema(&errSink{5}); err == nil {
				return fmt.Sprintf("%s: operation %d of %q: the writer fails, and there is no error", kind, i, ops)
			}
			continue
		case 'r':
			got, err = trySource(src[0])
		case 'q':
			got, err = trySource(src[1])
		}
		if ok != (err == nil) || ok && got != want {
			return fmt.Sprintf("%s: operation %d of %q delivers %q, error %v; the contents are %q (exist: %v)", kind, i, ops, got, err, want, ok)
		}
	}
	return ""
}

func judgeBytes(c *fw.Ctx, payload string) string {
	dir, err := sourceTree(c)
	if err != nil {
		return "machinery: " + err.Error()
	}
	fn := filepath.Join(dir, "bytes")
	if err := os.WriteFile(fn, []byte(payload), 0644); err != nil {
		return "machinery: " + err.Error()
	}
	got, err := trySource(schemalex.NewLocalFileSource(fn))
	if err != nil || got != payload {
		return fmt.Sprintf("file with %q: delivered %q, error %v", payload, got, err)
	}
	return ""
}

func init() {
	fw.Register(&fw.Check{ID: "C15", Level: "model_checking",
		Rule:   "All words of up to uri_depth elements over a list of URI fragments (schemes, separators, hosts, escapes, names of existing files) against a reference reading of URIs, on a scratch tree with files of all kinds of names and a repository; the product of repositories, revisions and files, escaped and not, as URI and directly, and in environments in which one or two variables say something about git; a git command that fails in every way after every amount of output; all splits of a stream into chunks; all byte strings up to a depth as file contents; contents of up to 64 MiB from every kind of source; all sequences of up to history_depth operations on two sources of one name: reading either of them, reading into a writer that fails, and changing or removing what the name stands for (also by something of the same length and age); no open file and no goroutine is left behind.",
		Probes: map[string]fw.Probe{"uri": judgeURI, "git": judgeGit, "gitfault": judgeGitFault, "gitenv": judgeGitEnv, "chunks": judgeChunks, "bytes": judgeBytes, "large": judgeLarge, "history": judgeMoving},
		Leveled: func(m *fw.Merged, cov map[string]interface{}) {
			cov["states"] = m.Counts["uris"]
			cov["transitions"] = m.Counts["evaluations"]
			cov["traces_validated_against_impl"] = m.Counts["evaluations"]
		},
		Assumptions: []string{"no MySQL server listens on the ports that DSNs without an address name"},
		Explore: func(c *fw.Ctx) {
			run := func(probe, p string) {
				if c.Mine() && !c.Expired() {
					c.Add("uris", 1)
					c.Run(probe, p)
					if c.Worker == 0 {
						c.Sample(p)
					}
				}
			}
			depth := 4 // elements
			if c.Thorough {
				depth = 5
			}
			c.Const("uri_depth", int64(depth))
			frag := []string{"file", "FILE", "http", "c", ":", "/", "//", "localhost", "host", "$D", "$E", "f", "A", "dir/f", "%41", "%2F", "%2", "%zz", "%", "?", "#", "@", "-", ".", "..", "~", "$HOME", "${HOME}", "*", "{f,A}", " ", "é", "\n", "+", "a b", "a%20b", "x:y", "1"}
			if c.Thorough {
				frag = append(frag, "[", "]", ";", "&", "=", "\\", "\x00", "\xff")
			}
			strs(frag, 0, depth, func(s string) { run("uri", s) })
			// longer ones behind a scheme
			for _, p := range []string{"file://", "file:", "File://localhost", "//", "file:///", "$D/", "file://$D/", "http://", "ftp:", "c:", "file2://", "git+file:"} {
				strs(frag, 0, depth-2, func(s string) { run("uri", p+s) })
			}
			var names []string
			for n := range sourceFiles {
				names = append(names, n)
			}
			sort.Strings(names)
			names = append(names, "link", "broken", "nothing", "dir", "", "dir/", "f/", "./f", "dir/../f", "/dev/null", "/proc/self/mem", "$D")
			for _, n := range names {
				esc := ""
				for i := 0; i < len(n); i++ {
					esc += fmt.Sprintf("%%%02X", n[i])
				}
				part := strings.NewReplacer("%", "%25", "?", "%3F", "#", "%23").Replace(n)
				for _, p := range []string{"", "./", "$D/", "file://$D/", "file:$D/", "file://localhost$D/", "FILE://$D/", "//localhost$D/", "//$D/", "file://otherhost$D/", "file://localhost:80$D/", "file://127.0.0.1$D/", "//host$D/", "https://$D/", "file://x@localhost$D/"} {
					for _, v := range []string{n, esc, part} {
						for _, x := range []string{"", "?a=b", "#f", "?", "#"} {
							run("uri", p+v+x)
						}
					}
				}
			}
			for _, u := range []string{"-", "mysql://", "mysql://x", "mysql:///", "mysql://user@tcp(127.0.0.1:1)/db", "mysql://:::", "MYSQL://x", "mysql:x", "mysql:/x", "mysql", "-x", "--", "- ", " -", "file://-", "", "/", ".", "local-git", "local-git:", "local-git://", "local-git:///", "Local-Git://$D/repo?file=f.sql&commitish=v0", "local-git:$D/repo?file=f.sql&commitish=v0", "local-git://localhost$D/repo?file=f.sql&commitish=v0", "local-git://host$D/repo?file=f.sql&commitish=v0", "local-git://$D/repo?commitish=v0&file=f.sql#x", "local-git://$D/repo?file=f.sql&commitish=v0&x=y", "local-git://$D/repo?File=f.sql&commitish=v0", "local-git://$D/repo?file=f.sql;commitish=v0", "git://$D/repo?file=f.sql&commitish=v0", "localgit://$D/repo?file=f.sql&commitish=v0"} {
				run("uri", u)
			}
			hist := 4
			if c.Thorough {
				hist = 6
			}
			c.Const("history_depth", int64(hist))
			for _, k := range histKinds {
				l := []string{"r", "q", "w", "0", "1", "2", "3"}
				if strings.Contains(k, "git") {
					l = l[:6]
				}
				strs(l, 1, hist, func(s string) {
					if strings.ContainsAny(s, "rqw") && strings.ContainsAny(s[len(s)-1:], "rqw") {
						run("history", k+"\x01"+s)
					}
				})
			}
			// repositories
			dirs := []string{"$D/repo", "$D/repo sitory", "$D/repo/", "$D", "$D/nothing", "$D/f"}
			revs := []string{"v0", "v1", "HEAD", "main", "HEAD~1", "HEAD^", "feature/x", "refs/tags/v0", "nope", "-v", "--output=x", "--", "HEAD:", "v0 ", "v0..v1"}
			files := []string{"f.sql", "d/g h.sql", "-x", "empty", "a:b", "a&b=c", "é", "nonl", "new", "p+q", "d", "", "untracked", "nope", "f.sql/", "../f.sql", "F.SQL", "f.sql\n"}
			for _, d := range dirs {
				for _, r := range revs {
					for _, f := range files {
						run("git", d+"\x01"+f+"\x01"+r)
						pct := func(s string) string {
							o := ""
							for i := 0; i < len(s); i++ {
								o += fmt.Sprintf("%%%02x", s[i])
							}
							return o
						}
						run("uri", "local-git://"+strings.ReplaceAll(d, " ", "%20")+"?file="+pct(f)+"&commitish="+pct(r))
						if safeURI(f) && safeURI(r) && !strings.ContainsAny(f+r, "&=+?#%") {
							run("uri", "local-git://"+strings.ReplaceAll(d, " ", "%20")+"?commitish="+r+"&file="+f)
						}
					}
				}
			}
			var env []string
			for _, v := range []string{"GIT_DIR", "GIT_COMMON_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_PREFIX", "GIT_NAMESPACE", "GIT_OBJECT_DIRECTORY", "GIT_ALTERNATE_OBJECT_DIRECTORIES", "GIT_GRAFT_FILE", "GIT_SHALLOW_FILE", "GIT_REPLACE_REF_BASE", "GIT_NO_REPLACE_OBJECTS", "GIT_IMPLICIT_WORK_TREE", "GIT_CEILING_DIRECTORIES", "GIT_DISCOVERY_ACROSS_FILESYSTEM", "GIT_LITERAL_PATHSPECS", "GIT_ICASE_PATHSPECS", "GIT_PAGER", "PAGER", "PWD", "LC_ALL", "HOME", "TMPDIR"} {
				for _, x := range []string{"", "$D/other/.git", "$D/other", "$D/other/.git/objects", "$D/other/.git/index", ".git", ".", "1", "refs/tags/"} {
					env = append(env, v+"="+x)
				}
			}
			for i, a := range env {
				for _, r := range []string{"v0", "v1", "HEAD", "nope"} {
					for _, f := range []string{"f.sql", "d/g h.sql", "new"} {
						run("gitenv", "$D/repo\x01"+f+"\x01"+r+"\x01"+a)
					}
				}
				for _, b := range env[:i] {
					if c.Thorough || strings.HasPrefix(b, "GIT_DIR=$D/other/") {
						run("gitenv", "$D/repo\x01f.sql\x01HEAD\x01"+a+"\x01"+b)
					}
				}
			}
			out := "CREATE TABLE t (a INT);\nCREATE TABLE u (a INT);"
			for k := 0; k <= len(out); k++ {
				for _, e := range []string{"exit 0", "exit 1", "exit 128", "kill -9 $$", "kill -13 $$"} {
					for _, s := range []string{"", "fatal: x"} {
						b, _ := json.Marshal(map[string]string{"Out": out[:k], "Err": s, "End": e})
						run("gitfault", string(b))
					}
				}
			}
			run("gitfault", `{"End":"none"}`)
			// chunks
			strs([]string{"a", "", "\x00", "bc\n", "\x01"}, 0, 5, func(s string) { run("chunks", s) })
			strs([]string{"a", "\x00", "\xff", "\r", "\n", "\x1a", "\xef\xbb\xbf"}, 0, 3, func(s string) { run("bytes", s) })
			for k := 0; k < 27; k++ {
				for _, d := range []int{-1, 0, 1} {
					if k < 24 || d > 0 {
						run("large", strconv.Itoa(1<<k+d))
					}
				}
			}
			for _, n := range []int{511, 512, 513, 4096, 32767, 32768, 32769, 65536, 1 << 20} {
				run("bytes", strings.Repeat("x\n", n/2+1)[:n])
			}
		}})
}
