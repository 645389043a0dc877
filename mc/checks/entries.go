package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/schemalex/schemalex"

	"schemaverif/fw"
	"schemaverif/ref"
)

// Parse, ParseString and ParseFile make the same of a text, and what happens to
// the bytes or to the file afterwards does not matter.

func judgeParseEntries(c *fw.Ctx, payload string) string {
	want, werr := parseImpl(payload)
	show := func() string {
		if werr != nil {
			return werr.Error()
		}
		return dumpStmts(want)
	}
	first := show()
	fn := filepath.Join(scratchDir(c), "entry %s.sql")
	if err := os.WriteFile(fn, []byte(payload), 0644); err != nil {
		return "machinery: " + err.Error()
	}
	src := append(make([]byte, 0, 2*len(payload)+8), payload...)
	rest := src[len(src):cap(src)]
	p := schemalex.New()
	bs, berr := p.Parse(src)
	if string(src) != payload || strings.Trim(string(rest), "\x00") != "" {
		return "Parse changes the bytes it is given"
	}
	fs, ferr := p.ParseFile(fn)
	os.WriteFile(fn, []byte("something else"), 0644)
	for i := range src {
		src[i] = 'x'
	}
	if first != show() {
		return fmt.Sprintf("another parse changes the result from\n%s\nto\n%s", first, show())
	}
	if (berr == nil) != (werr == nil) || (ferr == nil) != (werr == nil) {
		return fmt.Sprintf("ParseString: error %v, Parse: error %v, ParseFile: error %v", werr, berr, ferr)
	}
	if werr == nil {
		if g := dumpStmts(bs); g != first {
			return fmt.Sprintf("ParseString:\n%s\nParse:\n%s", first, g)
		}
		if g := dumpStmts(fs); g != first {
			return fmt.Sprintf("ParseString:\n%s\nParseFile:\n%s", first, g)
		}
		return ""
	}
	we, ok := werr.(schemalex.ParseError)
	be, ok2 := berr.(schemalex.ParseError)
	fe, ok3 := ferr.(schemalex.ParseError)
	if !ok || !ok2 || !ok3 {
		return fmt.Sprintf("not all of these are parse errors: %T, %T, %T", werr, berr, ferr)
	}
	if bs != nil || fs != nil {
		return "statements and an error"
	}
	if we.File() != "" || be.File() != "" || fe.File() != fn {
		return fmt.Sprintf("the errors of ParseString, Parse and ParseFile name the files %q, %q and %q", we.File(), be.File(), fe.File())
	}
	if berr.Error() != first || ferr.Error() != strings.Replace(first, we.Message()+" at line", we.Message()+" in file "+fn+" at line", 1) {
		return fmt.Sprintf("ParseString: %s\nParse: %s\nParseFile: %s", first, berr, ferr)
	}
	for _, e := range []schemalex.ParseError{be, fe} {
		if e.Line() != we.Line() || e.Col() != we.Col() || e.EOF() != we.EOF() || e.Message() != we.Message() {
			return fmt.Sprintf("different errors: %v and %v", we, e)
		}
	}
	return ""
}

// judgeNoFile parses files that cannot be read.
func judgeNoFile(c *fw.Ctx, payload string) string {
	dir, err := os.MkdirTemp(scratchDir(c), "nofile")
	if err != nil {
		return "machinery: " + err.Error()
	}
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "f"), []byte("CREATE TABLE t (a INT);"), 0644)
	os.Symlink("loop", filepath.Join(dir, "loop"))
	fn := ""
	if payload != "" {
		fn = dir + "/" + payload
	}
	stmts, err := schemalex.New().ParseFile(fn)
	if payload == "f" {
		if err != nil || len(stmts) != 1 {
			return fmt.Sprintf("%d statements, error %v", len(stmts), err)
		}
		return ""
	}
	if err == nil || stmts != nil {
		return fmt.Sprintf("%q: %d statements, error %v", fn, len(stmts), err)
	}
	return ""
}

var noFiles = []string{"", "f", ".", "x", "f/", "f/x", "loop", "F", " f", "f ", "f\x00", "*", "%66"}

func exploreEntries(c *fw.Ctx, accepted bool) {
	if accepted {
		for _, n := range noFiles {
			if c.Mine() {
				c.Run("file", n)
			}
		}
	}
	exploreParsedTexts(c, accepted)
}

func exploreParsed(c *fw.Ctx) { exploreParsedTexts(c, true) }

func exploreParsedTexts(c *fw.Ctx, accepted bool) {
	run := func(text string) {
		if _, bad := ref.Parse(text); (bad == nil) == accepted && !c.Expired() {
			c.Add("entries", 1)
			c.Run("entries", text)
		}
	}
	depth := 1
	if c.Thorough {
		depth = 2
	}
	m := newMachine()
	m.words(depth, c.Mine, func(w []sym, from, to ref.State, ok bool) bool {
		text := render(w)
		if ok {
			run(text + rest(m, w, to))
		} else {
			run(text)
		}
		return !c.Expired()
	})
	sizedTexts(c, 129, run)
	sizedErrors(c, 66, run)
}
