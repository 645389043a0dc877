// Package checks contains the explorations, one file for each group of properties.
package checks

import (
	"os"

	"schemaverif/fw"

	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/model"

	"schemaverif/ref"
)

// parseImpl runs the implementation.
func parseImpl(text string) (stmts model.Stmts, err error) {
	return schemalex.New().ParseString(text)
}

// canonImpl is what the implementation makes of the text.
func canonImpl(text string) (tabs []ref.Table, err error) {
	stmts, err := parseImpl(text)
	if err != nil {
		return nil, err
	}
	return ref.Canon(stmts)
}

// judgeAccept is the oracle for texts that are in the supported language: the
// implementation has to accept, and to return what the reference does.
func judgeAccept(text string) string {
	want, bad := ref.Parse(text)
	if bad != nil {
		return ""
	}
	got, err := canonImpl(text)
	if err != nil {
		return fmt.Sprintf("rejected: %v", err)
	}
	if w, g := ref.Show(want), ref.Show(got); w != g {
		return fmt.Sprintf("declared:\n%s\nparsed:\n%s", w, g)
	}
	return ""
}

// judgeReject is the oracle for texts outside of the language.
func judgeReject(text string) string {
	_, bad := ref.Parse(text)
	if bad == nil {
		return ""
	}
	got, err := canonImpl(text)
	if err == nil {
		return fmt.Sprintf("accepted, although %s %q at line %d column %d can not be there; parsed as:\n%s", bad.K, bad.Text, bad.Line, bad.Col, ref.Show(got))
	}
	return ""
}

// judgePosition checks where an error is reported.
func judgePosition(text string) string {
	_, bad := ref.Parse(text)
	if bad == nil {
		return ""
	}
	_, err := parseImpl(text)
	if err == nil {
		return "" // judgeReject's business
	}
	pe, ok := err.(schemalex.ParseError)
	if !ok {
		return fmt.Sprintf("not a ParseError: %T %v", err, err)
	}
	if pe.Line() != bad.Line || pe.Col() != bad.Col || pe.EOF() != (bad.K == "EOF") {
		return fmt.Sprintf("the offending element is %s %q at line %d column %d, reported: line %d column %d EOF %v (%v)",
			bad.K, bad.Text, bad.Line, bad.Col, pe.Line(), pe.Col(), pe.EOF(), err)
	}
	if pe.Message() == "" {
		return "no message"
	}
	s := pe.Error()
	if !strings.Contains(s, fmt.Sprintf("at line %d column %d", bad.Line, bad.Col)) || !strings.Contains(s, pe.Message()) {
		return "the text of the error does not show message and position: " + s
	}
	if strings.Contains(s, "(at EOF)") != (bad.K == "EOF") {
		return "the text of the error is wrong about EOF: " + s
	}
	// the excerpt ends right before the offending element, begins in the same line,
	// and has 40 bytes at most
	const mark = `" <---- AROUND HERE`
	i := strings.LastIndex(s, mark)
	if i < 0 {
		return "no excerpt: " + s
	}
	before := text[:bad.Pos]
	line := before[strings.LastIndexByte(before, '\n')+1:]
	want := line
	if len(want) > 40 {
		want = want[len(want)-40:]
	}
	// newlines at the very beginning and at the very end of the text may be shown
	lenient := before
	if len(lenient) > 40 {
		lenient = lenient[len(lenient)-40:]
	}
	ok = strings.HasSuffix(s[:i], "\n    \""+want)
	if !ok && (strings.LastIndexByte(before, '\n') == 0 || strings.LastIndexByte(text, '\n') == len(text)-1 || !utf8.ValidString(want)) {
		ok = strings.HasSuffix(s[:i], "\n    \""+lenient) || strings.HasSuffix(s[:i], want)
	}
	if !ok {
		return fmt.Sprintf("the excerpt is not the text before the offending element (%q): %q", want, s)
	}
	return ""
}

// judgeTotal checks that parsing ends with a result or a ParseError.
func judgeTotal(text string) string {
	stmts, err := parseImpl(text)
	if err != nil {
		if _, ok := err.(schemalex.ParseError); !ok {
			return fmt.Sprintf("not a ParseError: %T %v", err, err)
		}
		if stmts != nil {
			return "statements and an error"
		}
		_ = err.Error()
		return ""
	}
	for _, s := range stmts {
		if s == nil {
			return "a nil statement"
		}
		if t, ok := s.(model.Table); ok {
			_ = ref.CanonTable(t).String()
		}
		_ = s.ID()
	}
	return ""
}

// scratchDir is where files of a probe go.
func scratchDir(c *fw.Ctx) string {
	if c != nil && c.Dir != "" {
		return c.Dir
	}
	return os.TempDir()
}
