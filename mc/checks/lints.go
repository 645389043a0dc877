package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/lint"

	"schemaverif/fw"
	"schemaverif/ref"
)

// C18: the layout and the meaning of linted schemas.

func lintText(text string, in *indentOpt) (string, error) {
	var b bytes.Buffer
	var o []schemalex.Option
	if in != nil {
		o = append(o, lint.WithIndent(in.s, in.n))
	}
	err := lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(text)), &b, o...)
	return b.String(), err
}

var lintIndents = []*indentOpt{{" ", 2}, nil, {"\t", 1}, {" ", 4}, {" ", 1}}

// layoutOf checks the layout of a linted text: one blank line between the
// statements, a semicolon at the end of each, every definition on a line of its own.
func layoutOf(text, indent string, tables int) string {
	if tables == 0 {
		if text != "" {
			return "there is output without a statement"
		}
		return ""
	}
	toks := ref.Lex(text)
	depth, first, n := 0, true, 0
	gap := func(i int) string { // text before the token
		if i == 0 {
			return text[:toks[0].Pos]
		}
		return text[toks[i-1].Pos+len(toks[i-1].Text) : toks[i].Pos]
	}
	started := false // within the definitions
	header := false  // the "(" of the definitions has not been seen
	for i, t := range toks {
		g := gap(i)
		switch {
		case t.K == "EOF":
			if g != "" || i == 0 || toks[i-1].K != ";" {
				return fmt.Sprintf("the text does not end with the last semicolon, but with %q", g)
			}
		case first:
			want := "\n\n"
			if i == 0 {
				want = ""
			}
			if g != want {
				return fmt.Sprintf("%q before statement %d", g, n+1)
			}
			first, header = false, true
			n++
		case t.K == ";" && depth == 0:
			if g != "" {
				return fmt.Sprintf("%q before a semicolon", g)
			}
			first = true
		case started:
			if t.K == ")" && depth == 1 {
				if g != "\n" {
					return fmt.Sprintf("%q before the closing parenthesis", g)
				}
			} else if g != "\n"+indent {
				return fmt.Sprintf("%q before the definition that begins with %q", g, t.Text)
			}
			started = false
			if t.K == ")" {
				depth--
			}
		case t.K == "(":
			if header && depth == 0 {
				started, header = true, false
			}
			depth++
		case t.K == ")":
			if depth--; depth == 0 && g != "\n" {
				return fmt.Sprintf("%q before the closing parenthesis", g)
			}
		case t.K == "," && depth == 1:
			if g != "" {
				return fmt.Sprintf("%q before a comma", g)
			}
			started = true
		default:
			if strings.ContainsAny(g, "\n\r") {
				return fmt.Sprintf("a line break before %q, within a definition", t.Text)
			}
		}
	}
	if n != tables {
		return fmt.Sprintf("%d statements instead of %d", n, tables)
	}
	return ""
}

func judgeLint(c *fw.Ctx, payload string) string {
	want, bad := ref.Parse(payload)
	for k, in := range lintIndents {
		if k > 1 && c != nil && c.Light {
			break
		}
		if s := lintWith(payload, in, want, bad); s != "" {
			return s
		}
		if c != nil && bad == nil {
			c.Add("linted", 1)
		}
	}
	return ""
}

func lintWith(payload string, in *indentOpt, want []ref.Table, bad *ref.Tok) string {
	text, err := lintText(payload, in)
	if bad != nil {
		if err == nil {
			return "no error for an invalid schema"
		}
		if text != "" {
			return fmt.Sprintf("an error (%v), although something has been written: %q", err, text)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("lint: %v", err)
	}
	indent := ""
	if in != nil {
		n := in.n
		if n < 1 {
			n = 1
		}
		indent = strings.Repeat(in.s, n)
	}
	if s := layoutOf(text, indent, len(want)); s != "" {
		return fmt.Sprintf("indent %q: %s\nof: %s\nlinted: %s", indent, s, payload, text)
	}
	if s := expectTables("linted", text, want); s != "" {
		return s
	}
	again, err := lintText(text, in)
	if err != nil || again != text {
		return fmt.Sprintf("linting again changes\n%s\nto\n%s\n(error %v)", text, again, err)
	}
	return ""
}

// indentCase is a text with an indentation.
type indentCase struct {
	T, S string
	N    int
}

func judgeIndent(c *fw.Ctx, payload string) string {
	var k indentCase
	if err := json.Unmarshal([]byte(payload), &k); err != nil {
		panic(err)
	}
	want, bad := ref.Parse(k.T)
	return lintWith(k.T, &indentOpt{k.S, k.N}, want, bad)
}

// indentTexts have definitions of every kind.
var indentTexts = []string{
	"CREATE TABLE a (x INT)",
	"CREATE TABLE a (x ENUM('p','q') NOT NULL DEFAULT 'p' COMMENT 'a\tb', y DECIMAL(5,2), z SET('x', 'y')) ENGINE=InnoDB, COMMENT='c'; CREATE TEMPORARY TABLE IF NOT EXISTS b LIKE a; CREATE TABLE c (i INT, j INT, PRIMARY KEY (i, j), KEY (j), CONSTRAINT f FOREIGN KEY k (i, j) REFERENCES a (x, y) ON DELETE CASCADE)",
}

// A sequence of runs of one linter. The first byte is the option given to New,
// then there are two for each run: its input and its option.
var lintRuns = []string{"CREATE TABLE a (x INT, y INT); CREATE TABLE b (z INT, KEY (z))", "CREATE TABLE c (x INT)", "CREATE TABLE d (x INT); CREATE TABL e", "", "\x00unreadable", "\x00unwritable"}
var reuseIndents = []*indentOpt{nil, {" ", 2}, {"\t", 1}}

func judgeReuse(c *fw.Ctx, payload string) string {
	option := func(b byte) (o []schemalex.Option) {
		if in := reuseIndents[b]; in != nil {
			o = append(o, lint.WithIndent(in.s, in.n))
		}
		return o
	}
	l := lint.New(option(payload[0])...)
	for i := 1; i+1 < len(payload); i += 2 {
		text := lintRuns[payload[i]]
		in := reuseIndents[payload[i+1]]
		if in == nil {
			in = reuseIndents[payload[0]]
		}
		var src schemalex.SchemaSource = schemalex.NewReaderSource(strings.NewReader(text))
		w := &faultWriter{at: -1, call: -1}
		fails := payload[i] == 2
		switch text {
		case "\x00unreadable":
			src = schemalex.NewReaderSource(&faultReader{s: lintRuns[0], at: 50, err: errFault})
			fails = true
		case "\x00unwritable":
			src = schemalex.NewReaderSource(strings.NewReader(lintRuns[0]))
			w.at = 7
			fails = true
		}
		err := l.Run(context.Background(), src, w, option(payload[i+1])...)
		if fails {
			if err == nil {
				return fmt.Sprintf("run %d: no error", (i+1)/2)
			}
			if w.at < 0 && w.got.Len() > 0 {
				return fmt.Sprintf("run %d: %q is written in spite of the error %v", (i+1)/2, w.got.String(), err)
			}
			continue
		}
		want, err2 := lintText(text, in)
		if err != nil || err2 != nil || w.got.String() != want {
			return fmt.Sprintf("run %d of one linter gives\n%q (%v)\ninstead of\n%q (%v)", (i+1)/2, w.got.String(), err, want, err2)
		}
	}
	return ""
}

func init() {
	fw.Register(&fw.Check{ID: "C18", Level: "model_checking",
		Rule:   "Base texts for every transition of the grammar automaton and for every fragment (and pair of fragments) of the catalogs, every rejecting transition, sequences of up to 3 statements, all byte strings up to a depth in the quoted contexts, texts of all sizes (1025; thorough 65537); each is linted with several indentations, the layout of the result is checked element by element, it is parsed, compared and linted again. All sequences of up to 3 runs of one linter over 6 inputs (valid, invalid, unreadable, unwritable) and 3 options, given to the linter and to the run. 57 numbers of 8 kinds of white space as indentation.",
		Probes: map[string]fw.Probe{"lint": judgeLint, "reuse": judgeReuse, "indent": judgeIndent},
		Leveled: func(m *fw.Merged, cov map[string]interface{}) {
			cov["transitions"] = m.Counts["texts"]
			cov["traces_validated_against_impl"] = m.Counts["evaluations"]
		},
		Explore: func(c *fw.Ctx) {
			run := func(text string) {
				if c.Expired() {
					return
				}
				c.Add("texts", 1)
				c.Run("lint", text)
				if c.Worker == 0 {
					c.Sample(text)
				}
			}
			var steps []string
			for i := range lintRuns {
				for o := range reuseIndents {
					steps = append(steps, string([]byte{byte(i), byte(o)}))
				}
			}
			for _, o := range []string{"\x00", "\x01", "\x02"} {
				strs(steps, 1, 3, func(s string) {
					if c.Mine() {
						c.Run("reuse", o+s)
					}
				})
			}
			ns := []int{-2, 63, 64, 65, 80, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096}
			for n := -1; n <= 40; n++ {
				ns = append(ns, n)
			}
			for _, s := range []string{" ", "\t", "  ", " \t", "\t ", "", "    ", "            "} {
				for _, n := range ns {
					for _, t := range indentTexts {
						if c.Mine() {
							b, _ := json.Marshal(indentCase{t, s, n})
							c.Run("indent", string(b))
						}
					}
				}
			}
			baseTexts(c, run)
			m := newMachine()
			m.words(1, c.Mine, func(w []sym, from, to ref.State, ok bool) bool {
				if !ok {
					run(render(w))
				}
				return !c.Expired()
			})
			c.Light = !c.Thorough
			limit := 1025
			if c.Thorough {
				limit = 65537
			}
			sizedTexts(c, limit, run)
			sizedErrors(c, limit, run)
			valueTexts(c, run)
			patternTexts(c, run)
			structTexts(c, run)
			byteTexts(c, run)
		}})
}
