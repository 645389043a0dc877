package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/model"

	"schemaverif/fw"
	"schemaverif/ref"
)

// C03: the diff of equivalent schemas is empty.

// schemaKey is equal for equivalent schemas, and for no others.
func schemaKey(text string) (string, bool) {
	ts, bad := ref.Parse(text)
	if bad != nil {
		return "", false
	}
	var o []string
	seen := map[string]bool{}
	for _, t := range ts {
		if seen[t.Name] {
			return "", false
		}
		seen[t.Name] = true
		cols := map[string]bool{}
		s := fmt.Sprintf("%q temp=%v ine=%v like=%s\n", t.Name, t.Temp, t.INE, t.Like)
		for _, c := range t.Cols {
			if cols[c.Name] {
				return "", false
			}
			cols[c.Name] = true
			s += c.String() + "\n"
		}
		s += strings.Join(foldIdx(t.Idx), "\n") + "\n"
		var opts []string
		for _, x := range t.Opts {
			opts = append(opts, x.String())
		}
		sort.Strings(opts)
		o = append(o, s+strings.Join(opts, "\n"))
	}
	sort.Strings(o)
	return strings.Join(o, "\n\n"), true
}

func judgeEqual(c *fw.Ctx, payload string) string {
	a, b, _ := strings.Cut(payload, pairSep)
	x, ok := schemaKey(a)
	y, ok2 := schemaKey(b)
	if !ok || !ok2 || x != y {
		return ""
	}
	for i, p := range [][2]string{{a, b}, {b, a}} {
		if i == 1 && a == b {
			break
		}
		text, err := diffText(p[0], p[1])
		if text != "" || err != nil {
			return fmt.Sprintf("equivalent schemas differ: %q, error %v\nfrom: %s\nto:   %s", text, err, p[0], p[1])
		}
	}
	return ""
}

// judgeVariants compares a schema with what the library makes of it, and with
// other ways to write it down.
func judgeVariants(c *fw.Ctx, payload string) string {
	stmts, err := parseImpl(payload)
	if err != nil {
		return ""
	}
	if _, ok := schemaKey(payload); !ok {
		return ""
	}
	check := func(what, v string) string {
		if c != nil {
			c.Add("variants", 1)
		}
		for _, p := range [][2]string{{payload, v}, {v, payload}} {
			text, err := diffText(p[0], p[1])
			if text != "" || err != nil {
				return fmt.Sprintf("%s differs: %q, error %v\nfrom: %s\nto:   %s", what, text, err, p[0], p[1])
			}
		}
		return ""
	}
	if s := check("the schema itself", payload); s != "" {
		return s
	}
	for _, in := range indents[:2] {
		var l []string
		for _, s := range stmts {
			t, err := fmtSQL(s, in)
			if err != nil {
				return "format: " + err.Error()
			}
			l = append(l, t)
		}
		if s := check("the formatted schema", strings.Join(l, ";\n")); s != "" {
			return s
		}
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		if s := check("the formatted schema in reverse", strings.Join(l, ";\n")+";"); s != "" {
			return s
		}
	}
	var buf, buf2 bytes.Buffer
	if err := diff.Statements(&buf, stmts, stmts); err != nil || buf.Len() > 0 {
		return fmt.Sprintf("the model differs from itself: %q, error %v", buf.String(), err)
	}
	again, _ := parseImpl(payload)
	if err := diff.Statements(&buf2, stmts, again); err != nil || buf2.Len() > 0 {
		return fmt.Sprintf("the model differs from an equal one: %q, error %v", buf2.String(), err)
	}
	ts, _ := ref.Parse(payload)
	if s := check("the normalized schema", ref.RenderAll(ts)); s != "" {
		return s
	}
	for i := range ts { // the indexes in reverse
		l := append([]ref.Idx{}, ts[i].Idx...)
		for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
			l[a], l[b] = l[b], l[a]
		}
		ts[i].Idx = l
	}
	rev := ref.RenderAll(ts)
	if k, ok := schemaKey(rev); ok {
		if k0, _ := schemaKey(payload); k == k0 {
			if s := check("the schema with its indexes in reverse", rev); s != "" {
				return s
			}
		}
	}
	return ""
}

// equivalents groups a universe of schemas.
func equivalents(thorough bool) map[string][]string {
	g := map[string][]string{}
	add := func(t string) {
		if k, ok := schemaKey(t); ok {
			h := string(k)
			g[h] = append(g[h], t)
		}
	}
	types := append(append([]string{}, catTypes...), "INT(11)", "INT(10)", "TINYINT(4)", "TINYINT(3)", "SMALLINT(6)", "SMALLINT(5)", "MEDIUMINT(9)", "MEDIUMINT(8)", "BIGINT(20)", "INTEGER(11)", "INTEGER(10)", "DECIMAL(10,0)", "NUMERIC(10,0)", "NUMERIC(6,2)", "DOUBLE(5,2)", "DECIMAL(10)")
	attrs := append(append([]string{}, catAttrs...), "DEFAULT 1", "DEFAULT '1'", "DEFAULT \"NULL\"", "DEFAULT -7", "DEFAULT 1e3", "COMMENT \"it's\"", "DEFAULT x", "DEFAULT 'TRUE'", "DEFAULT '1.0'", "DEFAULT current_timestamp", "DEFAULT '2.50'")
	for _, t := range types {
		add("CREATE TABLE t (a " + t + ")")
		for _, a := range attrs {
			add("CREATE TABLE t (a " + t + " " + a + ")")
			for _, b := range attrs {
				add("CREATE TABLE t (a " + t + " " + a + " " + b + ")")
				if thorough {
					for _, d := range attrs {
						add("CREATE TABLE t (a " + t + " " + a + " " + b + " " + d + ")")
					}
				}
			}
		}
	}
	// keys
	cols := []string{"", " UNIQUE", " UNIQUE KEY", " PRIMARY KEY", " KEY", " UNIQUE PRIMARY KEY", " PRIMARY KEY UNIQUE"}
	fields := []string{"PRIMARY KEY (a)", "CONSTRAINT PRIMARY KEY (a)", "CONSTRAINT c PRIMARY KEY (a)", "PRIMARY KEY n (a)", "PRIMARY KEY (a ASC)", "PRIMARY KEY (a) USING BTREE", "PRIMARY KEY USING BTREE (a)",
		"UNIQUE (a)", "UNIQUE KEY (a)", "UNIQUE INDEX (a)", "UNIQUE a (a)", "UNIQUE KEY a (a)", "UNIQUE INDEX `a` (`a`)", "UNIQUE KEY a (a ASC)", "CONSTRAINT a UNIQUE (a)", "CONSTRAINT UNIQUE KEY a (a)", "CONSTRAINT x UNIQUE KEY a (a)",
		"KEY a (a)", "INDEX a (a)", "KEY `a` (a ASC)", "KEY a (a DESC)", "KEY a (b)", "KEY a (a, b)", "INDEX a (a ASC, b)", "KEY a (a(3))", "KEY f (a)", "INDEX f (a)", "KEY f (a ASC)", "KEY f (a) USING BTREE",
		"CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x)", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x ASC)", "CONSTRAINT `f` FOREIGN KEY (`a`) REFERENCES `p` (`x`) ", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x) ON DELETE CASCADE", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x) ON UPDATE CASCADE ON DELETE CASCADE", "CONSTRAINT f FOREIGN KEY (a) REFERENCES p (x) ON DELETE CASCADE ON UPDATE CASCADE",
		"FULLTEXT (b)", "FULLTEXT KEY (b)", "FULLTEXT INDEX (b)", "SPATIAL (a)", "SPATIAL INDEX (a)"}
	for _, c := range cols {
		t := "CREATE TABLE t (a INT" + c + ", b TEXT"
		add(t + ")")
		for _, x := range fields {
			add(t + ", " + x + ")")
			for _, y := range fields {
				add(t + ", " + x + ", " + y + ")")
				if thorough {
					for _, z := range fields {
						add(t + ", " + x + ", " + y + ", " + z + ")")
					}
				} else {
					add("CREATE TABLE t (" + x + ", a INT" + c + ", " + y + ", b TEXT)")
				}
			}
		}
	}
	// statements: their order, and what is between them
	ordered([]string{"CREATE TABLE a (x INT)", "CREATE TABLE b (y INT)", "CREATE TABLE c LIKE a", "CREATE DATABASE d", "DROP TABLE a", "CREATE TABLE `b` (`y` INTEGER NULL)", "create table a (\nx int(11) default null)", ""}, 1, 4, func(l []string) {
		add(strings.Join(l, ";"))
		add(strings.Join(l, ";\n") + ";")
	})
	return g
}

func init() {
	fw.Register(&fw.Check{ID: "C03", Level: "model_checking",
		Rule:   "A universe of schema texts (types with synonyms and widths, all sequences of up to 2, thorough 3, attributes, all pairs, thorough triples, of key declarations inline and separate, statement orders) is grouped by the normal form of the reference; the real diff of every member of a group with the first ones of it is generated in both directions. Besides, every base text (all grammar transitions, all fragments) is compared with itself, with its formatted form, its normalized form, with tables and indexes in reverse order, and the variants of its layout; texts of all sizes likewise.",
		Probes: map[string]fw.Probe{"equal": judgeEqual, "variants": judgeVariants},
		Leveled: func(m *fw.Merged, cov map[string]interface{}) {
			cov["states"] = m.Consts["classes"]
			cov["transitions"] = m.Counts["pairs"] + m.Counts["variants"]
			cov["traces_validated_against_impl"] = m.Counts["evaluations"]
		},
		Explore: func(c *fw.Ctx) {
			baseTexts(c, func(text string) {
				if c.Expired() {
					return
				}
				c.Run("variants", text)
				if c.Worker == 0 {
					c.Sample(text)
				}
				n := 0
				layoutVariants(text, false, func(v string) {
					if n++; c.Thorough || n <= 60 {
						c.Add("pairs", 1)
						c.Run("equal", text+pairSep+v)
					}
				})
			})
			limit := 130
			if c.Thorough {
				limit = 2049
			}
			variants := func(text string) {
				if valid(text) {
					c.Run("variants", text)
				}
			}
			sizedTexts(c, limit, variants)
			valueTexts(c, variants)
			patternTexts(c, variants)
			g := equivalents(c.Thorough)
			var keys []string
			total := 0
			for k, l := range g {
				keys = append(keys, k)
				total += len(l)
			}
			sort.Strings(keys)
			c.Const("classes", int64(len(keys)))
			c.Const("universe", int64(total))
			for _, k := range keys {
				l := g[k]
				for i := range l {
					if c.Expired() {
						return
					}
					if !c.Mine() {
						continue
					}
					for j := 0; j < i && j < 6; j++ {
						c.Add("pairs", 1)
						c.Run("equal", l[i]+pairSep+l[j])
					}
				}
			}
		}})
}

// C05: statements, framing, entry points.

// statements splits a diff; every one is complete.
func statements(text string) ([]string, error) {
	l, err := ref.Split(text)
	var o []string
	for _, s := range l {
		var w []string
		for _, t := range s {
			w = append(w, t.Text)
		}
		o = append(o, strings.Join(w, " "))
	}
	return o, err
}

func judgeFrame(c *fw.Ctx, payload string) string {
	from, to, _ := strings.Cut(payload, pairSep)
	plain, perr := diffText(from, to, diff.WithTransaction(false))
	framed, ferr := diffText(from, to, diff.WithTransaction(true))
	def, derr := diffText(from, to)
	_, bad := ref.Parse(from)
	_, bad2 := ref.Parse(to)
	if bad != nil || bad2 != nil {
		if perr == nil || ferr == nil || derr == nil {
			return fmt.Sprintf("no error for an invalid schema: %v %v %v", perr, ferr, derr)
		}
	}
	if perr != nil || ferr != nil || derr != nil {
		if perr == nil || ferr == nil || derr == nil {
			return fmt.Sprintf("an error depends on the transactions: %v %v %v", perr, ferr, derr)
		}
		if plain+framed+def != "" {
			return fmt.Sprintf("an error (%v), although something has been written: %q %q %q", perr, plain, framed, def)
		}
		return ""
	}
	if def != plain {
		return fmt.Sprintf("the default differs from a diff without transactions: %q %q", def, plain)
	}
	l, err := statements(plain)
	if err != nil {
		return fmt.Sprintf("%v in %q", err, plain)
	}
	m, err := statements(framed)
	if err != nil {
		return fmt.Sprintf("%v in %q", err, framed)
	}
	if c != nil {
		c.Add("statements", int64(len(l)))
	}
	want := append(append([]string{"BEGIN", "SET FOREIGN_KEY_CHECKS = 0"}, l...), "SET FOREIGN_KEY_CHECKS = 1", "COMMIT")
	if strings.Join(want, ";\n") != strings.Join(m, ";\n") {
		return fmt.Sprintf("the framed diff is\n%s\nthe plain one is\n%s", framed, plain)
	}
	if strings.TrimSpace(plain) != "" && !strings.HasSuffix(plain, ";") || !strings.HasSuffix(framed, ";") {
		return fmt.Sprintf("the last statement is not terminated: %q %q", plain, framed)
	}
	for _, s := range l {
		w := strings.SplitN(s, " ", 3)
		if len(w) < 3 || w[0] != "DROP" && w[0] != "CREATE" && w[0] != "ALTER" || w[1] != "TABLE" && w[1] != "TEMPORARY" {
			return fmt.Sprintf("unexpected statement %q in %q", s, plain)
		}
	}
	return ""
}

// shortReader delivers one byte at a time
type shortReader struct{ s string }

func (r *shortReader) Read(p []byte) (int, error) {
	if r.s == "" || len(p) == 0 {
		return 0, io.EOF
	}
	p[0] = r.s[0]
	r.s = r.s[1:]
	return 1, nil
}

func judgeEntry(c *fw.Ctx, payload string) string {
	from, to, _ := strings.Cut(payload, pairSep)
	dir, err := os.MkdirTemp(scratchDir(c), "entry")
	if err != nil {
		return "machinery: " + err.Error()
	}
	defer os.RemoveAll(dir)
	f1, f2 := filepath.Join(dir, "from.sql"), filepath.Join(dir, "to.sql")
	if err := os.WriteFile(f1, []byte(from), 0644); err != nil {
		return "machinery: " + err.Error()
	}
	os.WriteFile(f2, []byte(to), 0644)
	s1, e1 := parseImpl(from)
	s2, e2 := parseImpl(to)
	for _, txn := range []bool{false, true} {
		opt := diff.WithTransaction(txn)
		want, werr := diffText(from, to, opt)
		p := schemalex.New()
		p2 := schemalex.New()
		p2.ParseString("CREATE TABLE (")
		p2.ParseString("CREATE TABLE other (z INT)")
		type entry struct {
			name string
			run  func(b *bytes.Buffer) error
		}
		entries := []entry{
			{"Strings with a parser", func(b *bytes.Buffer) error { return diff.Strings(b, from, to, opt, diff.WithParser(p)) }},
			{"Strings with a parser again", func(b *bytes.Buffer) error { return diff.Strings(b, from, to, diff.WithParser(p), opt) }},
			{"Strings with a used parser", func(b *bytes.Buffer) error { return diff.Strings(b, from, to, diff.WithParser(p2), opt) }},
			{"Strings with the last of two options", func(b *bytes.Buffer) error {
				return diff.Strings(b, from, to, diff.WithTransaction(!txn), opt)
			}},
			{"Files", func(b *bytes.Buffer) error { return diff.Files(b, f1, f2, opt) }},
			{"Files with a parser", func(b *bytes.Buffer) error { return diff.Files(b, f1, f2, opt, diff.WithParser(p)) }},
			{"Sources of readers", func(b *bytes.Buffer) error {
				return diff.Sources(b, schemalex.NewReaderSource(strings.NewReader(from)), schemalex.NewReaderSource(&shortReader{to}), opt)
			}},
			{"Sources of a file and a reader", func(b *bytes.Buffer) error {
				return diff.Sources(b, schemalex.NewLocalFileSource(f1), schemalex.NewReaderSource(&shortReader{to}), opt)
			}},
		}
		if from == to {
			entries = append(entries,
				entry{"Files with one path", func(b *bytes.Buffer) error { return diff.Files(b, f1, f1, opt) }},
				entry{"Sources with one source", func(b *bytes.Buffer) error {
					s := schemalex.NewLocalFileSource(f1)
					return diff.Sources(b, s, s, opt)
				}})
			if e1 == nil && e2 == nil {
				entries = append(entries, entry{"Statements with one list", func(b *bytes.Buffer) error { return diff.Statements(b, s1, s1, opt) }})
			}
		}
		if e1 == nil && e2 == nil {
			dump := func() string { return dumpStmts(s1) + "\x00" + dumpStmts(s2) }
			before := dump()
			entries = append(entries,
				entry{"Statements", func(b *bytes.Buffer) error { return diff.Statements(b, s1, s2, opt) }},
				entry{"Statements again", func(b *bytes.Buffer) error {
					if dump() != before {
						return fmt.Errorf("diff changed the models")
					}
					return diff.Statements(b, s1, s2, diff.WithParser(p), opt)
				}})
		}
		for _, e := range entries {
			var b bytes.Buffer
			err := e.run(&b)
			if c != nil {
				c.Add("entries", 1)
			}
			if b.String() != want || (err == nil) != (werr == nil) {
				return fmt.Sprintf("%s: %q, error %v; Strings: %q, error %v\nfrom: %s\nto:   %s", e.name, b.String(), err, want, werr, from, to)
			}
		}
	}
	return ""
}

func dumpStmts(l model.Stmts) string {
	o := ""
	for _, s := range l {
		if t, ok := s.(model.Table); ok {
			o += ref.CanonTable(t).String() + "\n"
		} else {
			o += s.ID() + "\n"
		}
	}
	return o
}

// entrySchemas are schemas for the comparison of the entry points.
var entrySchemas = []string{"", "CREATE TABLE t (a INT)", "CREATE TABLE t (a INT, b TEXT NOT NULL)", "CREATE TABLE t (b TEXT, PRIMARY KEY (b(3)))", "CREATE TABLE t (a INT, KEY (a))",
	"CREATE TABLE t (a INT);\nCREATE TABLE u (`x``y` INT)", "CREATE TABLE u (c ENUM('é','it''s'))", "CREATE TABLE u LIKE t; CREATE TABLE t (a INT)", "CREATE DATABASE d; DROP TABLE x;", "CREATE TABLE a (x INT); CREATE TABLE b (x INT); CREATE TABLE c (x INT, CONSTRAINT f FOREIGN KEY (x) REFERENCES a (x))",
	"CREATE TABLE", "CREATE TABLE t (a INT", "'", "nonsense", "CREATE TABLE t (a INT);;CREATE"}

func init() {
	fw.Register(&fw.Check{ID: "C05", Level: "model_checking",
		Rule:   "The pairs of schemas of C01: the real diff with, without and with default transactions is split into statements and compared. All pairs of a list of valid and invalid schemas through every entry point, option and parser reuse. Diffs to models that cannot be formatted, as a new table, column or index and as a changed one.",
		Probes: map[string]fw.Probe{"frame": judgeFrame, "entry": judgeEntry, "broken": judgeBrokenDiff},
		Leveled: func(m *fw.Merged, cov map[string]interface{}) {
			cov["states"] = m.Counts["pairs"]
			cov["transitions"] = m.Counts["statements"]
			cov["traces_validated_against_impl"] = m.Counts["evaluations"]
		},
		Explore: func(c *fw.Ctx) {
			exploreBroken(c)
			list := append([]string{}, entrySchemas...)
			for _, x := range []string{"'unclosed", "CREATE TABLE t (a INT DEFAULT)", "CREATE TABLE t (a BAD)", "CREATE TABLE t (a INT) ENGINE = ", "/* c */", "CREATE TABLE t (a INT, UNIQUE (a))", "CREATE TABLE t (a INT, CONSTRAINT u UNIQUE (a))"} {
				list = append(list, x)
			}
			for _, a := range list {
				for _, b := range list {
					if c.Mine() {
						c.Add("pairs", 1)
						c.Run("entry", a+pairSep+b)
						c.Run("frame", a+pairSep+b)
					}
				}
			}
			diffPairs(c, func(a, b string) {
				c.Run("frame", a+pairSep+b)
				if c.Worker == 0 {
					c.Sample(a + " => " + b)
				}
			})
		}})
}
