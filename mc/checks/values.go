package checks

import (
	"strings"

	"schemaverif/fw"
	"schemaverif/ref"
)

// Names and values of all kinds in every place that takes one, and every way in
// which the names of a schema can coincide: nothing may depend on what a name
// or a value is, and objects of different kinds may have the same name.

// oddValues are spelled as they denote; quoting is up to the place.
var oddValues = func() (o []string) {
	o = []string{"a", "A", "aB", "Ab", "t", "T", "x", "ä", "é", "É", "ß", "ı", "日本語", "\U0001f600", "a\u0301", "\u00a0", "\u2028", "\ufeff", "\u200b", "1", "0", "01", "1a", "1e5", "-1", ".5", "1.50", "1e3", "0x1F", "", " ", "  ", " a", "a ", "a b", "a  b", "a.b", "a`b", "`", "``", "'", "''", "a'b", "\"", "a\"b",
		";", "a;b", ",", "a,b", "(", ")", "a(1)", "a(1", "a)", "#", "a#b", "-", "--", "-- ", "a-b", "/", "*", "/*", "*/", "/* a */", "%", "%s", "%d", "%%", "%!s(MISSING)", "$", "$1", "@", "!", "=", "a=b", "?", "&", "&&", "|", "||", "^", "~", "[", "]", "{", "}", "<", ">", "{{.}}", ":", "_", "a_", "_a", "__",
		"\n", "a\nb", "\r\n", "\t", "\x01", "\x00", "a\x00b", "\x7f", "\xff", "a\xffb", "\xc3", "\xed\xa0\x80", "tbl", "table#t", "table#", "tablecol#a", "tablecol#", "index#a", "none", "a.none", "NO ACTION", "SET NULL", "PRIMARY KEY", "NOT NULL", "AUTO_INCREMENT PRIMARY KEY", "DEFAULT NULL", "COMMENT 'x'", "BEGIN", "BEGIN;", "COMMIT;", "ALTER TABLE", "DROP TABLE `t`;", "; DROP TABLE t",
		"AFTER", "ADD", "CHANGE", "COLUMN", "SELECT", "FROM", "WHERE", "ORDER", "GROUP", "VALUES", "PARTITION", "UTF8", "utf8mb4", "InnoDB", "NOW()", "CURRENT_TIMESTAMP(3)", "CURRENT_TIMESTAMP()", "LOCALTIME", "TRUE ", "b'1'", "x'41'", "1 ", " 1", "+1", "1-", "1.", "1..2", "1,2", "Infinity", "NaN", "nil", "null ", "<nil>"}
	for _, k := range ref.Keywords {
		o = append(o, k, strings.ToLower(k))
	}
	return o
}()

// namePlaces take a name; # is where it goes, in backquotes.
var namePlaces = []string{"CREATE TABLE # (q INT)", "CREATE TABLE IF NOT EXISTS # (q INT PRIMARY KEY) ENGINE = x", "CREATE TABLE # LIKE u", "CREATE TABLE t LIKE #", "CREATE DATABASE #; CREATE TABLE t (q INT)",
	"CREATE TABLE t (# INT)", "CREATE TABLE t (q INT, # TEXT NOT NULL, r INT)", "CREATE TABLE t (# INT UNIQUE)", "CREATE TABLE t (# INT NOT NULL PRIMARY KEY, q INT)", "CREATE TABLE t (# VARCHAR(9), KEY k (#), UNIQUE (q, #(3) DESC))",
	"CREATE TABLE t (q INT, KEY # (q))", "CREATE TABLE t (q INT, UNIQUE KEY # USING HASH (q), KEY k (q))", "CREATE TABLE t (q INT, FULLTEXT KEY # (q))", "CREATE TABLE t (q INT, PRIMARY KEY # (q))", "CREATE TABLE t (q INT, FOREIGN KEY # (q) REFERENCES p (y))", "CREATE TABLE t (q INT, KEY k (#))", "CREATE TABLE t (q INT, PRIMARY KEY (#, q) USING BTREE)",
	"CREATE TABLE t (q INT, CONSTRAINT # FOREIGN KEY (q) REFERENCES p (y))", "CREATE TABLE t (q INT, CONSTRAINT # UNIQUE u (q))", "CREATE TABLE t (q INT, CONSTRAINT # PRIMARY KEY (q), KEY # (q))", "CREATE TABLE t (q INT, CONSTRAINT # FOREIGN KEY i (q) REFERENCES p (y), KEY # (q))", "CREATE TABLE t (CONSTRAINT f FOREIGN KEY (#) REFERENCES p (y))",
	"CREATE TABLE t (q INT, FOREIGN KEY (q) REFERENCES # (y))", "CREATE TABLE t (q INT, CONSTRAINT f FOREIGN KEY (q) REFERENCES p (#) ON DELETE CASCADE)", "CREATE TABLE t (q INT, FULLTEXT (q) WITH PARSER #)", "CREATE TABLE t (q TEXT CHARACTER SET #)", "CREATE TABLE t (q TEXT COLLATE # NOT NULL)",
	"CREATE TABLE t (q INT) ENGINE = #", "CREATE TABLE t (q INT) DEFAULT CHARSET #", "CREATE TABLE t (q INT) COLLATE = #, MAX_ROWS = 1", "CREATE TABLE #(q INT);CREATE TABLE `#x`(r INT);CREATE TABLE w LIKE #"}

// stringPlaces take a string; # is where it goes, in quotes.
var stringPlaces = []string{"CREATE TABLE t (q INT COMMENT #)", "CREATE TABLE t (q INT COMMENT # NOT NULL, r TEXT)", "CREATE TABLE t (q VARCHAR(9) DEFAULT #)", "CREATE TABLE t (q INT DEFAULT #)", "CREATE TABLE t (q DOUBLE NOT NULL DEFAULT # COMMENT 'x')", "CREATE TABLE t (q DECIMAL(5,2) DEFAULT #)", "CREATE TABLE t (q BOOL DEFAULT #)", "CREATE TABLE t (q BIT(3) DEFAULT #)", "CREATE TABLE t (q TIMESTAMP DEFAULT #)",
	"CREATE TABLE t (q DATE DEFAULT #)", "CREATE TABLE t (q YEAR DEFAULT #)", "CREATE TABLE t (q TEXT DEFAULT #)", "CREATE TABLE t (q BLOB DEFAULT #)", "CREATE TABLE t (q JSON DEFAULT #)", "CREATE TABLE t (q ENUM('x') DEFAULT #)", "CREATE TABLE t (q ENUM(#))", "CREATE TABLE t (q ENUM('x', #, 'y') NOT NULL)", "CREATE TABLE t (q SET(#, 'x'))", "CREATE TABLE t (q TEXT CHARACTER SET #)", "CREATE TABLE t (q TEXT COLLATE #)",
	"CREATE TABLE t (q INT) COMMENT = #", "CREATE TABLE t (q INT) CONNECTION # MAX_ROWS 1", "CREATE TABLE t (q INT) DATA DIRECTORY = #, INDEX DIRECTORY = #", "CREATE TABLE t (q INT) PASSWORD #", "DROP #; CREATE TABLE t (q INT)", "SET @x = #; CREATE TABLE t (q INT)"}

// barePlaces take a word without quotes.
var barePlaces = []string{"CREATE TABLE # (q INT)", "CREATE TABLE t (# INT)", "CREATE TABLE t (q INT DEFAULT #)", "CREATE TABLE t (q VARCHAR(9) DEFAULT #)", "CREATE TABLE t (q BOOL NOT NULL DEFAULT #)", "CREATE TABLE t (q TIMESTAMP DEFAULT #)", "CREATE TABLE t (q TIMESTAMP ON UPDATE #)", "CREATE TABLE t (q INT, KEY # (#))", "CREATE TABLE t (q INT(#))", "CREATE TABLE t (q CHAR(#))", "CREATE TABLE t (q DECIMAL(#))", "CREATE TABLE t (q DECIMAL(#,#))", "CREATE TABLE t (q FLOAT(#,2))",
	"CREATE TABLE t (q INT, KEY (q(#)))", "CREATE TABLE t (q INT, CONSTRAINT # FOREIGN KEY # (q) REFERENCES # (#))", "CREATE TABLE t (q INT) ENGINE #", "CREATE TABLE t (q INT) AUTO_INCREMENT = #", "CREATE TABLE t (q INT) CHECKSUM # MAX_ROWS = #", "CREATE TABLE t (q INT) PACK_KEYS = #", "CREATE TABLE t (q INT) INSERT_METHOD #", "CREATE TABLE t (q INT) ROW_FORMAT #", "CREATE TABLE t (q INT) STATS_PERSISTENT = #", "DROP #; CREATE TABLE t (q INT)"}

var bareValues = append([]string{"0", "00", "007", "1", "10", "255", "65535", "65536", "2147483648", "4294967295", "4294967296", "9223372036854775808", "18446744073709551616", "1.5", "1.50", "01.5", "1.", ".5", "0.0", "-1", "+1", "-0", "-.5", "+.5", "-1.5e3", "1e3", "1E3", "1e-3", "1.5E-10", "1e", "1e-", "0e0"}, oddValues...)

func quoted(v string) []string {
	sq := strings.ReplaceAll(v, "'", "''")
	dq := strings.ReplaceAll(v, `"`, `""`)
	return []string{"'" + sq + "'", `"` + dq + `"`}
}

// valueTexts calls f for every value in every place.
func valueTexts(c *fw.Ctx, f func(text string)) {
	put := func(place, v string) {
		c.Add("values", 1)
		f(strings.ReplaceAll(place, "#", v))
	}
	for _, v := range oddValues {
		for _, p := range namePlaces {
			if c.Mine() && !c.Expired() {
				put(strings.ReplaceAll(p, "`#x`", ref.Bq(v+"x")), ref.Bq(v))
			}
		}
		for _, p := range stringPlaces {
			if c.Mine() && !c.Expired() {
				for _, q := range quoted(v) {
					put(p, q)
				}
			}
		}
	}
	for _, v := range bareValues {
		for _, p := range barePlaces {
			if c.Mine() && !c.Expired() {
				put(p, v)
			}
		}
	}
}

// patternTexts calls f for every assignment of three names to the names of a
// schema.
func patternTexts(c *fw.Ctx, f func(text string)) {
	patterns(func(n []string) {
		if c.Mine() && !c.Expired() {
			c.Add("patterns", 1)
			f(patternSchema(n))
		}
	})
}

const patternNames = 9

func patternSchema(n []string) string {
	return "CREATE TABLE " + n[0] + " (" + n[1] + " INT UNIQUE, " + n[2] + " INT, KEY " + n[3] + " (" + n[2] + "), UNIQUE KEY " + n[4] + " (" + n[1] + ", " + n[2] + "), CONSTRAINT " + n[5] + " FOREIGN KEY " + n[6] + " (" + n[2] + ") REFERENCES " + n[7] + " (" + n[8] + ")); CREATE TABLE d LIKE " + n[7] + "; CREATE TABLE e (" + n[0] + " INT, KEY " + n[5] + " (" + n[0] + "))"
}

func patterns(f func(n []string)) {
	al := []string{"a", "b", "c"}
	n := make([]string, patternNames)
	var rec func(i int)
	rec = func(i int) {
		if i == patternNames {
			f(n)
			return
		}
		for _, x := range al {
			if i == 2 && x == n[1] { // two columns of one name
				continue
			}
			n[i] = x
			rec(i + 1)
		}
	}
	rec(0)
}

// valuePairs calls f for pairs of schemas that differ in a name or value, and
// for changes within schemas that have unusual names and values, and in which
// names coincide.
func valuePairs(c *fw.Ctx, f func(from, to string)) {
	run := func(a, b string) {
		if !c.Expired() && valid(a) && valid(b) {
			c.Add("pairs", 1)
			f(a, b)
		}
	}
	both := func(a, b string) { run(a, b); run(b, a) }
	// the places that diffs depend on; | separates the old and the new schema
	places := []string{"|CREATE TABLE # (q INT)", "CREATE TABLE # (q INT)|CREATE TABLE # (q INT, r TEXT, KEY (r))", "CREATE TABLE # (q INT)|CREATE TABLE ~ (q INT)", "CREATE TABLE t (q INT)|CREATE TABLE t (q INT, # INT)", "CREATE TABLE t (q INT)|CREATE TABLE t (# INT, q INT)", "CREATE TABLE t (q INT, # INT)|CREATE TABLE t (q INT, # INT, r INT, s INT)", "CREATE TABLE t (q INT, # INT)|CREATE TABLE t (q INT, # TEXT)", "CREATE TABLE t (q INT, # INT)|CREATE TABLE t (q INT, ~ INT)",
		"CREATE TABLE t (q INT)|CREATE TABLE t (q INT, KEY # (q))", "CREATE TABLE t (q INT, r INT, KEY # (q))|CREATE TABLE t (q INT, r INT, KEY # (r))", "CREATE TABLE t (q INT, UNIQUE KEY # (q))|CREATE TABLE t (q INT, KEY ~ (q))", "CREATE TABLE t (q INT, # INT)|CREATE TABLE t (q INT, # INT, KEY k (#, q))", "CREATE TABLE t (q INT)|CREATE TABLE t (# INT PRIMARY KEY, q INT)", "CREATE TABLE t (q INT, # INT)|CREATE TABLE t (q INT, # INT UNIQUE)",
		"CREATE TABLE t (q INT)|CREATE TABLE t (q INT, CONSTRAINT # FOREIGN KEY (q) REFERENCES p (y))", "CREATE TABLE t (q INT, KEY k (q), CONSTRAINT # FOREIGN KEY (q) REFERENCES p (y))|CREATE TABLE t (q INT, KEY k (q), CONSTRAINT # FOREIGN KEY (q) REFERENCES p (y) ON DELETE CASCADE)", "CREATE TABLE t (q INT, CONSTRAINT # FOREIGN KEY (q) REFERENCES p (y))|CREATE TABLE t (q INT, CONSTRAINT ~ FOREIGN KEY (q) REFERENCES p (y))", "CREATE TABLE t (q INT, r INT, CONSTRAINT # UNIQUE (q))|CREATE TABLE t (q INT, r INT, CONSTRAINT # UNIQUE (r))",
		"CREATE TABLE t (q INT)|CREATE TABLE t (q INT, CONSTRAINT f FOREIGN KEY (q) REFERENCES # (#))", "CREATE TABLE t (q INT, CONSTRAINT f FOREIGN KEY (q) REFERENCES # (y))|CREATE TABLE t (q INT, CONSTRAINT f FOREIGN KEY (q) REFERENCES ~ (y))", "CREATE TABLE t (q TEXT)|CREATE TABLE t (q TEXT CHARACTER SET #)", "CREATE TABLE t (q TEXT COLLATE #)|CREATE TABLE t (q TEXT COLLATE ~)", "CREATE TABLE # (q INT)|CREATE TABLE # (q INT); CREATE TABLE z LIKE #"}
	// two objects with similar names; what is not the name of a column may differ in case only
	two := []string{"CREATE TABLE # (q INT); CREATE TABLE ~ (q INT)|CREATE TABLE # (q INT); CREATE TABLE ~ (q INT, r INT)", "CREATE TABLE # (q INT)|CREATE TABLE # (q INT, s INT); CREATE TABLE ~ (q INT, r INT)", "CREATE TABLE # (q INT, s INT); CREATE TABLE z (q INT); CREATE TABLE ~ (q INT)|CREATE TABLE ~ (q TEXT); CREATE TABLE # (q INT); CREATE TABLE x LIKE #",
		"CREATE TABLE # (q INT, KEY # (q)); CREATE TABLE ~ (q INT, KEY # (q))|CREATE TABLE # (q INT, KEY ~ (q)); CREATE TABLE ~ (q INT, r INT, KEY # (q))", "CREATE TABLE # (q INT, CONSTRAINT # FOREIGN KEY (q) REFERENCES ~ (q)); CREATE TABLE ~ (q INT PRIMARY KEY)|CREATE TABLE # (q INT, CONSTRAINT ~ FOREIGN KEY (q) REFERENCES # (q)); CREATE TABLE ~ (q INT PRIMARY KEY)"}
	twoCols := []string{"CREATE TABLE t (# INT, ~ INT)|CREATE TABLE t (# INT, ~ TEXT)", "CREATE TABLE t (q INT)|CREATE TABLE t (~ INT, q INT, # INT, r INT)", "CREATE TABLE t (~ INT, q INT, # INT, r INT)|CREATE TABLE t (q INT, ~ INT)", "CREATE TABLE t (#  INT, ~ INT, KEY k (#))|CREATE TABLE t (# INT, ~ INT, KEY k (~))", "CREATE TABLE t (# INT, KEY k (#))|CREATE TABLE t (# INT, ~ INT, KEY k (#, ~(3) DESC))"}
	for i, v := range oddValues {
		if !c.Mine() {
			continue
		}
		done := map[string]bool{v: true}
		for _, w := range []string{strings.ToLower(v), strings.ToUpper(v), v + "#", "#" + v, v + v, v + " ", " " + v, v + "`", "`" + v + "`", oddValues[(i+1)%len(oddValues)]} {
			if done[w] {
				continue
			}
			done[w] = true
			put := func(p string) {
				p = strings.ReplaceAll(strings.ReplaceAll(p, "~", "\x1b"), "#", "\x1a")
				k := strings.Index(p, "|CREATE")
				name := strings.NewReplacer("\x1b", ref.Bq(w), "\x1a", ref.Bq(v))
				both(name.Replace(p[:k]), name.Replace(p[k+1:]))
			}
			for _, p := range two {
				put(p)
			}
			for _, p := range twoCols {
				if !strings.EqualFold(v, w) {
					put(p)
				}
			}
		}
	}
	for i, v := range oddValues {
		w := oddValues[(i+1)%len(oddValues)]
		if c.Mine() {
			for _, p := range places {
				p = strings.ReplaceAll(strings.ReplaceAll(p, "#", ref.Bq(v)), "~", "`~`")
				k := strings.Index(p, "|CREATE")
				both(strings.ReplaceAll(p[:k], "`~`", ref.Bq(w)), strings.ReplaceAll(p[k+1:], "`~`", ref.Bq(w)))
			}
		}
		for _, p := range stringPlaces {
			if c.Mine() {
				a, b := quoted(v), quoted(w)
				both(strings.ReplaceAll(p, "#", a[0]), strings.ReplaceAll(p, "#", b[0]))
				both("CREATE TABLE z (q INT)", strings.ReplaceAll(p, "#", a[1]))
				both(strings.ReplaceAll(strings.ReplaceAll(p, "#", a[0]), "(q ", "(p INT, q "), strings.ReplaceAll(strings.ReplaceAll(p, "#", a[0]), "(q ", "(q "))
			}
		}
	}
	for i, v := range bareValues {
		w := bareValues[(i+1)%len(bareValues)]
		for _, p := range barePlaces {
			if c.Mine() {
				both(strings.ReplaceAll(p, "#", v), strings.ReplaceAll(p, "#", w))
			}
		}
	}
	for _, al := range [][]string{{"a", "b", "c"}, {"a", "A", "b"}} {
		patterns(func(n []string) {
			if !c.Mine() {
				return
			}
			m := make([]string, len(n))
			for i := range n {
				m[i] = al[n[i][0]-'a']
			}
			s := patternSchema(m)
			for i := range n { // one name is another one
				for k, x := range al {
					if k > int(n[i][0]-'a') && (c.Thorough || i >= 3 || al[1] == "A" && k == 1) {
						old := m[i]
						m[i] = x
						both(s, patternSchema(m))
						m[i] = old
					}
				}
			}
			run("CREATE TABLE a (a INT)", s)
			run(s, "CREATE TABLE a ("+al[2]+" INT, "+al[0]+" INT, zz INT)")
		})
	}
}
