package checks

import (
	"strings"

	"schemaverif/fw"
	"schemaverif/ref"
)

// The grammar explorations (C07, C08, C09, C11): one enumeration, four oracles.

func textProbe(f func(string) string) fw.Probe {
	return func(c *fw.Ctx, payload string) string { return f(payload) }
}

// byteContexts are places where raw bytes are explored: the text before and after.
var byteContexts = []struct{ name, pre, post string }{
	{"file", "", ""},
	{"statement start", "", "CREATE TABLE t (a INT)"},
	{"statement end", "CREATE TABLE t (a INT)", ""},
	{"statement end 2", "CREATE TABLE t (a INT);", "CREATE TABLE u (b INT);"},
	{"table name", "CREATE TABLE ", " (a INT);"},
	{"backquoted", "CREATE TABLE `", "` (a INT);"},
	{"column end", "CREATE TABLE t (a INT", ", b INT)"},
	{"before type", "CREATE TABLE t (a", "INT)"},
	{"size", "CREATE TABLE t (a INT(", "))"},
	{"number", "CREATE TABLE t (a INT DEFAULT ", ")"},
	{"comment", "CREATE TABLE t (a INT COMMENT '", "')"},
	{"default", "CREATE TABLE t (a CHAR (1) DEFAULT \"", "\", b INT)"},
	{"enum", "CREATE TABLE t (a ENUM ('", "', 'x'))"},
	{"option", "CREATE TABLE t (a INT) COMMENT = '", "', ENGINE = x"},
	{"option value", "CREATE TABLE t (a INT) ENGINE =", ""},
	{"index", "CREATE TABLE t (a INT, KEY ", "(a))"},
	{"skipped", "DROP ", "; CREATE TABLE t (a INT)"},
	{"C comment", "CREATE /*", "*/ TABLE t (a INT)"},
	{"line comment", "CREATE -- ", "\n TABLE t (a INT)"},
	{"database", "CREATE DATABASE ", ";CREATE TABLE t (a INT)"},
}

var byteAlpha = []string{"'", "\"", "`", "\\", "a", "E", "0", "-", "+", ".", "/", "*", "#", " ", "\n", "\r", "\f", ";", "(", ")", ",", "=", "é", "\x00", "\xff", "_"}
var byteAlphaSmall = []string{"'", "\"", "`", "\\", "a", "7", "-", "/", "*", "#", " ", "\n", ";", ")", "é", "\x00"}

// grammarTexts enumerates the texts: f gets each, with whether it is accepted.
func grammarTexts(c *fw.Ctx, f func(text string, ok bool)) {
	m := newMachine()
	c.Const("states", int64(len(m.states)))
	c.Const("grammar_transitions", int64(m.trans))
	depth := 2
	if c.Thorough {
		depth = 3
	}
	c.Const("extension_depth", int64(depth))
	m.words(depth, c.Mine, func(w []sym, from, to ref.State, ok bool) bool {
		c.Add("transitions", 1)
		text := render(w)
		last := w[len(w)-1]
		if ok {
			f(text+rest(m, w, to), true)
		} else {
			f(text, false)
			if last.kind != "UNTERM" && last.kind != "EOF" {
				// the rest of the statement follows, as if the bad token were not there
				f(text+rest(m, w, from), false)
			}
		}
		return !c.Expired()
	})
}

// rest completes a text.
func rest(m *machine, w []sym, st ref.State) string {
	var b strings.Builder
	for i, s := range m.finish[st] {
		if s.kind != "EOF" {
			b.WriteByte(' ')
			b.WriteString(s.at(len(w) + i))
		}
	}
	return b.String()
}

func byteTexts(c *fw.Ctx, f func(text string)) {
	n, small := 3, 4
	if c.Thorough {
		n, small = 4, 5
	}
	c.Const("byte_depth", int64(n))
	for _, ctx := range byteContexts {
		for _, first := range append([]string{""}, byteAlpha...) {
			if !c.Mine() {
				continue
			}
			if first == "" {
				f(ctx.pre + ctx.post)
				continue
			}
			strs(byteAlpha, 0, n-1, func(s string) {
				if !c.Expired() {
					f(ctx.pre + first + s + ctx.post)
				}
			})
		}
		for _, first := range byteAlphaSmall {
			for _, second := range byteAlphaSmall {
				if !c.Mine() {
					continue
				}
				strs(byteAlphaSmall, small-2, small-2, func(s string) {
					if !c.Expired() {
						f(ctx.pre + first + second + s + ctx.post)
					}
				})
			}
		}
	}
}

// keywordTexts puts every word in the places where names and words can be, in
// several letter cases, and with something attached to it.
func keywordTexts(c *fw.Ctx, f func(text string)) {
	words := append(append([]string{}, ref.Keywords...), "abc", "x1", "a_b", "DUPLICATE", "BIGINTS", "INT4", "KEY_")
	for _, w := range words {
		if !c.Mine() {
			continue
		}
		l := strings.ToLower(w)
		for _, v := range []string{w, l, w[:1] + l[1:], l[:1] + w[1:], w + "s", w + "_", w + "9", w[:len(w)-1], "`" + w + "`", "`" + l + "`", "'" + w + "'", "\"" + l + "\""} {
			for _, ctx := range []string{"CREATE TABLE % (a INT)", "CREATE TABLE t (% INT)", "CREATE TABLE t (a %)", "CREATE TABLE t (a INT %)", "CREATE TABLE t (a INT DEFAULT %)", "CREATE TABLE t (a CHAR (3) % , b INT)",
				"CREATE TABLE t (a ENUM ('x') %)", "CREATE TABLE t (a INT, KEY % (a))", "CREATE TABLE t (a INT, KEY (%))", "CREATE TABLE t (a INT, KEY (a %))", "CREATE TABLE t (a INT, KEY (a) %)", "CREATE TABLE t (a INT, % KEY (a))", "CREATE TABLE t (a INT, % (a))",
				"CREATE TABLE t (a INT) %", "CREATE TABLE t (a INT) % = 1", "CREATE TABLE t (a INT) ENGINE %", "CREATE TABLE t (a INT) ROW_FORMAT = %", "CREATE TABLE t (a INT) DEFAULT % = u", "CREATE % t (a INT)", "% TABLE t (a INT)", "CREATE TABLE t LIKE %", "CREATE TABLE t % u", "CREATE DATABASE %", "%",
				"CREATE TABLE t (a TIMESTAMP ON UPDATE %)", "CREATE TABLE t (a TEXT CHARACTER SET %)", "CREATE TABLE t (a TEXT COLLATE %)", "CREATE TABLE t (FOREIGN KEY (a) REFERENCES % (b))", "CREATE TABLE t (FOREIGN KEY (a) REFERENCES u (b) ON DELETE %)", "CREATE TABLE t (FOREIGN KEY (a) REFERENCES u (b) MATCH %)", "CREATE TABLE t (FULLTEXT (a) WITH PARSER %)", "CREATE TABLE t (CONSTRAINT % UNIQUE (a))"} {
				f(strings.Replace(ctx, "%", v, 1))
			}
		}
	}
}

// editTexts takes accepted texts for every transition, and doubles, deletes
// and swaps parts of them, that are up to six elements long.
func editTexts(c *fw.Ctx, f func(text string)) {
	seen := map[string]bool{}
	edit := func(text string) {
		lexed := ref.Lex(text)
		toks := make([]string, len(lexed)-1)
		for i := range toks {
			toks[i] = lexed[i].Text
		}
		n := len(toks)
		try := func(parts ...[]string) {
			var l []string
			for _, p := range parts {
				l = append(l, p...)
			}
			v := strings.Join(l, " ")
			if !c.Expired() && !seen[v] {
				seen[v] = true
				f(v)
			}
		}
		for a := 0; a < n; a++ {
			for b := a + 1; b <= n && b <= a+6; b++ {
				try(toks[:b], toks[a:]) // double
				try(toks[:a], toks[b:]) // delete
				for d := b + 1; d <= n && d <= b+6 && (d == b+1 || b == a+1 || d-b == b-a); d++ {
					try(toks[:a], toks[b:d], toks[a:b], toks[d:]) // swap
				}
			}
		}
	}
	someTexts(c, false, edit)
	for _, text := range []string{
		"CREATE TABLE t (CONSTRAINT f FOREIGN KEY k (a, b) REFERENCES p (x, y) MATCH FULL ON DELETE CASCADE ON UPDATE SET NULL)",
		"CREATE TABLE t (FOREIGN KEY (a) REFERENCES p (x) ON UPDATE NO ACTION ON DELETE RESTRICT, b INT)",
		"CREATE TABLE t (a DECIMAL (5, 2) UNSIGNED ZEROFILL NOT NULL DEFAULT 1.5 AUTO_INCREMENT UNIQUE KEY PRIMARY KEY COMMENT 'c')",
		"CREATE TABLE t (a VARCHAR (9) BINARY CHARACTER SET u COLLATE v NULL DEFAULT 'd' COMMENT 'c')",
		"CREATE TABLE t (a TIMESTAMP (6) NOT NULL DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP, b SET ('x', 'y'))",
		"CREATE TABLE t (a INT, CONSTRAINT q PRIMARY KEY USING BTREE (a ASC, b (3) DESC), FULLTEXT INDEX i (a) WITH PARSER n, UNIQUE KEY j USING HASH (b))",
		"CREATE TEMPORARY TABLE IF NOT EXISTS t (a INT) DEFAULT CHARACTER SET = u, DEFAULT COLLATE = v ENGINE = x, COMMENT = 'c'; CREATE TABLE w LIKE t; CREATE DATABASE IF NOT EXISTS d",
	} {
		if c.Mine() {
			edit(text)
		}
	}
}

var wideChars = []string{"é", "€", "𝒳", "\u0301", "\ufeff", "\u2028", "\u0085", "\xff", "\xe2\x82", "\x00", "\t", "\r", "\v", "\f", "👩‍👧", "\ufffd", "a𝒳é€b"}

// wideTexts puts characters of all widths before the errors.
func wideTexts(c *fw.Ctx, f func(text string)) {
	m := newMachine()
	m.words(1, c.Mine, func(w []sym, from, to ref.State, ok bool) bool {
		if ok || c.Expired() {
			return !c.Expired()
		}
		text := render(w)
		lexed := ref.Lex(text)
		for k, x := range wideChars {
			if k > 2 && w[len(w)-1].kind != "NUMBER" && w[len(w)-1].kind != ";" && w[len(w)-1].kind != "EOF" {
				continue
			}
			toks := make([]string, len(lexed)-1)
			names := append([]string{}, toks...)
			for i := range toks {
				t := lexed[i]
				toks[i], names[i] = t.Text, t.Text
				switch t.K {
				case "IDENT", "BT":
					names[i] = "`" + x + "`"
				case "SQ":
					names[i] = "'" + x + "'"
				case "DQ":
					names[i] = "\"" + x + "\""
				}
			}
			f("/*" + x + "*/ " + text)
			f("-- " + x + "\n/* " + x + x + "*/" + text + " /*" + x + "*/")
			f(strings.Join(names, " "))
		}
		return true
	})
}

// chars are all bytes, and characters that some programs take for white space,
// quotes, digits, or the end of something.
var chars = func() (o []string) {
	for i := 0; i < 256; i++ {
		o = append(o, string([]byte{byte(i)}))
	}
	for _, r := range "\u0085\u00a0\u00ad\u00b4\u00aa\u00b2\u00e9\u00df\u0130\u0131\u017f\u0301\u037e\u0660\u0967\u1680\u180e\u2000\u2003\u200b\u200d\u200e\u2018\u2019\u201c\u201d\u2028\u2029\u202f\u205f\u2060\u2126\u212a\u2212\u2424\u3000\u3001\uff07\uff08\uff09\uff0c\uff1b\uff10\uff21\uff40\ufe64\ufeff\ufffd\ufffe\uffff\U0001d4b3\U0001f600\U0010ffff" {
		o = append(o, string(r))
	}
	return append(o, "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc3", "\xe2\x80", "\xf0\x9f\x98", "\r\n", "\n\r", "\x1a\n", "\x04", "\x00;", ";\x1a", ";\x00", "\\q", "\\.", "\nGO\n", "\n/\n", "\n.\n", "$$", "//", "\\g", "\\G", "DELIMITER ;;", "\nexit\n")
}()

// charTexts puts each of the characters into every gap, on both sides of every
// element, and within every name and string.
func charTexts(c *fw.Ctx, f func(text string)) {
	for _, text := range []string{
		"CREATE TABLE t ( a INT ( 3 ) NOT NULL DEFAULT -1 , `b` ENUM ( 'p' , \"q\" ) COMMENT 'x' , KEY k ( a ) ) ENGINE = x , COMMENT 'c' ; CREATE TABLE u ( d DECIMAL ( 5,2 ) DEFAULT 1.5 )",
		"DROP TABLE x ; CREATE TABLE t LIKE `u` ; SET NAMES 'y' ;",
		"/* c */ CREATE TABLE t ( a INT ) ; -- d\n # e\n CREATE DATABASE z ;",
	} {
		toks := strings.Split(text, " ")
		for _, x := range chars {
			if !c.Mine() || c.Expired() {
				continue
			}
			for i := 0; i <= len(toks); i++ {
				a, b := strings.Join(toks[:i], " "), strings.Join(toks[i:], " ")
				f(a + " " + x + " " + b)
				f(a + x + " " + b)
				f(a + " " + x + b)
				f(a + x + b)
				f(a + " " + x)
				f(a + x)
			}
			for i := 0; i < len(toks); i++ {
				if n := len(toks[i]); n > 2 && strings.ContainsAny(toks[i][:1], "'\"`") {
					a, b := strings.Join(toks[:i], " ")+" "+toks[i][:1], toks[i][n-1:]+" "+strings.Join(toks[i+1:], " ")
					f(a + x + b)
					f(a + "a" + x + b)
					f(a + x + "a" + b)
					f(a + x + x + b)
				}
			}
		}
	}
}

func init() {
	all := func(run func(c *fw.Ctx, text string, ok bool)) func(c *fw.Ctx) {
		return func(c *fw.Ctx) {
			g := func(text string) {
				_, bad := ref.Parse(text)
				run(c, text, bad == nil)
			}
			limit := 4097
			if c.Thorough {
				limit = 100001
			}
			if c.Check.ID == "C07" || c.Check.ID == "C09" {
				exploreEntries(c, c.Check.ID == "C07")
			}
			sizedTexts(c, limit, g)
			sizedErrors(c, limit, g)
			valueTexts(c, g)
			patternTexts(c, g)
			keywordTexts(c, g)
			structTexts(c, g)
			grammarTexts(c, func(text string, ok bool) {
				if _, bad := ref.Parse(text); (bad == nil) != ok {
					panic("MACHINERY: rendering of " + text)
				}
				run(c, text, ok)
			})
			editTexts(c, g)
			wideTexts(c, g)
			charTexts(c, g)
			byteTexts(c, g)
		}
	}
	std := func(m *fw.Merged, cov map[string]interface{}) {
		cov["traces_validated_against_impl"] = m.Counts["evaluations"]
	}
	rule := "The grammar is an explicit automaton (states, grammar_transitions). Every state is reached by its shortest access, and every word of up to extension_depth symbols over the whole alphabet follows it (pruned after the first unacceptable one), completed to a whole text; in addition, every byte string up to byte_depth in 20 lexical contexts, every word in 32 places and 12 spellings; texts for every transition in which parts of up to six elements are doubled, deleted and swapped; characters of all widths before every error; every byte, and characters that some programs take for something else, in every gap of three texts, beside every element, and within every name and string; and repetitions (of 20 kinds of elements, within 38 names and values, of 20 fillers) of all sizes up to 69 and around the powers of two and ten up to 4096 (thorough: 100000), complete and cut off. Each text is executed on the real parser and compared with the reference."
	assume := []string{"the reference grammar (mc/ref) is the language the parser supports, as documented in DESIGN.md"}
	fw.Register(&fw.Check{ID: "C07", Level: "model_checking", Rule: rule + " C07 evaluates the accepted ones.", Assumptions: assume, Leveled: std,
		Probes: map[string]fw.Probe{"accept": textProbe(judgeAccept), "entries": judgeParseEntries, "file": judgeNoFile},
		Explore: all(func(c *fw.Ctx, text string, ok bool) {
			if ok {
				c.Run("accept", text)
				if c.Worker == 0 {
					c.Sample(text)
				}
			}
		})})
	fw.Register(&fw.Check{ID: "C11", Level: "model_checking", Rule: rule + " C11 evaluates the rejected ones.", Assumptions: assume, Leveled: std,
		Probes: map[string]fw.Probe{"reject": textProbe(judgeReject)},
		Explore: all(func(c *fw.Ctx, text string, ok bool) {
			if !ok {
				c.Run("reject", text)
				if c.Worker == 0 {
					c.Sample(text)
				}
			}
		})})
	fw.Register(&fw.Check{ID: "C09", Level: "model_checking", Rule: rule + " C09 evaluates the positions reported for the rejected ones.", Assumptions: assume, Leveled: std,
		Probes: map[string]fw.Probe{"position": textProbe(judgePosition), "entries": judgeParseEntries},
		Explore: all(func(c *fw.Ctx, text string, ok bool) {
			if !ok {
				c.Run("position", text)
				if c.Worker == 0 {
					c.Sample(text)
				}
			}
		})})
	total := all(func(c *fw.Ctx, text string, ok bool) {
		c.Run("total", text)
		if c.Worker == 0 {
			c.Sample(text)
		}
	})
	fw.Register(&fw.Check{ID: "C08", Level: "model_checking", Assumptions: append([]string{"A time limit of 30 s, and a factor of nine in processor time for four times the input, stand for a time that is not proportional."}, assume...), Leveled: std,
		Rule:   rule + " 'leak' runs parses under the controlled scheduler of C20, with up to one (thorough: two) deviations from the default schedule, and looks for goroutines that can not go on; 'history' parses all sequences of two and three texts of a list with one parser and with new ones, each result compared with that of a process of its own; 'scale' parses 2^11 to 2^17 repetitions of every kind of element.",
		Probes: map[string]fw.Probe{"total": textProbe(judgeTotal), "leak": judgeLeak, "history": judgeHistory, "scale": judgeScale},
		Explore: func(c *fw.Ctx) {
			exploreScale(c)
			total(c)
			exploreWork(c)
		}})
}
