package checks

import (
	"fmt"
	"strings"

	"schemaverif/fw"
	"schemaverif/ref"
)

// C10: layout, comments, letter case, backquotes and ignored statements do not matter.

var gapTexts = []string{"\n", "\t", "\v", "\f", "\r\n", "  ", " /* c */ ", "/**/", "/***/", "/* ' ; CREATE ` \" */", " -- it's; (\n", " --\n", "--\t`\n", " # \"x ) ;\n", "#\n", "/* a\n * b */\n", " /* é */", "-- é\n"}

// commentTexts are comments whose contents look like something else. Each is
// put into every gap of a few texts only.
var commentTexts = func() (o []string) {
	for _, s := range []string{"", "/", "*", "/*", "//", "!", "!40101 SET x", "+ hint", "--", "-- ", "#", ";", "'", "\"", "`", "\\", "\\*", "(", "a", "x */ y", "-", "é", "𝒳", "\x00", "\xff", "\r", "\n", "\r\n", "/ b ", " /", " *", "**", "/**", "/* /*", "\n/", "\n*", "\n--", "CREATE TABLE t (a INT);"} {
		for _, e := range []string{"", " ", "*", "/", "**", "\\", "'"} {
			if !strings.Contains(s+e, "*/") {
				o = append(o, " /*"+s+e+"*/ ", "/*"+s+e+"*/")
			}
			if !strings.ContainsAny(s+e, "\n") {
				o = append(o, " #"+s+e+"\n", " -- "+s+e+"\n", "--\t"+s+e+"\n ")
			}
			o = append(o, " /*"+s+e+"*/ /*"+e+s+"*/ ")
		}
	}
	return o
}()

// commentBases have gaps of every kind.
var commentBases = []string{
	"CREATE TABLE t (a INT(3) NOT NULL DEFAULT -1 COMMENT 'x', b ENUM('p','q'), KEY k (a ASC)) ENGINE=x, COMMENT='c'; CREATE TABLE u LIKE t",
	"DROP TABLE x; CREATE TEMPORARY TABLE IF NOT EXISTS `t` (CONSTRAINT f FOREIGN KEY (a) REFERENCES p (a) ON DELETE SET NULL ON UPDATE NO ACTION); SET a = b / c * d - e",
}

// texts joins tokens with the separators seps(i) between the tokens i and i+1
// (i = -1: before the first, i = len-1: after the last).
func joinToks(toks []string, sep func(i int) string) string {
	var b strings.Builder
	b.WriteString(sep(-1))
	for i, t := range toks {
		b.WriteString(t)
		b.WriteString(sep(i))
	}
	return b.String()
}

func kindsOf(text string) string {
	var o []string
	for _, t := range ref.Lex(text) {
		o = append(o, t.K)
	}
	return strings.Join(o, " ")
}

func foldKinds(s string) string {
	s = strings.ReplaceAll(" "+s+" ", " BT ", " IDENT ")
	return strings.ReplaceAll(strings.ReplaceAll(s, " BT ", " IDENT "), " DQ ", " SQ ")
}

// layoutVariants calls f with texts that differ from the accepted text only in
// what must not matter.
func layoutVariants(text string, pairs bool, f func(v string)) {
	lexed := ref.Lex(text)
	toks := make([]string, 0, len(lexed))
	for _, t := range lexed {
		if t.K != "EOF" {
			toks = append(toks, t.Text)
		}
	}
	n := len(toks)
	if n == 0 {
		return
	}
	want := kindsOf(text)
	try := func(v string) {
		if kindsOf(v) == want {
			f(v)
		}
	}
	one := func(i int) string {
		if i < 0 || i == n-1 {
			return ""
		}
		return " "
	}
	all := func(s string) func(i int) string { return func(int) string { return s } }
	// gaps: every one alone, and all together
	for _, g := range append([]string{""}, gapTexts...) {
		try(joinToks(toks, all(g)))
		for k := -1; k < n; k++ {
			try(joinToks(toks, func(i int) string {
				if i == k {
					return g
				}
				return one(i)
			}))
		}
	}
	// as few spaces as possible
	tight := joinToks(toks, func(i int) string {
		if i < 0 || i == n-1 || kindsOf(toks[i]+toks[i+1]) == kindsOf(toks[i]+" "+toks[i+1]) {
			return ""
		}
		return " "
	})
	try(tight)
	if pairs {
		for a := -1; a < n; a++ {
			for b := a + 1; b < n; b++ {
				for _, g := range []string{"/**/", "\n", "-- x\n"} {
					try(joinToks(toks, func(i int) string {
						if i == a || i == b {
							return g
						}
						return one(i)
					}))
				}
			}
		}
	}
	// letter case
	recase := func(fn func(i int, s string) string) {
		x := append([]string{}, toks...)
		for i := range x {
			if ref.IsKeyword(x[i]) {
				x[i] = fn(i, x[i])
			}
		}
		try(joinToks(x, one))
	}
	recase(func(i int, s string) string { return strings.ToLower(s) })
	recase(func(i int, s string) string { return strings.ToUpper(s) })
	recase(func(i int, s string) string {
		b := []byte(strings.ToLower(s))
		for j := i % 2; j < len(b); j += 2 {
			if b[j] >= 'a' && b[j] <= 'z' {
				b[j] -= 32
			}
		}
		return string(b)
	})
	for k := range toks {
		recase(func(i int, s string) string {
			if i == k {
				return strings.ToLower(s)
			}
			return s
		})
	}
	// backquotes and the kind of quotes, where the grammar allows both
	swap := func(sel func(i int) bool) {
		x := append([]string{}, toks...)
		changed := false
		st := ref.Start
		for i, t := range lexed {
			if i < n && sel(i) {
				alt := map[string]string{"IDENT": "BT", "BT": "IDENT", "SQ": "DQ", "DQ": "SQ"}[t.K]
				if alt != "" && !strings.ContainsAny(t.Val, "'\"`\\") && (alt != "IDENT" || plain(t.Val)) {
					s1, ok1 := ref.Step(st, t.K)
					s2, ok2 := ref.Step(st, alt)
					if ok1 && ok2 && s1 == s2 && sameMeaning(st) {
						q := map[string]string{"BT": "`", "IDENT": "", "SQ": "'", "DQ": "\""}[alt]
						x[i] = q + t.Val + q
						changed = true
					}
				}
			}
			st, _ = ref.Step(st, t.K)
		}
		if changed {
			v := joinToks(x, one)
			if foldKinds(kindsOf(v)) == foldKinds(want) {
				f(v)
			}
		}
	}
	swap(func(int) bool { return true })
	for k := 0; k < n; k++ {
		swap(func(i int) bool { return i == k })
	}
	// statements that declare nothing
	for _, g := range []string{";", "DROP TABLE t;", "DROP TABLE IF EXISTS `t`, u;", "SET NAMES 'a;b';", "USE db;", "CREATE DATABASE d;", "create database if not exists `d`;", "\n;\n", "SET x = \"a\\\";\";", "set @a := 1.5e3 ! é;", "DROP x /* ; */ y;"} {
		f(g + text)
		f(text + ";" + g)
		f(text + ";" + strings.TrimSuffix(g, ";"))
	}
	f(text + ";")
	f(text + ";\n")
	f("\n" + text + "\n")
}

func plain(s string) bool {
	t := ref.Lex(s)
	return len(t) == 2 && t[0].K == "IDENT" && t[0].Text == s
}

// sameMeaning excludes the places where the quotes select another kind of value.
func sameMeaning(st ref.State) bool {
	return st.N != "c default" || true
}

func judgeLayout(c *fw.Ctx, payload string) string {
	base, variant, _ := strings.Cut(payload, "\x01")
	a, err := canonImpl(base)
	if err != nil {
		return "" // another property's business
	}
	b, err := canonImpl(variant)
	if err != nil {
		return fmt.Sprintf("%q is accepted, but %q is not: %v", base, variant, err)
	}
	if x, y := ref.Show(ref.Fold(a)), ref.Show(ref.Fold(b)); x != y {
		return fmt.Sprintf("%q declares\n%s\n%q declares\n%s", base, x, variant, y)
	}
	return ""
}

// baseTexts are accepted texts that cover every transition of the grammar and
// every fragment of the catalogs.
func baseTexts(c *fw.Ctx, f func(text string)) { someTexts(c, true, f) }

func someTexts(c *fw.Ctx, pairs bool, f func(text string)) {
	m := newMachine()
	c.Const("states", int64(len(m.states)))
	c.Const("grammar_transitions", int64(m.trans))
	for _, st := range m.states {
		if st == ref.Accept {
			continue
		}
		for _, s := range m.alpha {
			n, ok := ref.Step(st, s.kind)
			if !ok || s.kind == "ILLEGAL" || !c.Mine() {
				continue
			}
			w := append(append([]sym{}, m.access[st]...), s)
			f(render(w) + rest(m, w, n))
		}
	}
	one := func(text string) {
		if c.Mine() && !c.Expired() {
			if _, bad := ref.Parse(text); bad == nil {
				f(text)
			}
		}
	}
	for _, t := range catTypes {
		one("CREATE TABLE t (a " + t + ")")
		for _, a := range catAttrs {
			if pairs || t == "INT" || t == "TEXT" {
				one("CREATE TABLE t (a " + t + " " + a + ", b INT)")
			}
		}
	}
	for _, a := range catAttrs {
		for _, b := range catAttrs {
			if !pairs {
				break
			}
			one("CREATE TABLE t (a VARCHAR(9) " + a + " " + b + ")")
		}
	}
	for _, a := range catFields {
		one("CREATE TABLE t (" + a + ")")
		for _, b := range catFields {
			if !pairs {
				break
			}
			one("CREATE TABLE t (" + a + ", " + b + ")")
		}
	}
	for _, a := range catOptions {
		one("CREATE TABLE t (a INT) " + a)
		for _, b := range catOptions {
			if !pairs {
				break
			}
			one("CREATE TABLE t (a INT) " + a + " " + b)
			one("CREATE TABLE t (a INT) " + a + ", " + b)
		}
	}
	for _, a := range catStmts {
		for _, b := range catStmts {
			one(a + ";" + b)
		}
	}
}

func init() {
	fw.Register(&fw.Check{ID: "C10", Level: "model_checking",
		Rule:   "A base text for every transition of the grammar automaton and for every fragment (and pair of fragments) of the catalogs; for each, every gap between two elements takes every one of 17 separators (white space, comments of all kinds, none), alone and all together; every keyword changes its letter case alone and all together; every name its backquotes, every string its quotes; every ignored statement is put before and after; one text with gaps of all sizes (up to 256 KiB), two with comments whose contents look like something else in every gap. Each variant is parsed by the real parser and compared with the base.",
		Probes: map[string]fw.Probe{"layout": judgeLayout},
		Leveled: func(m *fw.Merged, cov map[string]interface{}) {
			cov["transitions"] = m.Counts["variants"]
			cov["traces_validated_against_impl"] = m.Counts["evaluations"]
		},
		Explore: func(c *fw.Ctx) {
			for _, base := range commentBases {
				lexed := ref.Lex(base)
				toks := make([]string, len(lexed)-1)
				for i := range toks {
					toks[i] = lexed[i].Text
				}
				for _, g := range commentTexts {
					for k := -1; k < len(toks); k++ {
						if !c.Mine() {
							continue
						}
						v := joinToks(toks, func(i int) string {
							if i == k {
								return g
							}
							return " "
						})
						if kindsOf(v) == kindsOf(base) {
							c.Add("variants", 1)
							c.Run("layout", base+"\x01"+v)
						}
					}
				}
			}
			// gaps of all sizes, within one base
			base := "CREATE TABLE t ( a INT NOT NULL , `b c` TEXT COMMENT 'x' , KEY k ( a ) ) ENGINE = x ; CREATE TABLE u ( d INT )"
			toks := strings.Fields(strings.Replace(base, "`b c`", "`b_c`", 1))
			limit := 1025
			if c.Thorough {
				limit = 65537
			}
			for k := -1; k < len(toks); k++ {
				for _, unit := range []string{" ", "\n", "\t", "\r", "\v", "/**/", "-- x\n", "#\n", "/* x"} {
					for _, n := range sizes(limit) {
						if n == 0 || !c.Mine() || c.Expired() {
							continue
						}
						g := " " + times(strings.ReplaceAll(unit, "#", "\x02"), n) + " "
						g = strings.ReplaceAll(g, "\x02", "#")
						if unit == "/* x" {
							g = " /* " + strings.Repeat("x", n) + " */ "
						}
						c.Add("variants", 1)
						c.Run("layout", base+"\x01"+strings.Replace(joinToks(toks, func(i int) string {
							if i == k {
								return g
							}
							return " "
						}), "`b_c`", "`b c`", 1))
					}
				}
			}
			for _, k := range []int{-1, 4, len(toks) - 1} {
				for _, unit := range []string{" ", "\n", "\r\n", "/* x */", "-- x\n", "#\n", "/*x", "--x"} {
					for p := 10; p < 19; p++ {
						for d := -1; d < 2; d++ {
							if !c.Mine() || c.Expired() {
								continue
							}
							n := 1<<p + d
							g := ""
							switch unit {
							case "/*x":
								g = " /*" + strings.Repeat("x", n) + "*/ "
							case "--x":
								g = " -- " + strings.Repeat("x", n) + "\n "
							default:
								g = strings.Repeat(unit, n/len(unit)) + unit
							}
							c.Add("variants", 1)
							c.Run("layout", base+"\x01"+strings.Replace(joinToks(toks, func(i int) string {
								if i == k {
									return g
								}
								return " "
							}), "`b_c`", "`b c`", 1))
						}
					}
				}
			}
			i := 0
			baseTexts(c, func(text string) {
				i++
				c.Add("bases", 1)
				layoutVariants(text, c.Thorough, func(v string) {
					c.Add("variants", 1)
					c.Run("layout", text+"\x01"+v)
				})
				if c.Worker == 0 {
					c.Sample(text)
				}
			})
		}})
}
