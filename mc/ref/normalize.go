package ref

import (
	"strconv"
	"strings"
)

// Synonyms of column types.
var Synonyms = map[string]string{"BOOL": "TINYINT", "BOOLEAN": "TINYINT", "INTEGER": "INT", "NUMERIC": "DECIMAL", "REAL": "DOUBLE"}

var displayWidth = map[string]int{"TINYINT": 4, "SMALLINT": 6, "MEDIUMINT": 9, "INT": 11, "INTEGER": 11}

// NativeLength is the length MySQL gives to a column that is declared without one.
func NativeLength(typ string, unsigned bool) (l, d Str) {
	if w, ok := displayWidth[typ]; ok {
		if unsigned {
			w--
		}
		return S(strconv.Itoa(w)), Str{}
	}
	switch typ {
	case "BOOL", "BOOLEAN":
		return S("1"), Str{}
	case "BIGINT":
		return S("20"), Str{}
	case "DECIMAL", "NUMERIC":
		return S("10"), S("0")
	}
	return Str{}, Str{}
}

func numericType(t string) bool {
	return in(t, "TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT", "FLOAT", "DOUBLE", "DECIMAL", "NUMERIC", "REAL", "BOOL", "BOOLEAN")
}

func noDefault(t string) bool {
	return strings.HasSuffix(t, "TEXT") || strings.HasSuffix(t, "BLOB")
}

// IsNumber tells whether the text is a number literal that can be written without quotes.
func IsNumber(s string) bool {
	i := 0
	digits := func() int {
		n := 0
		for i < len(s) && digit(s[i]) {
			i++
			n++
		}
		return n
	}
	if i < len(s) && s[i] == '.' {
		i++
		if digits() == 0 {
			return false
		}
	} else {
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if digits() == 0 {
			return false
		}
		if i < len(s) && s[i] == '.' {
			i++
			digits()
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && s[i] == '-' {
			i++
		}
		if digits() == 0 {
			return false
		}
	}
	return i == len(s)
}

// NormalizeCol brings a column into the form in which MySQL would show it.
func NormalizeCol(c Col) Col {
	if !c.Len.Ok && c.Vals == nil {
		c.Len, c.Dec = NativeLength(c.Type, c.Unsigned)
	}
	if c.Null == 1 {
		c.Null = 0
	}
	if c.Default.Ok {
		if numericType(c.Type) {
			if c.DefQuoted {
				if !c.DefEscaped && IsNumber(c.Default.S) {
					c.Default, c.DefQuoted = S(strings.ToUpper(c.Default.S)), false
				}
			} else if c.Default.S == "TRUE" {
				c.Default.S = "1"
			} else if c.Default.S == "FALSE" {
				c.Default.S = "0"
			}
		}
	} else if c.Null == 0 && !noDefault(c.Type) {
		c.Default = S("NULL")
	}
	if s, ok := Synonyms[c.Type]; ok {
		c.Type = s
	}
	return c
}

// Normalize brings a table into normal form: the keys that are declared in
// column definitions become indexes, and foreign keys get their index.
func Normalize(t Table) Table {
	n := t
	n.Cols, n.Idx = nil, nil
	names := map[string]bool{}
	for _, c := range t.Cols {
		c = NormalizeCol(c)
		col := []IdxCol{{Name: c.Name}}
		if c.Primary || c.Key {
			n.Idx = append(n.Idx, Idx{Kind: "PRIMARY", Cols: col})
		}
		if c.Unique {
			n.Idx = append(n.Idx, Idx{Kind: "UNIQUE", Name: S(c.Name), Cols: col})
			names[c.Name] = true
		}
		c.Primary, c.Key, c.Unique = false, false, false
		n.Cols = append(n.Cols, c)
	}
	for _, i := range t.Idx {
		if i.Kind != "FOREIGN" && i.Name.Ok {
			names[i.Name.S] = true
		}
	}
	for _, i := range t.Idx {
		if i.Kind == "FOREIGN" && i.Sym.Ok && !names[i.Sym.S] {
			names[i.Sym.S] = true
			n.Idx = append(n.Idx, Idx{Kind: "INDEX", Name: i.Sym, Type: i.Type, Cols: append([]IdxCol(nil), i.Cols...)})
		}
		n.Idx = append(n.Idx, i)
	}
	return n
}

// NormalizeAll normalizes a schema.
func NormalizeAll(ts []Table) []Table {
	var o []Table
	for _, t := range ts {
		o = append(o, Normalize(t))
	}
	return o
}

// Parse is the reference for what a text declares: tables is what the
// implementation has to return, bad is the offending token if there is one.
func Parse(text string) (tables []Table, bad *Tok) {
	toks := Lex(text)
	if i := Run(toks); i >= 0 {
		return nil, &toks[i]
	}
	return NormalizeAll(Build(toks)), nil
}
