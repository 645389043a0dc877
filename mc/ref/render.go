package ref

import "strings"

// Render writes the definition of a table, one of many ways to do so.
func Render(t Table) string {
	var b strings.Builder
	b.WriteString("CREATE ")
	if t.Temp {
		b.WriteString("TEMPORARY ")
	}
	b.WriteString("TABLE ")
	if t.INE {
		b.WriteString("IF NOT EXISTS ")
	}
	b.WriteString(Bq(t.Name))
	if t.Like.Ok {
		return b.String() + " LIKE " + Bq(t.Like.S)
	}
	var f []string
	for _, c := range t.Cols {
		f = append(f, RenderCol(c))
	}
	for _, i := range t.Idx {
		f = append(f, RenderIdx(i))
	}
	b.WriteString(" (" + strings.Join(f, ", ") + ")")
	for _, o := range t.Opts {
		b.WriteString(" " + RenderOpt(o))
	}
	return b.String()
}

// RenderAll writes a schema.
func RenderAll(ts []Table) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(Render(t) + ";\n")
	}
	return b.String()
}

func Bq(s string) string { return "`" + strings.ReplaceAll(s, "`", "``") + "`" }

func Sq(s string) string {
	return "'" + strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), "'", "''") + "'"
}

func RenderOpt(o Opt) string {
	v := o.Val
	if o.Quoted {
		v = Sq(v)
	} else if l := Lex(v); len(l) != 2 || l[0].Text != v || Run(Lex("CREATE TABLE t (a INT) "+o.Key+" = "+v)) >= 0 {
		v = Bq(v)
	}
	return o.Key + " = " + v
}

func RenderCol(c Col) string {
	s := Bq(c.Name) + " " + c.Type
	if c.Vals != nil {
		var l []string
		for _, v := range c.Vals {
			l = append(l, Sq(v))
		}
		s += "(" + strings.Join(l, ",") + ")"
	} else if c.Dec.Ok {
		s += "(" + c.Len.S + "," + c.Dec.S + ")"
	} else if c.Len.Ok {
		s += "(" + c.Len.S + ")"
	}
	flag := func(on bool, t string) {
		if on {
			s += " " + t
		}
	}
	flag(c.Unsigned, "UNSIGNED")
	flag(c.Zerofill, "ZEROFILL")
	flag(c.Binary, "BINARY")
	flag(c.Charset.Ok, "CHARACTER SET "+Bq(c.Charset.S))
	flag(c.Collate.Ok, "COLLATE "+Bq(c.Collate.S))
	if c.AutoUpdate.Ok {
		s += " ON UPDATE " + c.AutoUpdate.S // always a word
	}
	flag(c.Null == 1, "NULL")
	flag(c.Null == 2, "NOT NULL")
	if c.Default.Ok {
		if c.DefQuoted {
			s += " DEFAULT " + Sq(c.Default.S)
		} else {
			s += " DEFAULT " + c.Default.S
		}
	}
	flag(c.AutoInc, "AUTO_INCREMENT")
	flag(c.Unique, "UNIQUE KEY")
	flag(c.Primary, "PRIMARY KEY")
	flag(c.Key && !c.Primary, "KEY")
	flag(c.Comment.Ok, "COMMENT "+Sq(c.Comment.S))
	return s
}

func renderIdxCols(l []IdxCol) string {
	var o []string
	for _, c := range l {
		s := Bq(c.Name)
		if c.Len.Ok {
			s += "(" + c.Len.S + ")"
		}
		if c.Dir != "" {
			s += " " + c.Dir
		}
		o = append(o, s)
	}
	return "(" + strings.Join(o, ", ") + ")"
}

func RenderIdx(i Idx) string {
	s := ""
	if i.Sym.Ok {
		s = "CONSTRAINT " + Bq(i.Sym.S) + " "
	}
	s += map[string]string{"PRIMARY": "PRIMARY KEY", "INDEX": "KEY", "UNIQUE": "UNIQUE KEY", "FULLTEXT": "FULLTEXT KEY", "SPATIAL": "SPATIAL INDEX", "FOREIGN": "FOREIGN KEY"}[i.Kind]
	if i.Name.Ok {
		s += " " + Bq(i.Name.S)
	}
	if i.Type != "" {
		s += " USING " + i.Type
	}
	s += " " + renderIdxCols(i.Cols)
	for _, o := range i.Opts {
		s += " WITH PARSER " + Bq(o.Val)
	}
	if r := i.Ref; r != nil {
		s += " REFERENCES " + Bq(r.Table) + " " + renderIdxCols(r.Cols)
		if r.Match != "" {
			s += " MATCH " + r.Match
		}
		if r.OnDelete != "" {
			s += " ON DELETE " + r.OnDelete
		}
		if r.OnUpdate != "" {
			s += " ON UPDATE " + r.OnUpdate
		}
	}
	return s
}
