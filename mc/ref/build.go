package ref

import "strings"

// Build reads the CREATE TABLE statements out of an accepted text.
func Build(toks []Tok) []Table {
	b := &builder{t: toks}
	var out []Table
	for {
		switch k := b.next().K; k {
		case "EOF":
			return out
		case "CREATE":
			if b.opt("DATABASE") {
				b.skip()
				continue
			}
			out = append(out, b.table())
		case ";":
		default: // DROP, SET, USE
			b.skip()
		}
	}
}

type builder struct {
	t []Tok
	p int
}

func (b *builder) peek() string { return b.t[b.p].K }
func (b *builder) next() Tok    { t := b.t[b.p]; b.p++; return t }
func (b *builder) opt(k string) bool {
	if b.peek() == k {
		b.p++
		return true
	}
	return false
}
func (b *builder) want(k string) Tok {
	t := b.next()
	if t.K != k {
		panic("reference builder: expected " + k + ", got " + t.K)
	}
	return t
}
func (b *builder) name() (Str, bool) {
	if isName(b.peek()) {
		return S(b.next().Val), true
	}
	return Str{}, false
}
func (b *builder) skip() {
	for b.peek() != ";" && b.peek() != "EOF" {
		b.p++
	}
	if b.peek() == ";" {
		b.p++
	}
}

func (b *builder) ine() bool {
	if b.opt("IF") {
		b.want("NOT")
		b.want("EXISTS")
		return true
	}
	return false
}

func (b *builder) table() Table {
	var t Table
	t.Temp = b.opt("TEMPORARY")
	b.want("TABLE")
	if b.opt("TEMPORARY") {
		t.Temp = true
	}
	t.INE = b.ine()
	t.Name = b.next().Val
	if b.opt("LIKE") {
		t.Like = S(b.next().Val)
		return t
	}
	if b.ine() {
		t.INE = true
	}
	b.want("(")
	for {
		b.field(&t)
		if b.opt(",") {
			continue
		}
		b.want(")")
		break
	}
	for b.peek() != ";" && b.peek() != "EOF" {
		if b.opt(",") {
			continue
		}
		t.Opts = append(t.Opts, b.option())
	}
	return t
}

func (b *builder) option() Opt {
	key := b.next().K
	switch key {
	case "DEFAULT":
		if b.next().K == "COLLATE" {
			key = "DEFAULT COLLATE"
		} else {
			key = "DEFAULT CHARACTER SET"
			b.opt("SET")
		}
	case "CHARACTER":
		b.want("SET")
		key = "DEFAULT CHARACTER SET"
	case "COLLATE":
		key = "DEFAULT COLLATE"
	case "DATA", "INDEX":
		b.want("DIRECTORY")
		key += " DIRECTORY"
	}
	b.opt("=")
	v := b.next()
	return Opt{key, v.Val, v.K == "SQ" || v.K == "DQ"}
}

func (b *builder) field(t *Table) {
	var i Idx
	cons := b.opt("CONSTRAINT")
	if cons {
		if n, ok := b.name(); ok && n.S != "" {
			i.Sym = n
		}
	}
	k := b.peek()
	if isName(k) {
		t.Cols = append(t.Cols, b.column())
		return
	}
	b.p++
	switch k {
	case "KEY", "INDEX":
		i.Kind = "INDEX"
		b.index(&i)
	case "PRIMARY":
		b.want("KEY")
		i.Kind = k
		b.index(&i)
	case "UNIQUE":
		_ = b.opt("KEY") || b.opt("INDEX")
		i.Kind = k
		b.index(&i)
	case "FULLTEXT":
		_ = b.opt("KEY") || b.opt("INDEX")
		i.Kind = k
		i.Name, _ = b.name()
		i.Cols = b.cols()
		if b.opt("WITH") {
			b.want("PARSER")
			i.Opts = append(i.Opts, Opt{"WITH PARSER", b.next().Val, true})
		}
	case "SPATIAL":
		b.opt("INDEX")
		i.Kind = k
		i.Name, _ = b.name()
		i.Cols = b.cols()
	case "FOREIGN":
		b.want("KEY")
		i.Kind = k
		i.Name, _ = b.name()
		i.Cols = b.cols()
		if b.opt("REFERENCES") {
			r := &Refer{Table: b.next().Val}
			r.Cols = b.cols()
			if b.opt("MATCH") {
				r.Match = b.next().K
			}
			for b.opt("ON") {
				p := &r.OnUpdate
				if b.next().K == "DELETE" {
					p = &r.OnDelete
				}
				*p = b.next().K
				switch *p {
				case "SET", "NO":
					*p += " " + b.next().K
				}
			}
			i.Ref = r
		}
	default:
		panic("reference builder: field " + k)
	}
	t.Idx = append(t.Idx, i)
}

func (b *builder) index(i *Idx) {
	i.Name, _ = b.name()
	if b.opt("USING") {
		i.Type = b.next().K
	}
	i.Cols = b.cols()
	if b.opt("USING") {
		i.Type = b.next().K
	}
}

func (b *builder) cols() []IdxCol {
	var out []IdxCol
	b.want("(")
	for {
		c := IdxCol{Name: b.next().Val}
		if b.opt("(") {
			c.Len = S(b.want("NUM").Val)
			b.want(")")
		}
		if k := b.peek(); k == "ASC" || k == "DESC" {
			c.Dir = k
			b.p++
		}
		out = append(out, c)
		if b.opt(",") {
			continue
		}
		b.want(")")
		return out
	}
}

func (b *builder) column() Col {
	c := Col{Name: b.next().Val, Type: b.next().K}
	if b.opt("(") {
		if c.Type == "ENUM" || c.Type == "SET" {
			for {
				c.Vals = append(c.Vals, b.next().Val)
				if !b.opt(",") {
					break
				}
			}
		} else {
			c.Len = S(b.want("NUM").Val)
			if b.opt(",") {
				c.Dec = S(b.want("NUM").Val)
			}
		}
		b.want(")")
	}
	for {
		k := b.peek()
		if k == "," || k == ")" {
			return c
		}
		b.p++
		switch k {
		case "UNSIGNED":
			c.Unsigned = true
		case "ZEROFILL":
			c.Zerofill = true
		case "BINARY":
			c.Binary = true
		case "CHARACTER":
			b.want("SET")
			c.Charset = S(b.next().Val)
		case "COLLATE":
			c.Collate = S(b.next().Val)
		case "ON":
			b.want("UPDATE")
			v := b.next()
			c.AutoUpdate = S(v.Val)
			if v.K == "CURRENT_TIMESTAMP" {
				c.AutoUpdate.S = v.K
			}
		case "NOT":
			b.want("NULL")
			c.Null = 2
		case "NULL":
			c.Null = 1
		case "AUTO_INCREMENT":
			c.AutoInc = true
		case "KEY":
			c.Key = true
		case "PRIMARY":
			b.want("KEY")
			c.Primary = true
		case "UNIQUE":
			b.opt("KEY")
			c.Unique = true
		case "COMMENT":
			c.Comment = S(b.want("SQ").Val)
		case "DEFAULT":
			v := b.next()
			switch v.K {
			case "IDENT", "SQ", "DQ":
				c.Default, c.DefQuoted = S(v.Val), true
				c.DefEscaped = strings.Contains(v.Text, `\`)
			case "NOW":
				b.want("(")
				b.want(")")
				c.Default, c.DefQuoted = S("NOW()"), false
			default:
				c.Default, c.DefQuoted = S(strings.ToUpper(v.Val)), false
			}
		default:
			panic("reference builder: column attribute " + k)
		}
	}
}
