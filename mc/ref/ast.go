package ref

import (
	"fmt"
	"sort"
	"strings"
)

// Str is an optional string.
type Str struct {
	Ok bool
	S  string
}

func S(s string) Str { return Str{true, s} }

func (s Str) String() string {
	if !s.Ok {
		return "-"
	}
	return fmt.Sprintf("%q", s.S)
}

// IdxCol is an element of an index or of the columns of a reference.
type IdxCol struct {
	Name string
	Len  Str
	Dir  string // "", ASC, DESC
}

// Refer is a REFERENCES clause.
type Refer struct {
	Table              string
	Cols               []IdxCol
	Match              string // "", FULL, PARTIAL, SIMPLE
	OnDelete, OnUpdate string // "", RESTRICT, CASCADE, SET NULL, NO ACTION
}

// Opt is a table or index option.
type Opt struct {
	Key, Val string
	Quoted   bool
}

// Idx is an index or a constraint.
type Idx struct {
	Kind      string // PRIMARY, INDEX, UNIQUE, FULLTEXT, SPATIAL, FOREIGN
	Name, Sym Str
	Type      string // "", BTREE, HASH
	Cols      []IdxCol
	Ref       *Refer
	Opts      []Opt
}

// Col is a column definition.
type Col struct {
	Name, Type                    string
	Len, Dec                      Str
	Vals                          []string // ENUM and SET
	Unsigned, Zerofill, Binary    bool
	Charset, Collate, AutoUpdate  Str
	Null                          int // 0: not said, 1: NULL, 2: NOT NULL
	Default                       Str
	DefQuoted                     bool
	DefEscaped                    bool // written with a backslash: not recognized as a number
	AutoInc, Unique, Primary, Key bool
	Comment                       Str
}

// Table is a CREATE TABLE statement.
type Table struct {
	Name      string
	Temp, INE bool
	Like      Str
	Cols      []Col
	Idx       []Idx
	Opts      []Opt
}

func (c IdxCol) String() string {
	s := fmt.Sprintf("%q", c.Name)
	if c.Len.Ok {
		s += "(" + c.Len.S + ")"
	}
	if c.Dir != "" {
		s += " " + c.Dir
	}
	return s
}

func idxCols(l []IdxCol) string {
	var o []string
	for _, c := range l {
		o = append(o, c.String())
	}
	return "[" + strings.Join(o, " ") + "]"
}

func (o Opt) String() string { return fmt.Sprintf("%s=%q/%v", o.Key, o.Val, o.Quoted) }

func (r *Refer) String() string {
	if r == nil {
		return "-"
	}
	return fmt.Sprintf("{%q %s match=%s del=%s upd=%s}", r.Table, idxCols(r.Cols), r.Match, r.OnDelete, r.OnUpdate)
}

func (i Idx) String() string {
	s := fmt.Sprintf("%s name=%v sym=%v type=%s %s", i.Kind, i.Name, i.Sym, i.Type, idxCols(i.Cols))
	if i.Ref != nil {
		s += " ref=" + i.Ref.String()
	}
	for _, o := range i.Opts {
		s += " " + o.String()
	}
	return s
}

func (c Col) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %s", c.Name, c.Type)
	if c.Len.Ok {
		fmt.Fprintf(&b, " len=%s", c.Len.S)
	}
	if c.Dec.Ok {
		fmt.Fprintf(&b, " dec=%s", c.Dec.S)
	}
	if c.Vals != nil {
		fmt.Fprintf(&b, " vals=%q", c.Vals)
	}
	for _, f := range []struct {
		n string
		v bool
	}{{"unsigned", c.Unsigned}, {"zerofill", c.Zerofill}, {"binary", c.Binary}, {"autoinc", c.AutoInc}, {"unique", c.Unique}, {"primary", c.Primary}, {"key", c.Key}} {
		if f.v {
			b.WriteString(" " + f.n)
		}
	}
	for _, f := range []struct {
		n string
		v Str
	}{{"charset", c.Charset}, {"collate", c.Collate}, {"onupdate", c.AutoUpdate}, {"comment", c.Comment}} {
		if f.v.Ok {
			fmt.Fprintf(&b, " %s=%q", f.n, f.v.S)
		}
	}
	b.WriteString([]string{"", " null", " notnull"}[c.Null])
	if c.Default.Ok {
		fmt.Fprintf(&b, " default=%q/%v", c.Default.S, c.DefQuoted)
	}
	return b.String()
}

func (t Table) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "TABLE %q", t.Name)
	if t.Temp {
		b.WriteString(" temporary")
	}
	if t.INE {
		b.WriteString(" ifnotexists")
	}
	if t.Like.Ok {
		fmt.Fprintf(&b, " like=%q", t.Like.S)
	}
	for _, c := range t.Cols {
		b.WriteString("\n  col " + c.String())
	}
	for _, i := range t.Idx {
		b.WriteString("\n  idx " + i.String())
	}
	for _, o := range t.Opts {
		b.WriteString("\n  opt " + o.String())
	}
	return b.String()
}

// Show writes out a list of tables.
func Show(ts []Table) string {
	var o []string
	for _, t := range ts {
		o = append(o, t.String())
	}
	return strings.Join(o, "\n")
}

// SortedIdx returns the canonical texts of the indexes, as a multiset.
func SortedIdx(l []Idx) []string {
	var o []string
	for _, i := range l {
		o = append(o, i.String())
	}
	sort.Strings(o)
	return o
}
