package ref

import (
	"fmt"
	"strings"

	"github.com/schemalex/schemalex/model"
)

// Canon reads the implementation's model through its public accessors.
func Canon(stmts model.Stmts) ([]Table, error) {
	var out []Table
	for _, s := range stmts {
		t, ok := s.(model.Table)
		if !ok {
			return nil, fmt.Errorf("statement %T is not a table", s)
		}
		out = append(out, CanonTable(t))
	}
	return out, nil
}

func CanonTable(t model.Table) Table {
	r := Table{Name: t.Name(), Temp: t.IsTemporary(), INE: t.IsIfNotExists()}
	if t.HasLikeTable() {
		r.Like = S(t.LikeTable())
	}
	for c := range t.Columns() {
		r.Cols = append(r.Cols, CanonCol(c))
	}
	for i := range t.Indexes() {
		r.Idx = append(r.Idx, CanonIdx(i))
	}
	for o := range t.Options() {
		r.Opts = append(r.Opts, canonOpt(o.Key(), o.Value(), o.NeedQuotes()))
	}
	return r
}

func canonOpt(k, v string, q bool) Opt {
	if q {
		return Opt{k, Denoted(v), q}
	}
	if len(v) > 1 && v[0] == '`' && v[len(v)-1] == '`' {
		v = unback(v[1 : len(v)-1])
	}
	return Opt{k, v, q}
}

func CanonCol(c model.TableColumn) Col {
	r := Col{Name: c.Name(), Type: c.Type().String(), Unsigned: c.IsUnsigned(), Zerofill: c.IsZeroFill(), Binary: c.IsBinary(),
		AutoInc: c.IsAutoIncrement(), Unique: c.IsUnique(), Primary: c.IsPrimary(), Key: c.IsKey()}
	if c.HasLength() {
		r.Len = S(c.Length().Length())
		if c.Length().HasDecimal() {
			r.Dec = S(c.Length().Decimal())
		}
	}
	if c.HasCharacterSet() {
		r.Charset = S(c.CharacterSet())
	}
	if c.HasCollation() {
		r.Collate = S(c.Collation())
	}
	if c.HasAutoUpdate() {
		r.AutoUpdate = S(c.AutoUpdate())
	}
	if c.HasComment() {
		r.Comment = S(Denoted(c.Comment()))
	}
	if c.HasDefault() {
		r.Default, r.DefQuoted = S(c.Default()), c.IsQuotedDefault()
		if r.DefQuoted {
			r.DefEscaped = strings.Contains(r.Default.S, `\`)
			r.Default.S = Denoted(r.Default.S)
		}
	}
	switch c.NullState() {
	case model.NullStateNull:
		r.Null = 1
	case model.NullStateNotNull:
		r.Null = 2
	}
	for v := range c.EnumValues() {
		r.Vals = append(r.Vals, Denoted(v))
	}
	for v := range c.SetValues() {
		r.Vals = append(r.Vals, Denoted(v))
	}
	return r
}

func canonIdxCols(ch chan model.IndexColumn) []IdxCol {
	var o []IdxCol
	for c := range ch {
		x := IdxCol{Name: c.Name()}
		if c.HasLength() {
			x.Len = S(c.Length())
		}
		if c.HasSortDirection() {
			x.Dir = "ASC"
			if c.IsDescending() {
				x.Dir = "DESC"
			}
		}
		o = append(o, x)
	}
	return o
}

func CanonIdx(i model.Index) Idx {
	var r Idx
	for _, k := range []struct {
		n string
		v bool
	}{{"PRIMARY", i.IsPrimaryKey()}, {"INDEX", i.IsNormal()}, {"UNIQUE", i.IsUnique()}, {"FULLTEXT", i.IsFullText()}, {"SPATIAL", i.IsSpatial()}, {"FOREIGN", i.IsForeignKey()}} {
		if k.v {
			if r.Kind != "" {
				r.Kind += "+"
			}
			r.Kind += k.n
		}
	}
	if i.HasName() {
		r.Name = S(i.Name())
	}
	if i.HasSymbol() {
		r.Sym = S(i.Symbol())
	}
	if i.IsBtree() {
		r.Type += "BTREE"
	}
	if i.IsHash() {
		r.Type += "HASH"
	}
	r.Cols = canonIdxCols(i.Columns())
	for o := range i.Options() {
		r.Opts = append(r.Opts, Opt{o.Key(), o.Value(), o.NeedQuotes()})
	}
	if ref := i.Reference(); ref != nil {
		r.Ref = CanonRef(ref)
	}
	return r
}

func CanonRef(ref model.Reference) *Refer {
	x := &Refer{Table: ref.TableName(), Cols: canonIdxCols(ref.Columns())}
	if ref.MatchFull() {
		x.Match += "FULL"
	}
	if ref.MatchPartial() {
		x.Match += "PARTIAL"
	}
	if ref.MatchSimple() {
		x.Match += "SIMPLE"
	}
	act := func(o model.ReferenceOption) string {
		switch o {
		case model.ReferenceOptionRestrict:
			return "RESTRICT"
		case model.ReferenceOptionCascade:
			return "CASCADE"
		case model.ReferenceOptionSetNull:
			return "SET NULL"
		case model.ReferenceOptionNoAction:
			return "NO ACTION"
		}
		return ""
	}
	x.OnDelete, x.OnUpdate = act(ref.OnDelete()), act(ref.OnUpdate())
	return x
}

// Fold removes what the layout properties do not compare: the letter case of
// table option values that are keywords.
func Fold(ts []Table) []Table {
	var o []Table
	for _, t := range ts {
		t.Opts = append([]Opt(nil), t.Opts...)
		for i, p := range t.Opts {
			if !p.Quoted && IsKeyword(p.Val) {
				t.Opts[i].Val = strings.ToUpper(p.Val)
			}
		}
		t.Cols = append([]Col(nil), t.Cols...)
		for i, c := range t.Cols {
			if IsKeyword(c.Charset.S) {
				t.Cols[i].Charset.S = strings.ToUpper(c.Charset.S)
			}
			if IsKeyword(c.Collate.S) {
				t.Cols[i].Collate.S = strings.ToUpper(c.Collate.S)
			}
		}
		o = append(o, t)
	}
	return o
}
