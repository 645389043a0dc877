package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/model"

	"schemaverif/fw"
	"schemaverif/ref"
)

// C06: formatting and parsing again gives the same model.

type indentOpt struct {
	s string
	n int
}

var indents = []indentOpt{{"", 0}, {" ", 2}, {"\t", 1}, {" ", 7}}

func fmtSQL(v interface{}, in indentOpt) (string, error) {
	var buf bytes.Buffer
	var opts []schemalex.Option
	if in.n > 0 {
		opts = append(opts, format.WithIndent(in.s, in.n))
	}
	err := format.SQL(&buf, v, opts...)
	return buf.String(), err
}

// expectTables parses the text and compares it with the tables.
func expectTables(what, text string, want []ref.Table) string {
	got, err := canonImpl(text)
	if err != nil {
		return fmt.Sprintf("%s: formatted as %q, which is rejected: %v", what, text, err)
	}
	if w, g := ref.Show(want), ref.Show(got); w != g {
		return fmt.Sprintf("%s: the model is\n%s\nit is formatted as %q, which is\n%s", what, w, text, g)
	}
	return ""
}

func judgeRoundtrip(c *fw.Ctx, payload string) string {
	stmts, err := parseImpl(payload)
	if err != nil {
		return ""
	}
	for _, s := range stmts {
		t, ok := s.(model.Table)
		if !ok {
			continue
		}
		want := ref.CanonTable(t)
		for k, in := range indents {
			if k > 1 && c.Light {
				break
			}
			text, err := fmtSQL(s, in)
			if err != nil {
				return fmt.Sprintf("format: %v", err)
			}
			what := fmt.Sprintf("indent %q*%d", in.s, in.n)
			again, err := parseImpl(text + []string{"", ";", ";\n", "\n"}[k])
			if err != nil || len(again) != 1 {
				return fmt.Sprintf("%s: formatted as %q, which is rejected: %v", what, text, err)
			}
			got, err := ref.Canon(again)
			if err != nil {
				return err.Error()
			}
			if w, g := want.String(), ref.Show(got); w != g {
				return fmt.Sprintf("%s: the model is\n%s\nit is formatted as %q, which is\n%s", what, w, text, g)
			}
			text2, err := fmtSQL(again[0], in)
			if err != nil || text2 != text {
				return fmt.Sprintf("%s: formatting again gives another text (error %v):\n%s\n%s", what, err, text, text2)
			}
			// a list of one statement
			text3, err := fmtSQL(model.Stmts{s}, in)
			if err != nil || text3 != text {
				return fmt.Sprintf("%s: formatting as a list gives another text (error %v):\n%s\n%s", what, err, text, text3)
			}
			if k == 0 || !c.Light {
				if v := pieces(t, in); v != "" {
					return v
				}
			}
		}
		if after := ref.CanonTable(t).String(); after != want.String() {
			return fmt.Sprintf("formatting changed the model from\n%s\nto\n%s", want, after)
		}
	}
	if len(stmts) > 1 {
		for _, in := range indents[:2] {
			want := ""
			for _, s := range stmts {
				text, err := fmtSQL(s, in)
				if err != nil {
					return fmt.Sprintf("format: %v", err)
				}
				want += text
			}
			if got, err := fmtSQL(stmts, in); err != nil || got != want {
				return fmt.Sprintf("a list of %d statements is formatted as\n%q (%v)\ninstead of\n%q", len(stmts), got, err, want)
			}
		}
	}
	return ""
}

// pieces formats the parts of a table alone.
func pieces(t model.Table, in indentOpt) string {
	for c := range t.Columns() {
		s, err := fmtSQL(c, in)
		if err != nil {
			return fmt.Sprintf("format of a column: %v", err)
		}
		if v := expectTables("column", "CREATE TABLE x ("+s+")", []ref.Table{ref.Normalize(ref.Table{Name: "x", Cols: []ref.Col{ref.CanonCol(c)}})}); v != "" {
			return v
		}
	}
	for i := range t.Indexes() {
		s, err := fmtSQL(i, in)
		if err != nil {
			return fmt.Sprintf("format of an index: %v", err)
		}
		if v := expectTables("index", "CREATE TABLE x ("+s+")", []ref.Table{ref.Normalize(ref.Table{Name: "x", Idx: []ref.Idx{ref.CanonIdx(i)}})}); v != "" {
			return v
		}
		if r := i.Reference(); r != nil {
			s, err := fmtSQL(r, in)
			if err != nil {
				return fmt.Sprintf("format of a reference: %v", err)
			}
			w := []ref.Table{{Name: "x", Idx: []ref.Idx{{Kind: "FOREIGN", Cols: []ref.IdxCol{{Name: "y"}}, Ref: ref.CanonRef(r)}}}}
			if v := expectTables("reference", "CREATE TABLE x (FOREIGN KEY (y) "+s+")", w); v != "" {
				return v
			}
		}
	}
	for o := range t.Options() {
		s, err := fmtSQL(o, in)
		if err != nil {
			return fmt.Sprintf("format of an option: %v", err)
		}
		tab := model.NewTable("x")
		tab.AddOption(o)
		w := ref.CanonTable(tab)
		w.Cols = []ref.Col{ref.NormalizeCol(ref.Col{Name: "y", Type: "INT"})}
		if v := expectTables("option", "CREATE TABLE x (y INT) "+s, []ref.Table{w}); v != "" {
			return v
		}
	}
	return ""
}

// typeByName finds a column type by its SQL name.
var typeByName = func() map[string]model.ColumnType {
	m := map[string]model.ColumnType{}
	for t := model.ColumnTypeInvalid + 1; t < model.ColumnTypeMax; t++ {
		m[t.String()] = t
	}
	return m
}()

func encBackslash(s string) string { return strings.ReplaceAll(s, `\`, `\\`) }

func toIdxCols(l []ref.IdxCol) (o []model.IndexColumn) {
	for _, c := range l {
		x := model.NewIndexColumn(c.Name)
		if c.Len.Ok {
			x.SetLength(c.Len.S)
		}
		switch c.Dir {
		case "ASC":
			x.SetSortDirection(model.SortDirectionAscending)
		case "DESC":
			x.SetSortDirection(model.SortDirectionDescending)
		}
		o = append(o, x)
	}
	return o
}

func toCol(c ref.Col) model.TableColumn {
	m := model.NewTableColumn(c.Name)
	m.SetType(typeByName[c.Type])
	if c.Len.Ok {
		l := model.NewLength(c.Len.S)
		if c.Dec.Ok {
			l.SetDecimal(c.Dec.S)
		}
		m.SetLength(l)
	}
	var vals []string
	for _, v := range c.Vals {
		vals = append(vals, encBackslash(v))
	}
	switch c.Type {
	case "ENUM":
		m.SetEnumValues(vals)
	case "SET":
		m.SetSetValues(vals)
	}
	m.SetUnsigned(c.Unsigned).SetZeroFill(c.Zerofill).SetBinary(c.Binary).SetAutoIncrement(c.AutoInc).SetUnique(c.Unique).SetPrimary(c.Primary).SetKey(c.Key)
	if c.Charset.Ok {
		m.SetCharacterSet(c.Charset.S)
	}
	if c.Collate.Ok {
		m.SetCollation(c.Collate.S)
	}
	if c.AutoUpdate.Ok {
		m.SetAutoUpdate(c.AutoUpdate.S)
	}
	if c.Comment.Ok {
		m.SetComment(encBackslash(c.Comment.S))
	}
	if c.Default.Ok {
		d := c.Default.S
		if c.DefQuoted {
			d = encBackslash(d)
		}
		m.SetDefault(d, c.DefQuoted)
	}
	switch c.Null {
	case 1:
		m.SetNullState(model.NullStateNull)
	case 2:
		m.SetNullState(model.NullStateNotNull)
	}
	return m
}

var kindOf = map[string]model.IndexKind{"PRIMARY": model.IndexKindPrimaryKey, "INDEX": model.IndexKindNormal, "UNIQUE": model.IndexKindUnique,
	"FULLTEXT": model.IndexKindFullText, "SPATIAL": model.IndexKindSpatial, "FOREIGN": model.IndexKindForeignKey}
var indexTypeOf = map[string]model.IndexType{"": model.IndexTypeNone, "BTREE": model.IndexTypeBtree, "HASH": model.IndexTypeHash}
var matchOf = map[string]model.ReferenceMatch{"": model.ReferenceMatchNone, "FULL": model.ReferenceMatchFull, "PARTIAL": model.ReferenceMatchPartial, "SIMPLE": model.ReferenceMatchSimple}
var actionOf = map[string]model.ReferenceOption{"": model.ReferenceOptionNone, "RESTRICT": model.ReferenceOptionRestrict, "CASCADE": model.ReferenceOptionCascade,
	"SET NULL": model.ReferenceOptionSetNull, "NO ACTION": model.ReferenceOptionNoAction}

func toRef(r *ref.Refer) model.Reference {
	m := model.NewReference()
	m.SetTableName(r.Table)
	m.AddColumns(toIdxCols(r.Cols)...)
	m.SetMatch(matchOf[r.Match])
	m.SetOnDelete(actionOf[r.OnDelete])
	m.SetOnUpdate(actionOf[r.OnUpdate])
	return m
}

func toIdx(i ref.Idx, tableID string) model.Index {
	m := model.NewIndex(kindOf[i.Kind], tableID)
	if i.Name.Ok {
		m.SetName(i.Name.S)
	}
	if i.Sym.Ok {
		m.SetSymbol(i.Sym.S)
	}
	m.SetType(indexTypeOf[i.Type])
	m.AddColumns(toIdxCols(i.Cols)...)
	for _, o := range i.Opts {
		m.AddOption(model.NewIndexOption(o.Key, o.Val, o.Quoted))
	}
	if i.Ref != nil {
		m.SetReference(toRef(i.Ref))
	}
	return m
}

func toTable(t ref.Table) model.Table {
	m := model.NewTable(t.Name)
	m.SetTemporary(t.Temp).SetIfNotExists(t.INE)
	if t.Like.Ok {
		m.SetLikeTable(t.Like.S)
	}
	for _, c := range t.Cols {
		m.AddColumn(toCol(c))
	}
	for _, i := range t.Idx {
		m.AddIndex(toIdx(i, m.ID()))
	}
	for _, o := range t.Opts {
		v := o.Val
		if o.Quoted {
			v = encBackslash(v)
		} else if lexed := ref.Lex(v); strings.HasPrefix(v, "`") || len(lexed) != 2 || lexed[0].Text != v || ref.Run(ref.Lex("CREATE TABLE t (a INT) "+o.Key+" = "+v)) >= 0 {
			v = "`" + strings.ReplaceAll(v, "`", "``") + "`"
		}
		m.AddOption(model.NewTableOption(o.Key, v, o.Quoted))
	}
	return m
}

// judgeModel builds the model that the text declares through the API, and
// formats it without normalizing it first.
func judgeModel(c *fw.Ctx, payload string) string {
	toks := ref.Lex(payload)
	if ref.Run(toks) >= 0 {
		return ""
	}
	for _, t := range ref.Build(toks) {
		for i := range t.Cols {
			t.Cols[i].DefEscaped = t.Cols[i].DefQuoted && strings.Contains(t.Cols[i].Default.S, `\`)
		}
		m := toTable(t)
		for _, in := range indents[:2] {
			text, err := fmtSQL(m, in)
			if err != nil {
				return fmt.Sprintf("format: %v", err)
			}
			if v := expectTables("built model", text, []ref.Table{ref.Normalize(t)}); v != "" {
				return v
			}
		}
	}
	return ""
}

func judgeDatabase(c *fw.Ctx, payload string) string {
	for _, ine := range []bool{false, true} {
		d := model.NewDatabase(payload)
		d.SetIfNotExists(ine)
		text, err := fmtSQL(d, indents[0])
		if err != nil {
			return err.Error()
		}
		toks := ref.Lex(text)
		if i := ref.Run(toks); i >= 0 {
			return fmt.Sprintf("%q is not a statement", text)
		}
		want := []string{"CREATE", "DATABASE", "BT", ";", "EOF"}
		if ine {
			want = []string{"CREATE", "DATABASE", "IF", "NOT", "EXISTS", "BT", ";", "EOF"}
		}
		if k := kindsOf(text); k != strings.Join(want, " ") {
			return fmt.Sprintf("%q", text)
		}
		if n := toks[len(toks)-3].Val; n != payload {
			return fmt.Sprintf("%q names %q instead of %q", text, n, payload)
		}
		if _, err := parseImpl(text + "CREATE TABLE t (a INT)"); err != nil {
			return fmt.Sprintf("%q: %v", text, err)
		}
	}
	return ""
}

func judgeType(c *fw.Ctx, payload string) string {
	t := typeByName[payload]
	text, err := fmtSQL(t, indents[0])
	if err != nil || text != payload {
		return fmt.Sprintf("formatted as %q, error %v", text, err)
	}
	return ""
}

func init() {
	fw.Register(&fw.Check{ID: "C06", Level: "model_checking",
		Rule:   "Base texts for every transition of the grammar automaton and for every fragment (and pair of fragments) of the catalogs, every byte string up to byte_depth in the quoted contexts, every word in every place, texts of all sizes (1025; thorough 65537); each that is accepted is parsed, every statement and every part of it formatted with four indentations, parsed and formatted again; the un-normalized model of each base text is also built through the API.",
		Probes: map[string]fw.Probe{"roundtrip": judgeRoundtrip, "model": judgeModel, "database": judgeDatabase, "type": judgeType, "broken": judgeBrokenFormat, "raw": judgeRaw},
		Leveled: func(m *fw.Merged, cov map[string]interface{}) {
			cov["transitions"] = m.Counts["texts"]
			cov["traces_validated_against_impl"] = m.Counts["evaluations"]
		},
		Explore: func(c *fw.Ctx) {
			exploreBroken(c)
			exploreRaw(c)
			run := func(text string) {
				if c.Expired() {
					return
				}
				if _, bad := ref.Parse(text); bad != nil {
					return
				}
				c.Add("texts", 1)
				c.Run("roundtrip", text)
				if !c.Light {
					c.Run("model", text)
				}
				if c.Worker == 0 {
					c.Sample(text)
				}
			}
			for _, t := range append(append([]string{}, ref.Keywords...), "ENUM") {
				if _, ok := typeByName[t]; ok && c.Mine() {
					c.Run("type", t)
				}
			}
			strs([]string{"`", "a", "\\", "'", " ", ";", "\"", "-", "é"}, 1, 4, func(s string) {
				if c.Mine() {
					c.Run("database", s)
				}
			})
			baseTexts(c, run)
			keywordTexts(c, run)
			c.Light = !c.Thorough
			limit := 1025
			if c.Thorough {
				limit = 65537
			}
			sizedTexts(c, limit, run)
			valueTexts(c, run)
			patternTexts(c, run)
			structTexts(c, run)
			byteTexts(c, run)
		}})
}

// rawPlaces make a table of a text as a program spells it: with escape sequences
// where there are strings (the first six), without where there are names.
var rawPlaces = []func(t model.Table, v string){
	func(t model.Table, v string) {
		t.AddColumn(model.NewTableColumn("a").SetType(model.ColumnTypeInt).SetComment(v))
	},
	func(t model.Table, v string) {
		t.AddColumn(model.NewTableColumn("a").SetType(model.ColumnTypeVarChar).SetLength(model.NewLength("9")).SetDefault(v, true).SetComment(v))
	},
	func(t model.Table, v string) {
		t.AddColumn(model.NewTableColumn("a").SetType(model.ColumnTypeEnum).SetEnumValues([]string{v, "x"}))
	},
	func(t model.Table, v string) {
		t.AddColumn(model.NewTableColumn("a").SetType(model.ColumnTypeSet).SetSetValues([]string{"x", v}))
	},
	func(t model.Table, v string) { t.AddOption(model.NewTableOption("COMMENT", v, true)) },
	func(t model.Table, v string) {
		t.AddOption(model.NewTableOption("CONNECTION", v, true)).AddOption(model.NewTableOption("PASSWORD", v, true))
	},
	func(t model.Table, v string) {
		t.AddColumn(model.NewTableColumn(v).SetType(model.ColumnTypeText).SetCharacterSet(v).SetCollation(v))
	},
	func(t model.Table, v string) {
		x := model.NewIndex(model.IndexKindUnique, t.ID()).SetName(v).SetSymbol(v)
		x.AddColumns(model.NewIndexColumn(v).SetLength("3"), model.NewIndexColumn("z"))
		t.AddIndex(x)
	},
	func(t model.Table, v string) {
		x := model.NewIndex(model.IndexKindForeignKey, t.ID()).SetName(v).SetSymbol("s")
		x.AddColumns(model.NewIndexColumn("z"))
		r := model.NewReference().SetTableName(v)
		r.AddColumns(model.NewIndexColumn(v))
		t.AddIndex(x.SetReference(r))
	},
}

const rawStrings = 6

func rawTable(place int, v string) model.Table {
	t := model.NewTable("t")
	if place >= rawStrings {
		t = model.NewTable(v)
	}
	t.AddColumn(model.NewTableColumn("z").SetType(model.ColumnTypeInt))
	rawPlaces[place](t, v)
	return t
}

// judgeRaw formats texts that need not be what the parser has read.
func judgeRaw(_ *fw.Ctx, payload string) string {
	v := payload[1:]
	place := int(payload[0] - 'A')
	want := v
	if place < rawStrings {
		end := 0
		for end < len(v) {
			if v[end] == '\\' {
				end++
			}
			end++
		}
		if end > len(v) { // a backslash without anything to escape denotes itself
			want += `\`
		}
	}
	n, _ := rawTable(place, want).Normalize()
	for _, in := range indents[:2] {
		text, err := fmtSQL(rawTable(place, v), in)
		if err != nil {
			return fmt.Sprintf("format: %v", err)
		}
		if s := expectTables("built model", text, []ref.Table{ref.CanonTable(n)}); s != "" {
			return s
		}
	}
	return ""
}

func exploreRaw(c *fw.Ctx) {
	depth := 5
	if c.Thorough {
		depth = 6
	}
	run := func(v string) {
		for p := range rawPlaces {
			if v != "" || p < rawStrings {
				c.Run("raw", string(rune('A'+p))+v)
			}
		}
	}
	strs([]string{`\`, "'", "a", `"`, "`", "\n"}, 0, depth, func(s string) {
		if c.Mine() {
			run(s)
		}
	})
	for _, v := range oddValues {
		if c.Mine() {
			run(v)
			run(v + `\`)
			run(`\` + v)
		}
	}
}
