package checks

import (
	"bytes"
	"fmt"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/model"

	"schemaverif/fw"
)

// C05 and C06: models that no text can express are refused, with nothing written.

// broken is what can be wrong with a model that is built through the API: each
// gives columns and indexes of a table.
var broken = func() (o []struct {
	name string
	col  func(name string) model.TableColumn
	idx  func(name string) model.Index
}) {
	col := func(name string, f func(c model.TableColumn)) {
		o = append(o, struct {
			name string
			col  func(name string) model.TableColumn
			idx  func(name string) model.Index
		}{name, func(n string) model.TableColumn { c := model.NewTableColumn(n); f(c); return c }, nil})
	}
	for _, t := range []model.ColumnType{model.ColumnTypeInvalid, model.ColumnTypeMax, -1, model.ColumnTypeMax + 1} {
		col(fmt.Sprintf("column of type %d", int(t)), func(c model.TableColumn) { c.SetType(t) })
	}
	col("enumeration without values", func(c model.TableColumn) { c.SetType(model.ColumnTypeEnum) })
	col("enumeration with no values", func(c model.TableColumn) { c.SetType(model.ColumnTypeEnum).SetEnumValues([]string{}) })
	col("enumeration with values of a set", func(c model.TableColumn) { c.SetType(model.ColumnTypeEnum).SetSetValues([]string{"a"}) })
	col("set without values", func(c model.TableColumn) { c.SetType(model.ColumnTypeSet) })
	col("set with values of an enumeration", func(c model.TableColumn) { c.SetType(model.ColumnTypeSet).SetEnumValues([]string{"a"}) })
	idx := func(name string, f func(n string) model.Index) {
		o = append(o, struct {
			name string
			col  func(name string) model.TableColumn
			idx  func(name string) model.Index
		}{name, nil, f})
	}
	a := func() model.IndexColumn { return model.NewIndexColumn("a") }
	reference := func() model.Reference { r := model.NewReference().SetTableName("p"); r.AddColumns(a()); return r }
	for k := model.IndexKindPrimaryKey; k <= model.IndexKindForeignKey; k++ {
		idx(fmt.Sprintf("%s without columns", k), func(n string) model.Index {
			i := model.NewIndex(k, "t").SetName(n).SetSymbol(n)
			if k == model.IndexKindForeignKey {
				i.SetReference(reference())
			}
			return i
		})
		if k != model.IndexKindForeignKey {
			idx(fmt.Sprintf("%s with a reference", k), func(n string) model.Index {
				i := model.NewIndex(k, "t").SetName(n).SetReference(reference())
				i.AddColumns(a())
				return i
			})
		}
	}
	for _, k := range []model.IndexKind{model.IndexKindInvalid, -1, model.IndexKindForeignKey + 1} {
		idx(fmt.Sprintf("index of kind %d", int(k)), func(n string) model.Index {
			i := model.NewIndex(k, "t").SetName(n)
			i.AddColumns(a())
			return i
		})
	}
	fk := func(name string, r func() model.Reference) {
		idx("foreign key with "+name, func(n string) model.Index {
			i := model.NewIndex(model.IndexKindForeignKey, "t").SetSymbol(n).SetReference(r())
			i.AddColumns(a())
			return i
		})
	}
	fk("a reference without columns", func() model.Reference { return model.NewReference().SetTableName("p") })
	for _, x := range []model.ReferenceOption{-1, model.ReferenceOptionNoAction + 1} {
		fk(fmt.Sprintf("action %d", int(x)), func() model.Reference { return reference().SetOnDelete(x) })
		fk(fmt.Sprintf("update action %d", int(x)), func() model.Reference {
			return reference().SetOnDelete(model.ReferenceOptionCascade).SetOnUpdate(x)
		})
	}
	return o
}()

// brokenTable has sound columns and indexes around the broken one, if that
// is to be there; otherwise a sound object in its place, or none.
func brokenTable(n, at int, how string) model.Table {
	b := broken[n]
	t := model.NewTable("t")
	for i := 0; i < 3; i++ {
		if i == at && b.col != nil {
			switch how {
			case "broken":
				t.AddColumn(b.col("x"))
			case "sound":
				t.AddColumn(model.NewTableColumn("x").SetType(model.ColumnTypeInt))
			}
		}
		t.AddColumn(model.NewTableColumn(string(rune('a' + i))).SetType(model.ColumnTypeInt))
	}
	for i := 0; i < 3; i++ {
		if i == at && b.idx != nil {
			switch how {
			case "broken":
				t.AddIndex(b.idx("x"))
			case "sound":
				x := model.NewIndex(model.IndexKindNormal, t.ID()).SetName("x")
				x.AddColumns(model.NewIndexColumn("b"))
				t.AddIndex(x)
			}
		}
		x := model.NewIndex(model.IndexKindUnique, t.ID()).SetName("k" + string(rune('a'+i)))
		x.AddColumns(model.NewIndexColumn(string(rune('a' + i))))
		t.AddIndex(x)
	}
	return t
}

func refused(what, out string, err error) string {
	if err == nil {
		return fmt.Sprintf("%s: no error, but %q", what, out)
	}
	if out != "" {
		return fmt.Sprintf("%s: %q is written in spite of the error %v", what, out, err)
	}
	return ""
}

func judgeBrokenFormat(c *fw.Ctx, payload string) string {
	var n, at int
	fmt.Sscan(payload, &n, &at)
	if n < 0 {
		empty := model.NewTable("t").AddOption(model.NewTableOption("ENGINE", "x", false))
		out, err := fmtSQL(empty, indents[0])
		return refused("table without columns", out, err)
	}
	for _, in := range indents {
		t := brokenTable(n, at, "broken")
		out, err := fmtSQL(t, in)
		if s := refused("table with "+broken[n].name, out, err); s != "" {
			return s
		}
		for _, l := range []model.Stmts{{t}, {t, brokenTable(n, at, "sound")}} {
			out, err = fmtSQL(l, in)
			if s := refused("list of tables with "+broken[n].name, out, err); s != "" {
				return s
			}
		}
		if b := broken[n]; b.col != nil {
			out, err = fmtSQL(b.col("x"), in)
		} else {
			out, err = fmtSQL(b.idx("x"), in)
		}
		if s := refused(broken[n].name, out, err); s != "" {
			return s
		}
		if out, err = fmtSQL(brokenTable(n, at, "sound"), in); err != nil {
			return fmt.Sprintf("a sound table: %v", err)
		}
	}
	return ""
}

func judgeBrokenDiff(c *fw.Ctx, payload string) string {
	var n, at int
	fmt.Sscan(payload, &n, &at)
	other := func(name string) model.Stmt {
		t := model.NewTable(name)
		t.AddColumn(model.NewTableColumn("c").SetType(model.ColumnTypeInt))
		return t
	}
	to := model.Stmts{other("o"), brokenTable(n, at, "broken"), other("p")}
	for k, from := range []model.Stmts{nil, {other("o"), other("q")}, {other("t")}, {brokenTable(n, at, "none")}, {other("q"), brokenTable(n, at, "sound"), other("p")}} {
		for _, o := range [][]schemalex.Option{nil, {diff.WithTransaction(true)}} {
			var b bytes.Buffer
			err := diff.Statements(&b, from, to, o...)
			if s := refused(fmt.Sprintf("diff %d to a table with %s", k, broken[n].name), b.String(), err); s != "" {
				return s
			}
		}
	}
	// after a long output: tables that are dropped, created and altered
	var from, long model.Stmts
	for i := 0; i < 10; i++ {
		name := fmt.Sprintf("%d%s", i, bytes.Repeat([]byte("long_name_"), 1000))
		from = append(from, other("old"+name))
		long = append(long, other("new"+name))
		alt := other("tab" + name).(model.Table)
		from = append(from, alt)
		alt = other("tab" + name).(model.Table)
		alt.AddColumn(model.NewTableColumn("d" + name).SetType(model.ColumnTypeInt))
		long = append(long, alt)
	}
	for _, from := range []model.Stmts{from, append(model.Stmts{brokenTable(n, at, "none")}, from...), append(from[:len(from):len(from)], brokenTable(n, at, "sound"))} {
		for _, to := range []model.Stmts{append(model.Stmts{brokenTable(n, at, "broken")}, long...), append(long[:len(long):len(long)], brokenTable(n, at, "broken"))} {
			for _, o := range [][]schemalex.Option{nil, {diff.WithTransaction(true)}} {
				var b bytes.Buffer
				err := diff.Statements(&b, from, to, o...)
				if s := refused("long diff to a table with "+broken[n].name, b.String(), err); s != "" {
					return fmt.Sprintf("%.300s", s)
				}
			}
		}
	}
	return ""
}

func exploreBroken(c *fw.Ctx) {
	for n := -1; n < len(broken); n++ {
		for at := 0; at < 3; at++ {
			if n < 0 && c.Check.ID != "C06" {
				continue
			}
			if c.Mine() {
				c.Run("broken", fmt.Sprint(n, at))
			}
		}
	}
}
