package checks

import (
	"fmt"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/schemalex/schemalex/model"

	"schemaverif/fw"
	"schemaverif/ref"
)

// C12: normalization. C13: containers and clones. C14: identities.

// ---- C12

func fixEscaped(t *ref.Table) {
	for i := range t.Cols {
		t.Cols[i].DefEscaped = t.Cols[i].DefQuoted && strings.Contains(t.Cols[i].Default.S, `\`)
	}
}

func judgeNormTables(c *fw.Ctx, payload string) string {
	toks := ref.Lex(payload)
	if ref.Run(toks) >= 0 {
		return ""
	}
	for _, t := range ref.Build(toks) {
		fixEscaped(&t)
		if v := normTable(t); v != "" {
			return v
		}
	}
	return ""
}

func normTable(t ref.Table) string {
	m := toTable(t)
	before := ref.CanonTable(m).String()
	var cols []model.TableColumn
	for c := range m.Columns() {
		cols = append(cols, c)
	}
	n, modified := m.Normalize()
	if after := ref.CanonTable(m).String(); after != before {
		return fmt.Sprintf("normalizing changes the receiver from\n%s\nto\n%s", before, after)
	}
	i := 0
	for c := range m.Columns() {
		if c != cols[i] || c.TableID() != m.ID() {
			return fmt.Sprintf("normalizing replaces column %d of the receiver, or its table", i)
		}
		i++
	}
	if !modified && n != m {
		return "not modified, but not the receiver"
	}
	want := ref.Normalize(t).String()
	if got := ref.CanonTable(n).String(); got != want {
		return fmt.Sprintf("the table\n%s\nshould be normalized to\n%s\nit is\n%s", before, want, got)
	}
	if n.ID() != m.ID() {
		return "normalizing changes the identity"
	}
	if v := lookups(n); v != "" {
		return "normalized: " + v
	}
	n2, modified2 := n.Normalize()
	if got := ref.CanonTable(n2).String(); got != want {
		return fmt.Sprintf("normalizing twice gives\n%s\nonce:\n%s", got, want)
	}
	if modified2 || n2 != n {
		return "normalizing again reports a modification"
	}
	for i := range m.Indexes() {
		before := ref.CanonIdx(i).String()
		x, mod := i.Normalize()
		if !mod && x != i || ref.CanonIdx(i).String() != before || ref.CanonIdx(x).String() != before {
			return "normalizing an index: " + before
		}
	}
	for k, c := range cols {
		if v := normCol(c, t.Cols[k]); v != "" {
			return v
		}
	}
	return ""
}

func normCol(m model.TableColumn, c ref.Col) string {
	before := ref.CanonCol(m).String()
	n, modified := m.Normalize()
	if after := ref.CanonCol(m).String(); after != before {
		return fmt.Sprintf("normalizing changes the receiver from\n%s\nto\n%s", before, after)
	}
	if !modified && n != m {
		return "not modified, but not the receiver"
	}
	want := ref.NormalizeCol(c).String()
	if got := ref.CanonCol(n).String(); got != want {
		return fmt.Sprintf("the column\n%s\nshould be normalized to\n%s\nit is\n%s", before, want, got)
	}
	if n.ID() != m.ID() || n.TableID() != m.TableID() {
		return "normalizing changes the identity"
	}
	n2, modified2 := n.Normalize()
	if got := ref.CanonCol(n2).String(); got != want || modified2 || n2 != n {
		return fmt.Sprintf("normalizing twice gives\n%s (modified: %v)\nonce:\n%s", got, modified2, want)
	}
	l, d := ref.NativeLength(c.Type, c.Unsigned)
	var gl, gd ref.Str
	if nl := m.NativeLength(); nl != nil {
		gl = ref.S(nl.Length())
		if nl.HasDecimal() {
			gd = ref.S(nl.Decimal())
		}
	}
	if gl != l || gd != d {
		return fmt.Sprintf("native length of %s: %v %v instead of %v %v", before, gl, gd, l, d)
	}
	return ""
}

// looked tells which elements of a long list are looked up: a lookup may take
// time in proportion to the length.
func looked(i, n int) bool {
	return n < 200 || i < 16 || i >= n-16 || i&(i-1) == 0 || (i+1)&i == 0 || i == n/2
}

// lookups compares the lookup methods with the listings. Where several columns
// have the same name, it is left open which of them is found.
func lookups(t model.Table) string {
	var cols []model.TableColumn
	for c := range t.Columns() {
		cols = append(cols, c)
	}
	for i, c := range cols {
		if !looked(i, len(cols)) {
			continue
		}
		n, ok := t.LookupColumnOrder(c.ID())
		if !ok || n < 0 || n >= len(cols) || cols[n].ID() != c.ID() {
			return fmt.Sprintf("LookupColumnOrder(%q) is %d, %v instead of %d", c.ID(), n, ok, i)
		}
		got, ok := t.LookupColumn(c.ID())
		if !ok || got != cols[n] {
			return fmt.Sprintf("LookupColumn(%q) does not find column %d", c.ID(), i)
		}
		b, ok := t.LookupColumnBefore(c.ID())
		if ok != (n > 0) || ok && b != cols[n-1] {
			return fmt.Sprintf("LookupColumnBefore(%q) does not find column %d (%v)", c.ID(), i-1, ok)
		}
		if c.TableID() != t.ID() {
			return fmt.Sprintf("column %q of table %q says it belongs to %q", c.ID(), t.ID(), c.TableID())
		}
	}
	for _, id := range []string{"", "tablecol#", "zz", "tablecol#zz", "table#a"} {
		if slices.ContainsFunc(cols, func(c model.TableColumn) bool { return c.ID() == id }) { // an empty name
			continue
		}
		if _, ok := t.LookupColumn(id); ok {
			return fmt.Sprintf("LookupColumn(%q) finds something", id)
		}
		if _, ok := t.LookupColumnOrder(id); ok {
			return fmt.Sprintf("LookupColumnOrder(%q) finds something", id)
		}
		if _, ok := t.LookupColumnBefore(id); ok {
			return fmt.Sprintf("LookupColumnBefore(%q) finds something", id)
		}
		if _, ok := t.LookupIndex(id); ok {
			return fmt.Sprintf("LookupIndex(%q) finds something", id)
		}
	}
	seen := map[string]bool{}
	ch := t.Indexes()
	nx, i := len(ch), -1
	for x := range ch {
		if i++; !looked(i, nx) {
			seen[x.ID()] = true
			continue
		}
		got, ok := t.LookupIndex(x.ID())
		if !ok || !seen[x.ID()] && got != x || got.ID() != x.ID() {
			return fmt.Sprintf("LookupIndex(%q) does not find %s", x.ID(), ref.CanonIdx(x))
		}
		seen[x.ID()] = true
	}
	return ""
}

// the product of column definitions that can be built through the API
var apiTypes = func() (o []string) {
	for t := model.ColumnTypeInvalid + 1; t < model.ColumnTypeMax; t++ {
		o = append(o, t.String())
	}
	return o
}()
var apiLens = [][2]ref.Str{{}, {ref.S("5"), {}}, {ref.S("7"), ref.S("2")}}
var apiDefaults = []struct {
	d ref.Str
	q bool
}{{}, {ref.S("NULL"), false}, {ref.S("1"), true}, {ref.S("x"), true}, {ref.S("1e-3"), true}, {ref.S("2.5"), false}, {ref.S("TRUE"), false}, {ref.S("FALSE"), false}, {ref.S("TRUE"), true}, {ref.S(""), true}, {ref.S("-.5"), true}, {ref.S("+7."), true}, {ref.S("0x1"), true}, {ref.S("CURRENT_TIMESTAMP"), false}}

func apiCol(ty, ln, nl, df, fl int) ref.Col {
	c := ref.Col{Name: "a", Type: apiTypes[ty], Len: apiLens[ln][0], Dec: apiLens[ln][1], Null: nl, Default: apiDefaults[df].d, DefQuoted: apiDefaults[df].q}
	c.Unsigned, c.Unique, c.Primary, c.Key, c.AutoInc = fl&1 != 0, fl&2 != 0, fl&4 != 0, fl&8 != 0, fl&16 != 0
	if c.Type == "ENUM" || c.Type == "SET" {
		c.Vals, c.Len, c.Dec = []string{"p", "q"}, ref.Str{}, ref.Str{}
	}
	return c
}

func judgeNormCol(c *fw.Ctx, payload string) string {
	var ty, ln, nl, df, fl int
	fmt.Sscan(payload, &ty, &ln, &nl, &df, &fl)
	if ty >= len(apiTypes) {
		return ""
	}
	col := apiCol(ty, ln, nl, df, fl)
	z := ref.Col{Name: "z", Type: "INT", Len: ref.S("11"), Null: 2}
	for _, t := range []ref.Table{{Name: "t", Cols: []ref.Col{col}}, {Name: "t", Temp: true, INE: true, Cols: []ref.Col{z, col}, Idx: []ref.Idx{{Kind: "FOREIGN", Sym: ref.S("a"), Cols: []ref.IdxCol{{Name: "z"}}, Ref: &ref.Refer{Table: "p", Cols: []ref.IdxCol{{Name: "x"}}}}}, Opts: []ref.Opt{{"ENGINE", "x", false}}}, {Name: "t", Like: ref.S("u"), Cols: []ref.Col{col}, Opts: []ref.Opt{{"ENGINE", "x", false}}}, {Name: "t", Temp: true, INE: fl&1 != 0, Like: ref.S("u"), Cols: []ref.Col{col}}} {
		if v := normTable(t); v != "" {
			return v
		}
	}
	return ""
}

// againTables are the tables that are changed and normalized again and again.
var againTables = []ref.Table{
	{Name: "t", Cols: []ref.Col{{Name: "a", Type: "INT"}, {Name: "b", Type: "VARCHAR", Len: ref.S("9")}}, Idx: []ref.Idx{{Kind: "FOREIGN", Sym: ref.S("k"), Cols: []ref.IdxCol{{Name: "b"}}, Ref: &ref.Refer{Table: "p", Cols: []ref.IdxCol{{Name: "x"}}}}, {Kind: "UNIQUE", Name: ref.S("u"), Cols: []ref.IdxCol{{Name: "a"}}}}},
	{Name: "t", Cols: []ref.Col{{Name: "a", Type: "TEXT", Null: 2}, {Name: "b", Type: "VARCHAR", Len: ref.S("9"), Null: 2}}, Idx: []ref.Idx{{Kind: "INDEX", Name: ref.S("k"), Cols: []ref.IdxCol{{Name: "a"}}}}},
}

// tableSetters are the changes of a table itself.
var tableSetters = []func(m model.Table, i int){
	func(m model.Table, i int) {
		m.AddColumn(model.NewTableColumn("c" + strconv.Itoa(i)).SetType(model.ColumnTypeBigInt))
	},
	func(m model.Table, i int) { m.AddColumn(toCol(ref.Col{Name: "p" + strconv.Itoa(i), Type: "BOOLEAN", Primary: true, Unique: true})) },
	func(m model.Table, i int) {
		m.AddIndex(toIdx(ref.Idx{Kind: "INDEX", Name: ref.S("s1"), Cols: []ref.IdxCol{{Name: "b"}}}, m.ID()))
	},
	func(m model.Table, i int) {
		m.AddIndex(toIdx(ref.Idx{Kind: "FOREIGN", Sym: ref.S("g"), Cols: []ref.IdxCol{{Name: "a"}}, Ref: &ref.Refer{Table: "p"}}, m.ID()))
	},
	func(m model.Table, i int) { m.AddOption(model.NewTableOption("x", strconv.Itoa(i), false)) },
	func(m model.Table, i int) { m.SetTemporary(!m.IsTemporary()) },
	func(m model.Table, i int) { m.SetIfNotExists(!m.IsIfNotExists()) },
	func(m model.Table, i int) { m.SetLikeTable("l" + strconv.Itoa(i)) },
}

// judgeNormAgain normalizes a table after every change of it, of a column and of an index.
func judgeNormAgain(c *fw.Ctx, payload string) string {
	if payload == "" || int(payload[0]) >= len(againTables) {
		return ""
	}
	t := againTables[payload[0]]
	m := toTable(t)
	col, _ := m.LookupColumn("tablecol#a")
	var idx model.Index
	for x := range m.Indexes() {
		if idx == nil {
			idx = x
		}
	}
	rc, ri := t.Cols[0], t.Idx[0]
	callerCols, callerN = make([]model.IndexColumn, 1, 8), 0
	var earlier []model.Table
	var dumps []string
	for i := 0; i < len(payload); i++ {
		if b := int(payload[i]); i == 0 {
		} else if b < len(colSetters) {
			colSetters[b](col, &rc)
		} else if b -= len(colSetters); b < len(idxSetters) {
			idxSetters[b](idx, &ri)
		} else if b -= len(idxSetters); b < len(tableSetters) {
			tableSetters[b](m, i)
		}
		now := ref.CanonTable(m)
		if k := now.Cols[0]; len(k.Vals) > 0 && k.Type != "ENUM" && k.Type != "SET" {
			continue // only ENUM and SET have values
		}
		before := now.String()
		fixEscaped(&now)
		want := ref.Normalize(now).String()
		n, modified := m.Normalize()
		if got := ref.CanonTable(n).String(); got != want {
			return fmt.Sprintf("after operation %d of %q, the table\n%s\nshould be normalized to\n%s\nit is\n%s", i, payload, before, want, got)
		}
		if after := ref.CanonTable(m).String(); after != before || !modified && n != m {
			return fmt.Sprintf("operation %d of %q: normalizing changes the receiver from\n%s\nto\n%s", i, payload, before, after)
		}
		n2, modified2 := n.Normalize()
		if modified2 || n2 != n {
			return fmt.Sprintf("operation %d of %q: normalizing twice reports a modification", i, payload)
		}
		if v := normCol(col, now.Cols[0]); v != "" {
			return v
		}
		if got := ref.CanonIdx(idx).String(); got != now.Idx[0].String() {
			return fmt.Sprintf("operation %d of %q: normalizing changes an index to %s", i, payload, got)
		}
		for j, e := range earlier {
			if e != m && ref.CanonTable(e).String() != dumps[j] {
				return fmt.Sprintf("operation %d of %q changes the normal form from before operation %d from\n%s\nto\n%s", i, payload, j+1, dumps[j], ref.CanonTable(e))
			}
		}
		earlier, dumps = append(earlier, n), append(dumps, want)
	}
	return ""
}

// apiIdx is an index, as a program can build it.
func apiIdx(n int) ref.Idx {
	pick := func(k int) int { r := n % k; n /= k; return r }
	name := []ref.Str{{}, ref.S("k"), ref.S("f")}
	i := ref.Idx{Kind: []string{"FOREIGN", "INDEX", "UNIQUE", "PRIMARY", "FULLTEXT", "SPATIAL"}[pick(6)]}
	i.Sym = name[pick(3)]
	i.Name = name[pick(3)]
	i.Type = []string{"", "BTREE", "HASH"}[pick(3)]
	i.Cols = [][]ref.IdxCol{{{Name: "a"}}, {{Name: "b", Len: ref.S("3"), Dir: "DESC"}, {Name: "a"}}}[pick(2)]
	if i.Kind == "FOREIGN" {
		i.Ref = &ref.Refer{Table: "p", Cols: i.Cols, OnDelete: "CASCADE"}
		i.Opts = [][]ref.Opt{nil, {{Key: "WITH PARSER", Val: "ngram"}}}[pick(2)]
	}
	return i
}

const apiIdxs = 6 * 3 * 3 * 3 * 2

// judgeNormIdx normalizes a table with any indexes and with the flags of a column.
func judgeNormIdx(c *fw.Ctx, payload string) string {
	t := ref.Table{Name: "t", Cols: []ref.Col{{Name: "a", Type: "INT", Len: ref.S("11"), Null: 2}, {Name: "b", Type: "VARCHAR", Len: ref.S("9"), Null: 2}}}
	for k, s := range strings.Fields(payload) {
		n, err := strconv.Atoi(s)
		if err != nil {
			panic(err)
		}
		if k == 0 {
			t.Cols[0].Unique, t.Cols[0].Primary, t.Cols[0].Key = n&1 > 0, n&2 > 0, n&4 > 0
			if n&8 > 0 {
				t.Cols[0].Name, t.Cols[1].Name = "f", "k"
			}
			continue
		}
		t.Idx = append(t.Idx, apiIdx(n))
	}
	return normTable(t)
}

// ---- C13

// colSetters are all of the changes that can be made to a column.
var colSetters = func() (o []func(m model.TableColumn, c *ref.Col)) {
	add := func(f func(m model.TableColumn, c *ref.Col)) { o = append(o, f) }
	for _, t := range []string{"INT", "TEXT", "ENUM"} {
		add(func(m model.TableColumn, c *ref.Col) { m.SetType(typeByName[t]); c.Type = t })
	}
	add(func(m model.TableColumn, c *ref.Col) {
		m.SetLength(model.NewLength("3"))
		c.Len, c.Dec = ref.S("3"), ref.Str{}
	})
	add(func(m model.TableColumn, c *ref.Col) {
		m.SetLength(model.NewLength("8").SetDecimal("4"))
		c.Len, c.Dec = ref.S("8"), ref.S("4")
	})
	add(func(m model.TableColumn, c *ref.Col) { // change the length in place
		if m.HasLength() {
			m.Length().SetDecimal("1")
			c.Dec = ref.S("1")
		}
	})
	add(func(m model.TableColumn, c *ref.Col) { m.SetCharacterSet("cs"); c.Charset = ref.S("cs") })
	add(func(m model.TableColumn, c *ref.Col) { m.SetCollation("co"); c.Collate = ref.S("co") })
	add(func(m model.TableColumn, c *ref.Col) {
		m.SetDefault("d", true)
		c.Default, c.DefQuoted = ref.S("d"), true
	})
	add(func(m model.TableColumn, c *ref.Col) {
		m.SetDefault("NULL", false)
		c.Default, c.DefQuoted = ref.S("NULL"), false
	})
	add(func(m model.TableColumn, c *ref.Col) { m.SetComment("cm"); c.Comment = ref.S("cm") })
	add(func(m model.TableColumn, c *ref.Col) { m.SetAutoUpdate("au"); c.AutoUpdate = ref.S("au") })
	add(func(m model.TableColumn, c *ref.Col) {
		m.SetEnumValues([]string{"e1", "e2"})
		c.Vals = []string{"e1", "e2"}
	})
	add(func(m model.TableColumn, c *ref.Col) { m.SetEnumValues([]string{"e3"}); c.Vals = []string{"e3"} })
	add(func(m model.TableColumn, c *ref.Col) { // from a slice that the caller goes on using
		v := []string{"e4", "e5"}
		m.SetEnumValues(v)
		v[0] = "f"
		c.Vals = []string{"e4", "e5"}
	})
	for _, n := range []int{0, 1, 2} {
		add(func(m model.TableColumn, c *ref.Col) {
			m.SetNullState([]model.NullState{model.NullStateNone, model.NullStateNull, model.NullStateNotNull}[n])
			c.Null = n
		})
	}
	for _, b := range []bool{true, false} {
		add(func(m model.TableColumn, c *ref.Col) { m.SetAutoIncrement(b); c.AutoInc = b })
		add(func(m model.TableColumn, c *ref.Col) { m.SetBinary(b); c.Binary = b })
		add(func(m model.TableColumn, c *ref.Col) { m.SetKey(b); c.Key = b })
		add(func(m model.TableColumn, c *ref.Col) { m.SetPrimary(b); c.Primary = b })
		add(func(m model.TableColumn, c *ref.Col) { m.SetUnique(b); c.Unique = b })
		add(func(m model.TableColumn, c *ref.Col) { m.SetUnsigned(b); c.Unsigned = b })
		add(func(m model.TableColumn, c *ref.Col) { m.SetZeroFill(b); c.Zerofill = b })
	}
	return o
}()

// SET values instead of ENUM values, in objects of their own: the canonical form
// has one list for both.
var setSetters = []func(m model.TableColumn, c *ref.Col){
	func(m model.TableColumn, c *ref.Col) {
		m.SetSetValues([]string{"s1", "s2", "s3"})
		c.Vals = []string{"s1", "s2", "s3"}
	},
	func(m model.TableColumn, c *ref.Col) { m.SetSetValues([]string{"s4"}); c.Vals = []string{"s4"} },
	func(m model.TableColumn, c *ref.Col) { // from a slice that the caller goes on using
		v := append(make([]string, 0, 4), "s5", "s6")
		m.SetSetValues(v)
		v[1] = "f"
		c.Vals = []string{"s5", "s6"}
	},
	func(m model.TableColumn, c *ref.Col) { m.SetUnsigned(!m.IsUnsigned()); c.Unsigned = !c.Unsigned },
}

// a slice of the caller with room for more, see idxSetters
var callerCols []model.IndexColumn
var callerN int

var idxSetters = func() (o []func(m model.Index, c *ref.Idx)) {
	add := func(f func(m model.Index, c *ref.Idx)) { o = append(o, f) }
	add(func(m model.Index, c *ref.Idx) { m.SetName("n1"); c.Name = ref.S("n1") })
	add(func(m model.Index, c *ref.Idx) { m.SetName("n2"); c.Name = ref.S("n2") })
	add(func(m model.Index, c *ref.Idx) { m.SetSymbol("s1"); c.Sym = ref.S("s1") })
	add(func(m model.Index, c *ref.Idx) { m.SetType(model.IndexTypeBtree); c.Type = "BTREE" })
	add(func(m model.Index, c *ref.Idx) { m.SetType(model.IndexTypeHash); c.Type = "HASH" })
	add(func(m model.Index, c *ref.Idx) {
		m.AddColumns(model.NewIndexColumn("c1"))
		c.Cols = append(c.Cols[:len(c.Cols):len(c.Cols)], ref.IdxCol{Name: "c1"})
	})
	add(func(m model.Index, c *ref.Idx) {
		m.AddColumns(model.NewIndexColumn("c2"), model.NewIndexColumn("c3").SetLength("6"))
		c.Cols = append(c.Cols[:len(c.Cols):len(c.Cols)], ref.IdxCol{Name: "c2"}, ref.IdxCol{Name: "c3", Len: ref.S("6")})
	})
	add(func(m model.Index, c *ref.Idx) {
		m.AddOption(model.NewIndexOption("WITH PARSER", "p"+strconv.Itoa(len(c.Opts)), true))
		c.Opts = append(c.Opts[:len(c.Opts):len(c.Opts)], ref.Opt{Key: "WITH PARSER", Val: "p" + strconv.Itoa(len(c.Opts)), Quoted: true})
	})
	add(func(m model.Index, c *ref.Idx) { // from a slice that the caller goes on using
		callerCols[0] = model.NewIndexColumn("d" + strconv.Itoa(callerN))
		m.AddColumns(callerCols[:1]...)
		c.Cols = append(c.Cols[:len(c.Cols):len(c.Cols)], ref.IdxCol{Name: "d" + strconv.Itoa(callerN)})
		callerN++
	})
	edit := func(f func(x model.IndexColumn, y *ref.IdxCol)) {
		add(func(m model.Index, c *ref.Idx) { // change the first column in place
			first := true
			for x := range m.Columns() {
				if first {
					c.Cols = append([]ref.IdxCol{}, c.Cols...)
					f(x, &c.Cols[0])
				}
				first = false
			}
		})
	}
	edit(func(x model.IndexColumn, y *ref.IdxCol) { x.SetLength("9"); y.Len = ref.S("9") })
	edit(func(x model.IndexColumn, y *ref.IdxCol) {
		x.SetSortDirection(model.SortDirectionDescending)
		y.Dir = "DESC"
	})
	add(func(m model.Index, c *ref.Idx) {
		r := &ref.Refer{Table: "p", Cols: []ref.IdxCol{{Name: "x"}}, OnDelete: "CASCADE"}
		m.SetReference(toRef(r))
		c.Ref = r
	})
	editRef := func(f func(x model.Reference, y *ref.Refer)) {
		add(func(m model.Index, c *ref.Idx) {
			if r := m.Reference(); r != nil {
				y := *c.Ref
				y.Cols = append([]ref.IdxCol{}, y.Cols...)
				f(r, &y)
				c.Ref = &y
			}
		})
	}
	editRef(func(x model.Reference, y *ref.Refer) { x.SetTableName("q"); y.Table = "q" })
	editRef(func(x model.Reference, y *ref.Refer) { x.SetMatch(model.ReferenceMatchPartial); y.Match = "PARTIAL" })
	editRef(func(x model.Reference, y *ref.Refer) {
		x.SetOnDelete(model.ReferenceOptionSetNull)
		y.OnDelete = "SET NULL"
	})
	editRef(func(x model.Reference, y *ref.Refer) {
		x.SetOnUpdate(model.ReferenceOptionNoAction)
		y.OnUpdate = "NO ACTION"
	})
	editRef(func(x model.Reference, y *ref.Refer) {
		x.AddColumns(model.NewIndexColumn("w"))
		y.Cols = append(y.Cols, ref.IdxCol{Name: "w"})
	})
	editRef(func(x model.Reference, y *ref.Refer) {
		callerCols[0] = model.NewIndexColumn("d" + strconv.Itoa(callerN))
		x.AddColumns(callerCols[:1]...)
		y.Cols = append(y.Cols, ref.IdxCol{Name: "d" + strconv.Itoa(callerN)})
		callerN++
	})
	add(func(m model.Index, c *ref.Idx) { // a reference without columns
		r := &ref.Refer{Table: "o"}
		m.SetReference(toRef(r))
		c.Ref = r
	})
	editRef(func(x model.Reference, y *ref.Refer) {
		for k := range x.Columns() {
			k.SetLength("4")
		}
		for i := range y.Cols {
			y.Cols[i].Len = ref.S("4")
		}
	})
	return o
}()

// A clone sequence: bytes below 128 apply a setter to the original, the others
// to the clone; 127 clones the original again, 126 makes the clone the original's clone.
const (
	opClone = 127
	opBack  = 126
)

func judgeCloneCol(set bool) fw.Probe {
	return func(_ *fw.Ctx, payload string) string {
		setters := colSetters
		if set {
			setters = setSetters
		}
		rm := [2]ref.Col{{Name: "a", Type: "INT"}}
		var m [2]model.TableColumn
		m[0] = model.NewTableColumn("a").SetType(model.ColumnTypeInt)
		m[1], rm[1] = m[0].Clone(), rm[0]
		for i := 0; i < len(payload); i++ {
			switch b := payload[i]; {
			case b == opClone:
				m[1], rm[1] = m[0].Clone(), rm[0]
			case b == opBack:
				m[0], rm[0] = m[1].Clone(), rm[1]
			default:
				k := int(b >> 7)
				setters[b&127](m[k], &rm[k])
			}
			for k := range m {
				if got := ref.CanonCol(m[k]).String(); got != rm[k].String() {
					return fmt.Sprintf("after operation %d, the %s is\n%s\ninstead of\n%s", i, []string{"original", "clone"}[k], got, rm[k])
				}
			}
		}
		return ""
	}
}

func judgeCloneIdx(_ *fw.Ctx, payload string) string {
	callerCols, callerN = make([]model.IndexColumn, 1, 8), 0
	rm := [2]ref.Idx{{Kind: "FULLTEXT"}}
	var m [2]model.Index
	m[0] = model.NewIndex(model.IndexKindFullText, "table#t")
	m[1], rm[1] = m[0].Clone(), rm[0]
	for i := 0; i < len(payload); i++ {
		switch b := payload[i]; {
		case b == opClone:
			m[1], rm[1] = m[0].Clone(), rm[0]
		case b == opBack:
			m[0], rm[0] = m[1].Clone(), rm[1]
		default:
			k := int(b >> 7)
			idxSetters[b&127](m[k], &rm[k])
		}
		for k := range m {
			if got := ref.CanonIdx(m[k]).String(); got != rm[k].String() {
				return fmt.Sprintf("after operation %d, the %s is\n%s\ninstead of\n%s", i, []string{"original", "clone"}[k], got, rm[k])
			}
		}
		if (m[0].ID() == m[1].ID()) != (idxKey("", rm[0]) == idxKey("", rm[1])) {
			return fmt.Sprintf("after operation %d, the identities of\n%s\n%s\nare %q and %q", i, rm[0], rm[1], m[0].ID(), m[1].ID())
		}
	}
	return ""
}

// judgeFamily works on columns, their clones and their normal forms: 7 operations
// on each of up to 7 objects.
const familyOps, familySize = 7, 7

func judgeFamily(_ *fw.Ctx, payload string) string {
	want := []ref.Col{{Name: "a", Type: "INT"}, {Name: "b", Type: "INT", Default: ref.S("1"), DefQuoted: true}, {Name: "c", Type: "DECIMAL", Len: ref.S("6"), Null: 2}}
	var obj []model.TableColumn
	for _, c := range want {
		obj = append(obj, toCol(c))
	}
	for step := 0; step < len(payload); step++ {
		i, op := int(payload[step])/familyOps, int(payload[step])%familyOps
		if i >= len(obj) {
			return ""
		}
		v := strconv.Itoa(step)
		switch op {
		case 0:
			obj, want = append(obj, obj[i].Clone()), append(want, want[i])
		case 1:
			n, _ := obj[i].Normalize()
			if n != obj[i] {
				obj, want = append(obj, n), append(want, ref.NormalizeCol(want[i]))
			}
		case 2:
			if obj[i].HasLength() {
				obj[i].Length().SetDecimal(v)
				want[i].Dec = ref.S(v)
			}
		case 3: // the length of its type
			if n := obj[i].NativeLength(); n != nil {
				n.SetDecimal(v)
			}
		case 4: // gets the length of its type
			if n := obj[i].NativeLength(); n != nil {
				obj[i].SetLength(n)
				want[i].Len, want[i].Dec = ref.NativeLength(want[i].Type, want[i].Unsigned)
			}
		case 5:
			obj[i].SetType(model.ColumnTypeBigInt).SetUnsigned(true).SetDefault(v, true).SetEnumValues(nil)
			want[i].Type, want[i].Unsigned, want[i].Default, want[i].DefQuoted = "BIGINT", true, ref.S(v), true
		case 6:
			obj[i].SetComment(v)
			want[i].Comment = ref.S(v)
		}
		for k := range obj {
			if got := ref.CanonCol(obj[k]).String(); got != want[k].String() {
				return fmt.Sprintf("after operation %d (%d on column %d), column %d is\n%s\ninstead of\n%s", step, op, i, k, got, want[k])
			}
		}
	}
	return ""
}

// Container sequences work on three tables, two of them with the same name, and
// a pool of objects.
const tableOps = 38

func judgeTables(_ *fw.Ctx, payload string) string {
	tn := []string{"t", "u", "t"}
	var tab [3]model.Table
	var want [3]ref.Table
	for k := range tab {
		tab[k], want[k] = model.NewTable(tn[k]), ref.Table{Name: tn[k]}
	}
	var pool [3]model.TableColumn
	var idx [3]model.Index
	held := map[model.Index]int{} // how often an index was added
	cols := []ref.Col{{Name: "a", Type: "INT", Len: ref.S("4"), Null: 2}, {Name: "b", Type: "ENUM", Vals: []string{"v"}, Null: 2}, {Name: "c", Type: "INT", Len: ref.S("11"), Null: 2}}
	ixs := []ref.Idx{{Kind: "INDEX", Name: ref.S("i"), Cols: []ref.IdxCol{{Name: "a"}}}, {Kind: "UNIQUE", Cols: []ref.IdxCol{{Name: "a"}, {Name: "b"}}}, {Kind: "INDEX", Name: ref.S("i"), Cols: []ref.IdxCol{{Name: "b"}}}}
	for i := range pool {
		pool[i] = toCol(cols[i])
		idx[i] = toIdx(ixs[i], "table#t")
	}
	at := func(k, i int) model.TableColumn {
		n := 0
		for c := range tab[k].Columns() {
			if n == i {
				return c
			}
			n++
		}
		return nil
	}
	// fresh replaces an object of the pool, because what is added from now on
	// may or may not have the changes made to what was added before.
	fresh := func(name string) {
		for n := range cols {
			if cols[n].Name == name {
				pool[n] = toCol(cols[n])
			}
		}
	}
	alter := func(c model.TableColumn, r ref.Col, step int) ref.Col {
		v := fmt.Sprintf("changed %d", step)
		c.SetComment(v)
		r.Comment = ref.S(v)
		if c.HasLength() {
			c.Length().SetDecimal(strconv.Itoa(step))
			r.Dec = ref.S(strconv.Itoa(step))
		}
		return r
	}
	for step := 0; step < len(payload); step++ {
		op := int(payload[step])
		switch {
		case op < 9: // add a column
			k, n := op/3, op%3
			tab[k].AddColumn(pool[n])
			want[k].Cols = append(want[k].Cols, cols[n])
		case op < 15: // add an index
			k, n := (op-9)/3, (op-9)%3
			tab[k].AddIndex(idx[n])
			held[idx[n]]++
			want[k].Idx = append(want[k].Idx, ixs[n])
		case op < 17: // add an option
			k, v := op-15, strconv.Itoa(step)
			tab[k].AddOption(model.NewTableOption("MAX_ROWS", v, false))
			want[k].Opts = append(want[k].Opts, ref.Opt{Key: "MAX_ROWS", Val: v})
		case op < 23: // change the first or the last column of a table
			k, f := (op-17)/2, (op-17)%2
			n := len(want[k].Cols)
			if n == 0 {
				return ""
			}
			i := f * (n - 1)
			for j, c := range want[k].Cols { // what adding one object twice means is left open
				if j != i && c.Name == want[k].Cols[i].Name {
					return ""
				}
			}
			want[k].Cols = append([]ref.Col{}, want[k].Cols...)
			want[k].Cols[i] = alter(at(k, i), want[k].Cols[i], step)
			fresh(want[k].Cols[i].Name)
		case op < 26: // change an object of the pool: at most one table may hold it
			n := op - 23
			r := alter(pool[n], cols[n], step)
			v := r.Comment.S
			count := 0
			for k := range tab {
				for i := range want[k].Cols {
					if c := at(k, i); c != nil && c.HasComment() && c.Comment() == v {
						count++
						want[k].Cols = append([]ref.Col{}, want[k].Cols...)
						want[k].Cols[i] = r
					}
				}
			}
			if count > 1 {
				return fmt.Sprintf("after operation %d, a change of an object that was added to several tables shows in %d columns", step, count)
			}
			fresh(cols[n].Name)
		case op == 26:
			tab[0].SetTemporary(!want[0].Temp)
			want[0].Temp = !want[0].Temp
		case op == 27:
			tab[0].SetIfNotExists(!want[0].INE)
			want[0].INE = !want[0].INE
		case op == 28:
			tab[1].SetLikeTable("x")
			want[1].Like = ref.S("x")
		case op == 29: // a new table instead of one that has been filled
			tab[1] = model.NewTable("u")
			want[1] = ref.Table{Name: "u"}
		case op == 30: // read a part of a listing
			ch := tab[0].Columns()
			<-ch
			<-tab[0].Indexes()
		case op == 31:
			for c := range tab[0].Columns() {
				for d := range tab[0].Columns() {
					_, _ = c, d
				}
			}
		case op == 32: // normalize, and change the result
			for k := range tab {
				n, mod := tab[k].Normalize()
				if mod {
					for c := range n.Columns() {
						c.SetComment("normalized")
						if c.HasLength() {
							c.Length().SetDecimal("66")
						}
					}
					for x := range n.Indexes() {
						changeIdx(x)
					}
					n.AddColumn(model.NewTableColumn("zzz")).AddOption(model.NewTableOption("x", "y", true)).SetTemporary(true).SetLikeTable("zzz")
				}
			}
		case op == 33: // clones of the columns, changed
			for k := range tab {
				for c := range tab[k].Columns() {
					alter(c.Clone().SetTableID("zzz"), ref.Col{}, 77)
				}
				for x := range tab[k].Indexes() {
					x.Clone().SetName("zzz").AddColumns(model.NewIndexColumn("zzz"))
				}
			}
		case op == 34: // all columns of a table are added to another one
			for c := range tab[1].Columns() {
				tab[2].AddColumn(c)
			}
			want[2].Cols = append(want[2].Cols[:len(want[2].Cols):len(want[2].Cols)], want[1].Cols...)
		case op < 38: // change the first or the last index of a table, and with it its identity
			k, i := (op-35)/2, 0
			if i = len(want[k].Idx) - 1; i < 0 {
				return ""
			}
			if op != 36 {
				i = 0
			}
			var x model.Index
			n := 0
			for y := range tab[k].Indexes() {
				if n == i {
					x = y
				}
				n++
			}
			if held[x] > 1 { // what adding one object twice means is left open
				return ""
			}
			w := want[k].Idx[i]
			if op == 36 {
				x.AddColumns(model.NewIndexColumn("w"))
				w.Cols = append(w.Cols[:len(w.Cols):len(w.Cols)], ref.IdxCol{Name: "w"})
			} else {
				x.SetName("r" + strconv.Itoa(step))
				w.Name = ref.S("r" + strconv.Itoa(step))
			}
			want[k].Idx = append([]ref.Idx{}, want[k].Idx...)
			want[k].Idx[i] = w
			for n := range idx { // see fresh
				if idx[n] == x || held[idx[n]] == 0 {
					idx[n] = toIdx(ixs[n], "table#t")
				}
			}
		}
		for k := range tab {
			if got := ref.CanonTable(tab[k]).String(); got != want[k].String() {
				return fmt.Sprintf("after operation %d, table %s is\n%s\ninstead of\n%s", step, tn[k], got, want[k])
			}
			if v := lookups(tab[k]); v != "" {
				return fmt.Sprintf("after operation %d, table %s: %s", step, tn[k], v)
			}
		}
	}
	return ""
}

// changeIdx changes everything of an index.
func changeIdx(x model.Index) {
	for c := range x.Columns() {
		c.SetLength("66")
		c.SetSortDirection(model.SortDirectionDescending)
	}
	if r := x.Reference(); r != nil {
		for c := range r.Columns() {
			c.SetLength("67")
		}
		r.SetTableName("zzz").SetMatch(model.ReferenceMatchFull).SetOnDelete(model.ReferenceOptionSetNull).SetOnUpdate(model.ReferenceOptionSetNull)
		r.AddColumns(model.NewIndexColumn("zzz"))
	}
	x.AddColumns(model.NewIndexColumn("zzz"))
	x.AddOption(model.NewIndexOption("WITH PARSER", "zzz", true)).SetName("zzz").SetSymbol("zzz").SetType(model.IndexTypeHash).SetReference(toRef(&ref.Refer{Table: "zzz"}))
}

// normParts changes each part of the normal form of a table in turn, and looks at
// the others.
func normParts(t ref.Table) string {
	m := toTable(t)
	n, modified := m.Normalize()
	if !modified {
		return ""
	}
	before := ref.CanonTable(m).String()
	var idx []model.Index
	for x := range n.Indexes() {
		idx = append(idx, x)
	}
	for k, x := range idx {
		want := ref.CanonTable(n)
		changeIdx(x)
		got := ref.CanonTable(n)
		for j := range got.Idx {
			if j != k && got.Idx[j].String() != want.Idx[j].String() {
				return fmt.Sprintf("changing index %d of the normalized table changes index %d from\n%s\nto\n%s", k, j, want.Idx[j], got.Idx[j])
			}
		}
	}
	for c := range n.Columns() {
		c.SetComment("zzz").SetEnumValues(nil)
		if c.HasLength() {
			c.Length().SetDecimal("66")
		}
	}
	n.AddColumn(model.NewTableColumn("zzz")).AddOption(model.NewTableOption("x", "y", true)).SetTemporary(true).SetLikeTable("zzz").SetIfNotExists(true)
	if got := ref.CanonTable(m).String(); got != before {
		return fmt.Sprintf("changing the normalized table changes the table from\n%s\nto\n%s", before, got)
	}
	return ""
}

func judgeNormParts(_ *fw.Ctx, payload string) string {
	toks := ref.Lex(payload)
	if ref.Run(toks) >= 0 {
		return ""
	}
	for _, t := range ref.Build(toks) {
		if v := normParts(t); v != "" {
			return v
		}
	}
	return ""
}

func judgeStmts(_ *fw.Ctx, payload string) string {
	var l model.Stmts
	mk := []func() model.Stmt{
		func() model.Stmt { return model.NewTable("a") },
		func() model.Stmt { return model.NewTable("b").SetTemporary(true) },
		func() model.Stmt { return model.NewDatabase("a") },
		func() model.Stmt { return model.NewTable("A") },
		func() model.Stmt { return model.NewTableColumn("a") },
	}
	for i := 0; i < len(payload); i++ {
		l = append(l, mk[payload[i]]())
	}
	look := func(l model.Stmts) string {
		for _, f := range mk {
			id := f().ID()
			var want model.Stmt
			for _, s := range l {
				if s.ID() == id && want == nil {
					want = s
				}
			}
			got, ok := l.Lookup(id)
			if ok != (want != nil) || got != want {
				return fmt.Sprintf("Lookup(%q) in a list of %d statements: %v, %v", id, len(l), got, ok)
			}
		}
		return ""
	}
	if v := look(l); v != "" {
		return v
	}
	// the list changes in place, one statement after another, and parts of it are looked at
	for i, s := range l {
		for _, f := range mk {
			l[i] = f()
			if v := look(l); v != "" {
				return v + " after a change in place"
			}
		}
		if v := look(l[:i]) + look(l[i:]); v != "" {
			return v + " in a part of a list"
		}
		l[i] = s
		if v := look(l); v != "" {
			return v + " after a change in place"
		}
	}
	for _, id := range []string{"", "a", "table#", "table#ab"} {
		if got, ok := l.Lookup(id); ok || got != nil {
			return fmt.Sprintf("Lookup(%q) finds something", id)
		}
	}
	return ""
}

// ---- C14

func colKey(c ref.IdxCol) string {
	s := fmt.Sprintf("%q", c.Name)
	if c.Len.Ok {
		s += "(" + c.Len.S + ")"
	}
	if c.Dir == "DESC" {
		s += " DESC"
	}
	return s
}

func refKey(r *ref.Refer) string {
	if r == nil {
		return "-"
	}
	s := fmt.Sprintf("%q %q %q %q", r.Table, r.Match, r.OnDelete, r.OnUpdate)
	for _, c := range r.Cols {
		s += " " + colKey(c)
	}
	return s
}

// idxKey is what an index defines.
func idxKey(table string, i ref.Idx) string {
	s := fmt.Sprintf("%q %s %v %v %s", table, i.Kind, i.Name, i.Sym, i.Type)
	for _, c := range i.Cols {
		s += " " + colKey(c)
	}
	for _, o := range i.Opts {
		s += fmt.Sprintf(" %q=%q", o.Key, o.Val)
	}
	return s + " " + refKey(i.Ref)
}

type ident struct {
	desc string
	key  string
	id   func() string
}

func identUniverse(thorough bool) []ident {
	var u []ident
	no := ref.Str{}
	c := func(n string, l string, d string) ref.IdxCol {
		x := ref.IdxCol{Name: n, Dir: d}
		if l != "" {
			x.Len = ref.S(l)
		}
		return x
	}
	one := []ref.IdxCol{c("a", "", ""), c("a", "", "ASC"), c("a", "", "DESC"), c("a", "1", ""), c("a", "1", "ASC"), c("a", "1", "DESC"), c("a", "11", ""), c("b", "", ""), c("a(1)", "", ""), c("ab", "", ""), c("a.b", "", ""), c("a`, `b", "", ""), c(`a"."b`, "", ""), c("a DESC", "", ""), c("aDESC", "", ""), c("%d", "", ""), c("DESC", "", ""), c("A", "", "")}
	var cols [][]ref.IdxCol
	for _, x := range one {
		cols = append(cols, []ref.IdxCol{x})
	}
	for _, x := range one[:9] {
		for _, y := range one[:9] {
			cols = append(cols, []ref.IdxCol{x, y})
		}
	}
	cols = append(cols, []ref.IdxCol{one[0], one[7], one[9]}, []ref.IdxCol{one[9], one[0], one[7]}, []ref.IdxCol{one[0], one[0], one[7]})
	few := [][]ref.IdxCol{cols[0], cols[1], cols[2], cols[3], cols[7], cols[10], cols[12], {one[0], one[7]}, {one[7], one[0]}}
	names := []ref.Str{no, ref.S("a"), ref.S("b"), ref.S("none"), ref.S("A"), ref.S("a.b"), ref.S("a#b"), ref.S(`a"`), ref.S("FOREIGN"), ref.S("%s")}
	var refs []*ref.Refer
	acts := []string{"", "RESTRICT", "CASCADE", "SET NULL", "NO ACTION"}
	for _, t := range []string{"p", "q", "p.a", `p"`, "P"} {
		for _, cl := range few {
			refs = append(refs, &ref.Refer{Table: t, Cols: cl})
		}
	}
	for _, mt := range []string{"", "FULL", "PARTIAL", "SIMPLE"} {
		for _, d := range acts {
			for _, w := range acts {
				refs = append(refs, &ref.Refer{Table: "p", Cols: few[0], Match: mt, OnDelete: d, OnUpdate: w})
			}
		}
	}
	var parsers [][]ref.Opt
	parsers = append(parsers, nil)
	for _, v := range []string{"x", "y", "x y", `x"`, ""} {
		parsers = append(parsers, []ref.Opt{{Key: "WITH PARSER", Val: v, Quoted: true}})
	}
	kinds := []string{"PRIMARY", "INDEX", "UNIQUE", "FULLTEXT", "SPATIAL", "FOREIGN"}
	types := []string{"", "BTREE", "HASH"}
	add := func(t string, i ref.Idx) {
		u = append(u, ident{"index of " + t + ": " + i.String(), "index " + idxKey(t, i), func() string { return toIdx(i, t).ID() }})
	}
	// every kind, name, symbol, algorithm with a few columns; every list of columns
	for _, k := range kinds {
		for _, n := range names {
			for _, s := range names {
				for _, ty := range types {
					for _, cl := range few {
						for _, t := range []string{"table#t", "table#u"} {
							if t == "table#u" && n.Ok && s.Ok {
								continue
							}
							add(t, ref.Idx{Kind: k, Name: n, Sym: s, Type: ty, Cols: cl})
						}
					}
				}
			}
		}
		for _, n := range names[:2] {
			for _, cl := range cols {
				for _, p := range parsers {
					add("table#t", ref.Idx{Kind: k, Name: n, Cols: cl, Opts: p})
				}
				for _, r := range refs {
					if k == "FOREIGN" && (thorough || len(cl) == 1 || r.Match == "") {
						add("table#t", ref.Idx{Kind: k, Name: n, Cols: cl, Ref: r})
					}
				}
			}
			for _, r := range refs {
				for _, s := range names {
					add("table#t", ref.Idx{Kind: k, Name: n, Sym: s, Cols: few[0], Ref: r})
				}
			}
		}
	}
	for _, n := range sizes(1025) { // names and lists of any length
		x := strings.Repeat("x", n)
		for _, y := range []string{"", "y", "z"} {
			add("table#t", ref.Idx{Kind: "INDEX", Name: ref.S("n" + x + y), Cols: few[0]})
			add("table#t", ref.Idx{Kind: "FOREIGN", Sym: ref.S("n" + x + y), Cols: few[0]})
			add("table#t", ref.Idx{Kind: "INDEX", Cols: []ref.IdxCol{c("n"+x+y, "", "")}})
			add("table#t", ref.Idx{Kind: "FULLTEXT", Cols: few[0], Opts: []ref.Opt{{Key: "WITH PARSER", Val: "n" + x + y, Quoted: true}}})
			add("table#t", ref.Idx{Kind: "FOREIGN", Cols: few[0], Ref: &ref.Refer{Table: "n" + x + y, Cols: few[0]}})
			add("table#t", ref.Idx{Kind: "FOREIGN", Cols: few[0], Ref: &ref.Refer{Table: "n", Cols: []ref.IdxCol{c("n"+x+y, "", "")}}})
			add("table#n"+x+y, ref.Idx{Kind: "INDEX", Cols: few[0]})
			u = append(u, ident{"table n" + x + y, "table n" + x + y, func() string { return model.NewTable("n" + x + y).ID() }})
			u = append(u, ident{"column n" + x + y, fmt.Sprintf("column %q", "n"+x+y), func() string { return model.NewTableColumn("n" + x + y).ID() }})
		}
		var l []ref.IdxCol
		for i := 0; i <= n; i++ {
			l = append(l, c("c"+strconv.Itoa(i), "", ""))
		}
		for _, y := range []string{"y", "z"} {
			add("table#t", ref.Idx{Kind: "INDEX", Cols: append(l[:len(l):len(l)], c(y, "", ""))})
			add("table#t", ref.Idx{Kind: "FOREIGN", Cols: few[0], Ref: &ref.Refer{Table: "p", Cols: append(l[:len(l):len(l)], c(y, "", ""))}})
		}
	}
	for _, y := range oddValues { // names of all kinds
		add("table#t", ref.Idx{Kind: "UNIQUE", Name: ref.S(y), Cols: few[0]})
		add("table#t", ref.Idx{Kind: "FOREIGN", Sym: ref.S(y), Cols: few[0]})
		add("table#t", ref.Idx{Kind: "FOREIGN", Sym: ref.S(y), Name: ref.S(y), Cols: few[0], Ref: &ref.Refer{Table: y, Cols: few[0]}})
		add("table#t", ref.Idx{Kind: "INDEX", Cols: []ref.IdxCol{c(y+"#", "", "")}})
		add("table#t", ref.Idx{Kind: "INDEX", Cols: []ref.IdxCol{c(y+"#", "", ""), c("#"+y, "3", "DESC")}})
		add("table#t", ref.Idx{Kind: "FULLTEXT", Cols: few[0], Opts: []ref.Opt{{Key: "WITH PARSER", Val: "#" + y, Quoted: true}}})
		add("table##"+y, ref.Idx{Kind: "INDEX", Cols: few[0]})
		u = append(u, ident{fmt.Sprintf("table %q", "##"+y), fmt.Sprintf("table %q", "##"+y), func() string { return model.NewTable("##" + y).ID() }})
		u = append(u, ident{fmt.Sprintf("column %q", "##"+y), fmt.Sprintf("column %q", strings.ToLower("##"+y)), func() string { return model.NewTableColumn("##" + y).ID() }})
	}
	for _, t := range []string{"p", "q", "p.a", `p"`, "P", ""} {
		for _, mt := range []string{"", "FULL", "PARTIAL", "SIMPLE"} {
			for _, d := range acts {
				for _, w := range acts {
					for _, cl := range cols {
						r := &ref.Refer{Table: t, Cols: cl, Match: mt, OnDelete: d, OnUpdate: w}
						u = append(u, ident{"reference " + r.String(), "reference " + refKey(r), func() string { return toRef(r).ID() }})
					}
				}
			}
		}
	}
	// the names of columns are not case sensitive
	strs([]string{"a", "b", "#", "`", ".", "A", "é"}, 0, 3, func(s string) {
		u = append(u, ident{fmt.Sprintf("table %q", s), fmt.Sprintf("table %q", s), func() string { return model.NewTable(s).ID() }})
		u = append(u, ident{fmt.Sprintf("temporary table %q", s), fmt.Sprintf("table %q", s), func() string {
			return model.NewTable(s).SetTemporary(true).AddColumn(model.NewTableColumn("a")).AddIndex(model.NewIndex(model.IndexKindNormal, "x")).ID()
		}})
		u = append(u, ident{fmt.Sprintf("database %q", s), fmt.Sprintf("database %q", s), func() string { return model.NewDatabase(s).ID() }})
		u = append(u, ident{fmt.Sprintf("column %q", s), fmt.Sprintf("column %q", strings.ToLower(s)), func() string { return model.NewTableColumn(s).ID() }})
		u = append(u, ident{fmt.Sprintf("column %q with attributes", s), fmt.Sprintf("column %q", strings.ToLower(s)), func() string {
			return model.NewTableColumn(s).SetType(model.ColumnTypeInt).SetComment("x").SetTableID("table#y").ID()
		}})
	})
	return u
}

var identCache = map[bool][]ident{}

func idents(thorough bool) []ident {
	if identCache[thorough] == nil {
		identCache[thorough] = identUniverse(thorough)
	}
	return identCache[thorough]
}

func judgeIdentPair(_ *fw.Ctx, payload string) string {
	var a, b, th int
	fmt.Sscan(payload, &th, &a, &b)
	u := idents(th == 1)
	if a >= len(u) || b >= len(u) {
		return ""
	}
	x, y := u[a], u[b]
	if i, j := x.id(), y.id(); (i == j) != (x.key == y.key) {
		return fmt.Sprintf("%s\n%s\nhave the identities %q and %q", x.desc, y.desc, i, j)
	}
	return ""
}

func init() {
	texts := func(m *fw.Merged, cov map[string]interface{}) {
		cov["transitions"] = m.Counts["ops"]
		cov["traces_validated_against_impl"] = m.Counts["evaluations"]
	}
	fw.Register(&fw.Check{ID: "C12", Level: "model_checking",
		Rule:   "Every column that can be built through the API from 42 types, 3 lengths, 3 NULL states, 14 defaults and 32 sets of flags, alone and in a table with a foreign key; every pair of the 324 indexes of 6 kinds with and without symbol, name, type and more columns, and each with 16 sets of flags and names of columns; the un-normalized model of a text for every transition of the grammar automaton and of all combinations of the catalogs, and of texts of all sizes up to 1025. Each is normalized once and twice, and compared with the reference normalization. Every sequence of up to history_depth changes of a table, of a column and of an index of it, with all of that after each of them; earlier normal forms stay as they were.",
		Probes: map[string]fw.Probe{"tables": judgeNormTables, "column": judgeNormCol, "indexes": judgeNormIdx, "again": judgeNormAgain},
		Leveled: func(m *fw.Merged, cov map[string]interface{}) {
			cov["transitions"] = 2 * m.Counts["evaluations"]
			cov["traces_validated_against_impl"] = m.Counts["evaluations"]
		},
		Explore: func(c *fw.Ctx) {
			for ty := range apiTypes {
				for ln := range apiLens {
					for nl := 0; nl < 3; nl++ {
						for df := range apiDefaults {
							if !c.Mine() {
								continue
							}
							for fl := 0; fl < 32; fl++ {
								c.Run("column", fmt.Sprint(ty, ln, nl, df, fl))
							}
						}
					}
				}
			}
			hist := 3
			if c.Thorough {
				hist = 4
			}
			c.Const("history_depth", int64(hist))
			var again []string
			for b := 0; b < len(colSetters)+len(idxSetters)+len(tableSetters); b++ {
				again = append(again, string([]byte{byte(b)}))
			}
			for k := range againTables {
				strs(again, hist, hist, func(s string) {
					if c.Mine() && !c.Expired() {
						c.Run("again", string([]byte{byte(k)})+s)
					}
				})
			}
			for a := 0; a < apiIdxs; a++ {
				if !c.Mine() {
					continue
				}
				for fl := 0; fl < 16; fl++ {
					c.Run("indexes", fmt.Sprint(fl, a))
				}
				for b := 0; b < apiIdxs; b++ {
					c.Run("indexes", fmt.Sprint(b&1*8, a, b))
					for x := 0; c.Thorough && a%6 == 0 && x < apiIdxs; x += 6 {
						c.Run("indexes", fmt.Sprint(8, a, x, b))
					}
				}
			}
			run := func(text string) {
				if _, bad := ref.Parse(text); bad == nil {
					c.Run("tables", text)
					if c.Worker == 0 {
						c.Sample(text)
					}
				}
			}
			baseTexts(c, run)
			keywordTexts(c, run)
			structTexts(c, run)
			sizedTexts(c, 1025, run)
			valueTexts(c, run)
			patternTexts(c, run)
		}})

	fw.Register(&fw.Check{ID: "C13", Level: "model_checking",
		Rule:   "Every sequence of operations up to the depth on a column and its clone, on an index and its clone, on columns with their clones and normal forms, and on two tables that share a pool of columns and indexes, executed on the real objects next to plain reference values; all accessors and lookups are compared after every operation. Every list of up to 5 statements for Lookup. The normal form of the tables of a text for every transition, keyword and coincidence of names is changed in every part. Containers of all sizes up to 69 and around the powers of two and ten up to 1024 (thorough: 4096). The models of the three entry points of the parser for texts for every transition, compared with each other after the bytes and the file have been overwritten.",
		Probes: map[string]fw.Probe{"entries": judgeParseEntries, "column clone": judgeCloneCol(false), "set clone": judgeCloneCol(true), "index clone": judgeCloneIdx, "column family": judgeFamily, "normal form": judgeNormParts, "tables": judgeTables, "stmts": judgeStmts, "long": judgeLongTable},
		Leveled: func(m *fw.Merged, cov map[string]interface{}) {
			texts(m, cov)
			cov["states"] = m.Counts["evaluations"]
		},
		Explore: func(c *fw.Ctx) {
			exploreParsed(c)
			ops := func(n int, two bool) (o []string) {
				for i := 0; i < n; i++ {
					o = append(o, string([]byte{byte(i)}))
					if two {
						o = append(o, string([]byte{byte(128 + i)}))
					}
				}
				if two {
					o = append(o, string([]byte{opClone}), string([]byte{opBack}))
				}
				return o
			}
			seqs := func(probe string, al []string, n int) {
				for _, a := range al {
					for _, b := range al {
						if !c.Mine() {
							continue
						}
						strs(al, n-2, n-2, func(s string) {
							c.Add("ops", int64(n))
							c.Run(probe, a+b+s)
							if c.Worker == 0 {
								c.Sample(fmt.Sprintf("%s %v", probe, []byte(a+b+s)))
							}
						})
					}
				}
			}
			d := 0
			limit := 1025
			if c.Thorough {
				d = 1
				limit = 4097
			}
			for _, n := range sizes(limit) {
				if c.Mine() {
					c.Run("long", strconv.Itoa(n))
				}
			}
			c.Const("depth", int64(4+d))
			seqs("column clone", ops(len(colSetters), true), 3)
			seqs("set clone", ops(len(setSetters), true), 6+d)
			seqs("index clone", ops(len(idxSetters), true), 3+d)
			seqs("tables", ops(tableOps, false), 4+d)
			seqs("column family", ops(familyOps*(5+d), false), 4+d)
			parts := func(text string) {
				if _, bad := ref.Parse(text); bad == nil {
					c.Add("ops", 2)
					c.Run("normal form", text)
				}
			}
			baseTexts(c, parts)
			keywordTexts(c, parts)
			structTexts(c, parts)
			sizedTexts(c, 129, parts)
			patternTexts(c, parts)
			strs([]string{"\x00", "\x01", "\x02", "\x03", "\x04"}, 0, 5+d, func(s string) {
				if c.Mine() {
					c.Run("stmts", s)
				}
			})
		}})

	many := map[string]func(n string) string{
		"index": func(n string) string {
			i := model.NewIndex(model.IndexKindUnique, "table#t")
			i.AddColumns(model.NewIndexColumn(n))
			return i.ID()
		},
		"named index": func(n string) string {
			i := model.NewIndex(model.IndexKindNormal, "table#t").SetName("k")
			i.AddColumns(model.NewIndexColumn(n))
			return i.ID()
		},
		"symbol": func(n string) string {
			i := model.NewIndex(model.IndexKindPrimaryKey, "table#t").SetSymbol(n)
			i.AddColumns(model.NewIndexColumn("a"))
			return i.ID()
		},
		"reference": func(n string) string {
			r := model.NewReference().SetTableName(n)
			r.AddColumns(model.NewIndexColumn("a"))
			return r.ID()
		},
		"foreign key": func(n string) string {
			r := model.NewReference().SetTableName("p")
			r.AddColumns(model.NewIndexColumn(n))
			i := model.NewIndex(model.IndexKindForeignKey, "table#t").SetReference(r)
			i.AddColumns(model.NewIndexColumn("a"))
			return i.ID()
		},
		"table":        func(n string) string { return model.NewTable(n).ID() },
		"column":       func(n string) string { return model.NewTableColumn(n).ID() },
		"database":     func(n string) string { return model.NewDatabase(n).ID() },
		"option":       func(n string) string { return model.NewTableOption(n, "x", false).ID() },
		"index column": func(n string) string { return model.NewIndexColumn(n).ID() },
	}
	judgeMany := func(c *fw.Ctx, payload string) string {
		kind, limit, _ := strings.Cut(payload, "\x01")
		n, _ := strconv.Atoi(limit)
		seen := make(map[string]string, n)
		f := many[kind]
		for i := 0; i < n; i++ {
			name := "c" + strconv.Itoa(i)
			id := f(name)
			if other, ok := seen[id]; ok {
				return fmt.Sprintf("%s: %q and %q have the same identity %q", kind, other, name, id)
			}
			seen[id] = name
		}
		return ""
	}
	fw.Register(&fw.Check{ID: "C14", Level: "model_checking",
		Rule:   "A universe of definitions of indexes (all kinds, 10 names, 10 symbols, all algorithms, 102 column lists, parsers, references with all actions, two tables), references, columns, tables and databases, with names made of the separators that identities could use, and names and lists of all sizes up to 1025; every pair has the same identity if and only if it has the same definition (decided for all pairs by grouping); and 300 000 (thorough: 3 000 000) definitions of each of ten kinds that differ in one name have different identities.",
		Probes: map[string]fw.Probe{"pair": judgeIdentPair, "many": judgeMany},
		Leveled: func(m *fw.Merged, cov map[string]interface{}) {
			cov["states"] = m.Consts["definitions"]
			cov["transitions"] = m.Consts["pairs"]
			cov["traces_validated_against_impl"] = m.Counts["evaluations"]
		},
		Explore: func(c *fw.Ctx) {
			th := 0
			if c.Thorough {
				th = 1
			}
			u := idents(c.Thorough)
			c.Const("definitions", int64(len(u)))
			c.Const("pairs", int64(len(u))*int64(len(u)-1)/2)
			var kinds []string
			for k := range many {
				kinds = append(kinds, k)
			}
			sort.Strings(kinds)
			for _, k := range kinds {
				if c.Mine() {
					c.Run("many", k+"\x01"+[]string{"300000", "3000000"}[th])
				}
			}
			// each worker computes the identities of all definitions, and looks
			// for equal identities or keys within its share of the hash values
			byID, byKey := map[string]int{}, map[string]int{}
			order := make([]int, len(u))
			for i := range order {
				order[i] = i
			}
			sort.SliceStable(order, func(a, b int) bool { return u[order[a]].key < u[order[b]].key })
			for _, i := range order {
				id := u[i].id()
				c.Add("identities", 1)
				if j, ok := byID[id]; ok && u[j].key != u[i].key {
					c.Run("pair", fmt.Sprint(th, j, i))
				}
				if j, ok := byKey[u[i].key]; ok {
					if c.Worker == 0 {
						c.Run("pair", fmt.Sprint(th, j, i))
					}
				} else {
					byKey[u[i].key] = i
				}
				if i > 0 && c.Mine() { // neighbours in definition order
					c.Run("pair", fmt.Sprint(th, i-1, i))
				}
				byID[id] = i
				if c.Worker == 0 {
					c.Sample(u[i].desc + " => " + id)
				}
			}
		}})
}
