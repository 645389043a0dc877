package ref

import (
	"fmt"
	"sort"
	"strings"
)

// DB is a database catalog on which DDL statements are executed. The tables
// are in normal form.
type DB struct {
	Tables  map[string]*Table
	Txn     bool // between BEGIN and COMMIT
	FKC     bool // FOREIGN_KEY_CHECKS
	AutoInc bool // enforce that an AUTO_INCREMENT column is the first one of an index
	// Exempt lists foreign keys (table and String of the key) whose indexes can be
	// dropped all the same, as MySQL does it with FOREIGN_KEY_CHECKS=0.
	Exempt map[string]bool
}

// NewDB creates the tables of a schema, in their order.
func NewDB(ts []Table) (*DB, error) {
	d := &DB{Tables: map[string]*Table{}, FKC: true}
	for _, t := range ts {
		if err := d.create(t); err != nil {
			return nil, err
		}
	}
	return d, nil
}

// Schema returns the tables in the order of their names.
func (d *DB) Schema() (o []Table) {
	for _, t := range d.Tables {
		o = append(o, *t)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].Name < o[j].Name })
	return o
}

// Split separates a script into the tokens of its statements. Every statement
// has to be complete, which includes the semicolon.
func Split(script string) (stmts [][]Tok, err error) {
	var cur []Tok
	for _, t := range Lex(script) {
		switch t.K {
		case "EOF":
			if len(cur) > 0 {
				return nil, fmt.Errorf("the statement %s is not terminated", text(cur))
			}
			return stmts, nil
		case "UNTERM":
			return nil, fmt.Errorf("unterminated quote: %s", t.Text)
		case ";":
			if len(cur) == 0 {
				return nil, fmt.Errorf("an empty statement")
			}
			stmts = append(stmts, cur)
			cur = nil
		default:
			cur = append(cur, t)
		}
	}
	return stmts, nil
}

func text(l []Tok) string {
	var o []string
	for _, t := range l {
		o = append(o, t.Text)
	}
	return strings.Join(o, " ")
}

// Exec executes a script.
func (d *DB) Exec(script string) error {
	stmts, err := Split(script)
	if err != nil {
		return err
	}
	for i, s := range stmts {
		if err := d.stmt(s); err != nil {
			return fmt.Errorf("statement %d, %s: %v", i+1, text(s), err)
		}
	}
	return nil
}

func is(t Tok, w string) bool { return t.K == w || t.K == "IDENT" && strings.EqualFold(t.Text, w) }

// match compares the beginning of a statement with words; "%" is a name.
func match(s []Tok, pattern string) (names []string, rest []Tok, ok bool) {
	for _, w := range strings.Fields(pattern) {
		if len(s) == 0 {
			return nil, nil, false
		}
		if w == "%" {
			if !isName(s[0].K) {
				return nil, nil, false
			}
			names = append(names, s[0].Val)
		} else if !is(s[0], w) {
			return nil, nil, false
		}
		s = s[1:]
	}
	return names, s, true
}

func (d *DB) stmt(s []Tok) error {
	whole := func(p string) bool { _, r, ok := match(s, p); return ok && len(r) == 0 }
	switch {
	case whole("BEGIN"):
		if d.Txn {
			return fmt.Errorf("a transaction within a transaction")
		}
		d.Txn = true
		return nil
	case whole("COMMIT"):
		if !d.Txn {
			return fmt.Errorf("no transaction")
		}
		d.Txn = false
		return nil
	}
	if _, r, ok := match(s, "SET FOREIGN_KEY_CHECKS = "); ok && len(r) == 1 && (r[0].Text == "0" || r[0].Text == "1") {
		d.FKC = r[0].Text == "1"
		return nil
	}
	if n, r, ok := match(s, "DROP TABLE %"); ok && len(r) == 0 {
		if d.Tables[n[0]] == nil {
			return fmt.Errorf("no such table")
		}
		delete(d.Tables, n[0])
		return nil
	}
	if len(s) > 0 && s[0].K == "CREATE" {
		toks := append(append([]Tok{}, s...), Tok{K: "EOF"})
		if i := Run(toks); i >= 0 {
			return fmt.Errorf("syntax error at %q", toks[i].Text)
		}
		ts := Build(toks)
		if len(ts) != 1 {
			return fmt.Errorf("unexpected statement")
		}
		return d.create(ts[0])
	}
	n, r, ok := match(s, "ALTER TABLE %")
	if !ok {
		return fmt.Errorf("unexpected statement")
	}
	t := d.Tables[n[0]]
	if t == nil {
		return fmt.Errorf("no such table")
	}
	// work on a copy
	x := *t
	x.Cols = append([]Col{}, t.Cols...)
	x.Idx = append([]Idx{}, t.Idx...)
	if err := x.alter(r, d.Exempt); err != nil {
		return err
	}
	if err := d.valid(x); err != nil {
		return err
	}
	d.Tables[n[0]] = &x
	return nil
}

func (d *DB) create(t Table) error {
	if d.Tables[t.Name] != nil {
		if t.INE {
			return nil
		}
		return fmt.Errorf("table %q exists", t.Name)
	}
	if t.Like.Ok {
		src := d.Tables[t.Like.S]
		if src == nil {
			return fmt.Errorf("no table %q to copy", t.Like.S)
		}
		x := *src
		x.Name, x.Temp, x.INE = t.Name, t.Temp, t.INE
		x.Idx = nil
		for _, i := range src.Idx { // foreign keys are not copied
			if i.Kind != "FOREIGN" {
				x.Idx = append(x.Idx, i)
			}
		}
		d.Tables[t.Name] = &x
		return nil
	}
	x := Normalize(t)
	if err := d.valid(x); err != nil {
		return err
	}
	d.Tables[t.Name] = &x
	return nil
}

// IdxName is the name by which an index or foreign key is dropped.
func IdxName(i Idx) (string, bool) {
	switch i.Kind {
	case "PRIMARY":
		return "", false
	case "FOREIGN":
		if i.Sym.Ok {
			return i.Sym.S, true
		}
		return i.Name.S, i.Name.Ok
	}
	if i.Name.Ok {
		return i.Name.S, true
	}
	return i.Sym.S, i.Sym.Ok
}

// valid checks what a table has to fulfil at any time.
func (d *DB) valid(t Table) error {
	if len(t.Cols) == 0 {
		return fmt.Errorf("no columns")
	}
	cols := map[string]bool{}
	for _, c := range t.Cols {
		k := strings.ToLower(c.Name)
		if cols[k] {
			return fmt.Errorf("duplicate column %q", c.Name)
		}
		cols[k] = true
	}
	idx, fks := map[string]bool{}, map[string]bool{}
	pk := 0
	for _, i := range t.Idx {
		for _, c := range i.Cols {
			if !cols[strings.ToLower(c.Name)] {
				return fmt.Errorf("the column %q of an index does not exist", c.Name)
			}
		}
		n, ok := IdxName(i)
		n = strings.ToLower(n)
		switch i.Kind {
		case "PRIMARY":
			if pk++; pk > 1 {
				return fmt.Errorf("multiple primary keys")
			}
		case "FOREIGN":
			if ok && fks[n] {
				return fmt.Errorf("duplicate foreign key %q", n)
			}
			fks[n] = ok
		default:
			if ok && idx[n] {
				return fmt.Errorf("duplicate index %q", n)
			}
			idx[n] = ok
		}
	}
	if d.AutoInc {
		for _, c := range t.Cols {
			if !c.AutoInc {
				continue
			}
			found := false
			for _, i := range t.Idx {
				found = found || i.Kind != "FOREIGN" && i.Cols[0].Name == c.Name
			}
			if !found {
				return fmt.Errorf("the AUTO_INCREMENT column %q is not a key", c.Name)
			}
		}
	}
	return nil
}

func (t *Table) col(name string) int {
	for i, c := range t.Cols {
		if strings.EqualFold(c.Name, name) {
			return i
		}
	}
	return -1
}

// serves tells whether an index begins with the columns of a foreign key.
func serves(i, fk Idx) bool {
	if i.Kind == "FOREIGN" || i.Kind == "FULLTEXT" || i.Kind == "SPATIAL" || len(i.Cols) < len(fk.Cols) {
		return false
	}
	for k := range fk.Cols {
		if i.Cols[k].Len.Ok || !strings.EqualFold(i.Cols[k].Name, fk.Cols[k].Name) {
			return false
		}
	}
	return true
}

// ExemptKey is the key of a foreign key in DB.Exempt.
func ExemptKey(table string, fk Idx) string {
	return strings.ToLower(table) + "\x00" + SortedIdx([]Idx{fk})[0]
}

func (t *Table) dropIdx(k int, exempt map[string]bool) error {
	x := t.Idx[k]
	t.Idx = append(append([]Idx{}, t.Idx[:k]...), t.Idx[k+1:]...)
	for _, fk := range t.Idx {
		if fk.Kind != "FOREIGN" || !serves(x, fk) || exempt[ExemptKey(t.Name, fk)] {
			continue
		}
		ok := false
		for _, i := range t.Idx {
			ok = ok || serves(i, fk)
		}
		if !ok {
			return fmt.Errorf("the index is needed in a foreign key")
		}
	}
	return nil
}

// within reads the tokens of a column or an index definition.
func within(def []Tok) (Table, error) {
	toks := append(append(Lex("CREATE TABLE x (")[:4:4], def...), Lex(")")...)
	if i := Run(toks); i >= 0 {
		return Table{}, fmt.Errorf("syntax error at %q", toks[i].Text)
	}
	t := Build(toks)[0]
	if len(t.Cols)+len(t.Idx) != 1 || len(t.Opts) > 0 {
		return Table{}, fmt.Errorf("more than one definition")
	}
	return t, nil
}

// addCol puts a column in place, with the keys that it declares.
func (t *Table) addCol(c Col, at int) {
	n := Normalize(Table{Cols: []Col{c}})
	t.Cols = append(t.Cols[:at:at], append([]Col{n.Cols[0]}, t.Cols[at:]...)...)
	t.Idx = append(t.Idx, n.Idx...)
}

func (t *Table) alter(s []Tok, exempt map[string]bool) error {
	if n, r, ok := match(s, "DROP COLUMN %"); ok && len(r) == 0 {
		k := t.col(n[0])
		if k < 0 {
			return fmt.Errorf("no such column")
		}
		var idx []Idx
		for _, i := range t.Idx {
			var cols []IdxCol
			for _, c := range i.Cols {
				if !strings.EqualFold(c.Name, n[0]) {
					cols = append(cols, c)
				}
			}
			if len(cols) < len(i.Cols) && i.Kind == "FOREIGN" {
				return fmt.Errorf("the column is needed in a foreign key")
			}
			if i.Cols = cols; len(cols) > 0 {
				idx = append(idx, i)
			}
		}
		t.Idx = idx
		t.Cols = append(append([]Col{}, t.Cols[:k]...), t.Cols[k+1:]...)
		return nil
	}
	if _, r, ok := match(s, "ADD COLUMN"); ok {
		at := len(t.Cols)
		if n := len(r); n > 1 && r[n-1].K == "FIRST" {
			at, r = 0, r[:n-1]
		} else if n > 2 && is(r[n-2], "AFTER") && isName(r[n-1].K) {
			k := t.col(r[n-1].Val)
			if k < 0 {
				return fmt.Errorf("no column %q to add the column after", r[n-1].Val)
			}
			at, r = k+1, r[:n-2]
		}
		x, err := within(r)
		if err != nil || len(x.Cols) != 1 {
			return fmt.Errorf("not a column: %v", err)
		}
		if t.col(x.Cols[0].Name) >= 0 {
			return fmt.Errorf("the column exists")
		}
		t.addCol(x.Cols[0], at)
		return nil
	}
	if n, r, ok := match(s, "CHANGE COLUMN %"); ok {
		k := t.col(n[0])
		if k < 0 {
			return fmt.Errorf("no such column")
		}
		x, err := within(r)
		if err != nil || len(x.Cols) != 1 {
			return fmt.Errorf("not a column: %v", err)
		}
		if j := t.col(x.Cols[0].Name); j >= 0 && j != k {
			return fmt.Errorf("there is a column of the new name")
		}
		old := t.Cols[k].Name
		for i := range t.Idx {
			cols := append([]IdxCol{}, t.Idx[i].Cols...)
			for j := range cols {
				if cols[j].Name == old {
					cols[j].Name = x.Cols[0].Name
				}
			}
			t.Idx[i].Cols = cols
		}
		t.Cols = append(append([]Col{}, t.Cols[:k]...), t.Cols[k+1:]...)
		t.addCol(x.Cols[0], k)
		return nil
	}
	if _, r, ok := match(s, "DROP PRIMARY KEY"); ok && len(r) == 0 {
		for k, i := range t.Idx {
			if i.Kind == "PRIMARY" {
				return t.dropIdx(k, exempt)
			}
		}
		return fmt.Errorf("no primary key")
	}
	if n, r, ok := match(s, "DROP INDEX %"); ok && len(r) == 0 {
		for k, i := range t.Idx {
			if m, ok := IdxName(i); i.Kind != "FOREIGN" && ok && strings.EqualFold(m, n[0]) {
				return t.dropIdx(k, exempt)
			}
		}
		return fmt.Errorf("no such index")
	}
	if n, r, ok := match(s, "DROP FOREIGN KEY %"); ok && len(r) == 0 {
		for k, i := range t.Idx {
			if m, ok := IdxName(i); i.Kind == "FOREIGN" && ok && strings.EqualFold(m, n[0]) {
				t.Idx = append(append([]Idx{}, t.Idx[:k]...), t.Idx[k+1:]...)
				return nil
			}
		}
		return fmt.Errorf("no such foreign key")
	}
	if _, r, ok := match(s, "ADD"); ok {
		x, err := within(r)
		if err != nil || len(x.Idx) != 1 {
			return fmt.Errorf("not an index: %v", err)
		}
		i := x.Idx[0]
		if i.Kind == "FOREIGN" && i.Sym.Ok {
			exists := false
			for _, j := range t.Idx {
				exists = exists || j.Kind != "FOREIGN" && j.Name.Ok && j.Name.S == i.Sym.S
			}
			if !exists {
				t.Idx = append(t.Idx, Idx{Kind: "INDEX", Name: i.Sym, Cols: i.Cols})
			}
		}
		t.Idx = append(t.Idx, i)
		return nil
	}
	return fmt.Errorf("unexpected statement")
}
