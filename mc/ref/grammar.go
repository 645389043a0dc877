package ref

// State is a state of the grammar: a finite automaton over token kinds.
// Pos is how far the column attributes have advanced (they have an order up
// to a point), Cat is the category of the column's type, Ret is the state that
// follows a column list, Typed tells whether the index has an algorithm.
type State struct {
	N     string
	Cat   byte
	Pos   int
	Typed bool
	Ret   string
}

// Start is the initial state, Accept the one that follows the end of the input.
var (
	Start  = State{N: "top"}
	Accept = State{N: "ACCEPT"}
)

// TypeCat maps the column types to what may follow them:
// D (n) UNSIGNED ZEROFILL; P the same with (n,m); O the same with (n) or (n,m);
// T (n); C (n) BINARY; N nothing; E a list of values.
var TypeCat = map[string]byte{
	"BIT": 'T', "TINYINT": 'D', "SMALLINT": 'D', "MEDIUMINT": 'D', "INT": 'D', "INTEGER": 'D', "BIGINT": 'D',
	"REAL": 'P', "DOUBLE": 'P', "FLOAT": 'P', "DECIMAL": 'O', "NUMERIC": 'O',
	"DATE": 'N', "TIME": 'T', "TIMESTAMP": 'T', "DATETIME": 'T', "YEAR": 'N',
	"CHAR": 'C', "VARCHAR": 'C', "BINARY": 'T', "VARBINARY": 'T',
	"TINYBLOB": 'N', "BLOB": 'N', "MEDIUMBLOB": 'N', "LONGBLOB": 'N',
	"TINYTEXT": 'C', "TEXT": 'C', "MEDIUMTEXT": 'C', "LONGTEXT": 'C',
	"ENUM": 'E', "SET": 'E', "BOOLEAN": 'N', "BOOL": 'N', "JSON": 'N', "GEOMETRY": 'N',
}

func isName(k string) bool { return k == "IDENT" || k == "BT" }

func in(k string, l ...string) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

// Step is the transition function. ok is false if the token of kind k is not
// acceptable in state s.
func Step(s State, k string) (n State, ok bool) {
	to := func(name string) (State, bool) { return State{N: name}, true }
	keep := func(name string) (State, bool) { x := s; x.N = name; return x, true }
	no := func() (State, bool) { return State{}, false }
	// chain describes the states with a single successor
	switch s.N {
	case "top":
		switch k {
		case "CREATE":
			return to("create")
		case ";":
			return to("top")
		case "EOF":
			return Accept, true
		case "DROP", "SET", "USE":
			return to("skip")
		}
	case "skip":
		switch k {
		case ";":
			return to("top")
		case "EOF":
			return Accept, true
		case "UNTERM":
			return no()
		}
		return to("skip")

	case "create":
		switch k {
		case "DATABASE":
			return to("db")
		case "TABLE":
			return to("table")
		case "TEMPORARY":
			return to("temporary")
		}
	case "temporary":
		if k == "TABLE" {
			return to("table")
		}
	case "db":
		if k == "IF" {
			return to("db if")
		}
		if isName(k) {
			return to("stmt end")
		}
	case "db if":
		if k == "NOT" {
			return to("db if not")
		}
	case "db if not":
		if k == "EXISTS" {
			return to("db name")
		}
	case "db name":
		if isName(k) {
			return to("stmt end")
		}
	case "stmt end":
		if k == ";" {
			return to("top")
		}
		if k == "EOF" {
			return Accept, true
		}

	case "table":
		if k == "TEMPORARY" {
			return to("table2")
		}
		return Step(State{N: "table2"}, k)
	case "table2":
		if k == "IF" {
			return to("t if")
		}
		if isName(k) {
			return to("t after")
		}
	case "t if":
		if k == "NOT" {
			return to("t if not")
		}
	case "t if not":
		if k == "EXISTS" {
			return to("t name")
		}
	case "t name":
		if isName(k) {
			return to("t after")
		}
	case "t after":
		switch k {
		case "LIKE":
			return to("like")
		case "IF":
			return to("t2 if")
		case "(":
			return to("field")
		}
	case "t2 if":
		if k == "NOT" {
			return to("t2 if not")
		}
	case "t2 if not":
		if k == "EXISTS" {
			return to("t paren")
		}
	case "t paren":
		if k == "(" {
			return to("field")
		}
	case "like":
		if isName(k) {
			return to("stmt end")
		}

	case "field":
		switch k {
		case "CONSTRAINT":
			return to("cons")
		case "INDEX", "KEY":
			return to("ci")
		case "FULLTEXT":
			return to("ft")
		case "SPATIAL":
			return to("sp")
		case "PRIMARY", "UNIQUE", "FOREIGN":
			return Step(State{N: "cons2"}, k)
		case "IDENT", "BT":
			return to("coltype")
		}
	case "cons":
		if isName(k) {
			return to("cons2")
		}
		return Step(State{N: "cons2"}, k)
	case "cons2":
		switch k {
		case "PRIMARY":
			return to("pk")
		case "UNIQUE":
			return to("uq")
		case "FOREIGN":
			return to("fk")
		}
	case "field end":
		if k == "," {
			return to("field")
		}
		if k == ")" {
			return to("opt end")
		}

	// indexes
	case "pk":
		if k == "KEY" {
			return to("ci")
		}
	case "uq":
		if k == "KEY" || k == "INDEX" {
			return to("ci")
		}
		return Step(State{N: "ci"}, k)
	case "ci":
		if isName(k) {
			return to("ci2")
		}
		return Step(State{N: "ci2"}, k)
	case "ci2":
		if k == "USING" {
			return to("ci using")
		}
		if k == "(" {
			return State{N: "ic", Ret: "ci end"}, true
		}
	case "ci using":
		if in(k, "BTREE", "HASH") {
			return State{N: "ci3", Typed: true}, true
		}
	case "ci3":
		if k == "(" {
			return State{N: "ic", Ret: "ci end", Typed: true}, true
		}
	case "ci end":
		if k == "USING" && !s.Typed {
			return to("ci using2")
		}
		return Step(State{N: "field end"}, k)
	case "ci using2":
		if in(k, "BTREE", "HASH") {
			return to("field end")
		}
	case "ft":
		if k == "INDEX" || k == "KEY" {
			return to("ft2")
		}
		return Step(State{N: "ft2"}, k)
	case "ft2":
		if isName(k) {
			return to("ft3")
		}
		return Step(State{N: "ft3"}, k)
	case "ft3":
		if k == "(" {
			return State{N: "ic", Ret: "ft end"}, true
		}
	case "ft end":
		if k == "WITH" {
			return to("ft with")
		}
		return Step(State{N: "field end"}, k)
	case "ft with":
		if k == "PARSER" {
			return to("ft parser")
		}
	case "ft parser":
		if isName(k) {
			return to("field end")
		}
	case "sp":
		if k == "INDEX" {
			return to("sp2")
		}
		return Step(State{N: "sp2"}, k)
	case "sp2":
		if isName(k) {
			return to("sp3")
		}
		return Step(State{N: "sp3"}, k)
	case "sp3":
		if k == "(" {
			return State{N: "ic", Ret: "field end"}, true
		}
	case "fk":
		if k == "KEY" {
			return to("fk2")
		}
	case "fk2":
		if isName(k) {
			return to("fk3")
		}
		return Step(State{N: "fk3"}, k)
	case "fk3":
		if k == "(" {
			return State{N: "ic", Ret: "fk end"}, true
		}
	case "fk end":
		if k == "REFERENCES" {
			return to("ref")
		}
		return Step(State{N: "field end"}, k)
	case "ref":
		if isName(k) {
			return to("ref2")
		}
	case "ref2":
		if k == "(" {
			return State{N: "ic", Ret: "ref end"}, true
		}
	case "ref end":
		if k == "MATCH" {
			return to("match")
		}
		return Step(State{N: "ref on"}, k)
	case "match":
		if in(k, "FULL", "PARTIAL", "SIMPLE") {
			return to("ref on")
		}
	case "ref on":
		if k == "ON" {
			return to("on1")
		}
		return Step(State{N: "field end"}, k)
	case "on1":
		if k == "DELETE" {
			return State{N: "action", Ret: "ref on2"}, true
		}
		return Step(State{N: "on2"}, k)
	case "ref on2":
		if k == "ON" {
			return to("on2")
		}
		return Step(State{N: "field end"}, k)
	case "on2":
		if k == "UPDATE" {
			return State{N: "action", Ret: "field end"}, true
		}
	case "action":
		switch k {
		case "RESTRICT", "CASCADE":
			return to(s.Ret)
		case "SET":
			return keep("action set")
		case "NO":
			return keep("action no")
		}
	case "action set":
		if k == "NULL" {
			return to(s.Ret)
		}
	case "action no":
		if k == "ACTION" {
			return to(s.Ret)
		}

	// column lists
	case "ic":
		if isName(k) {
			return keep("ic1")
		}
	case "ic1":
		if k == "(" {
			return keep("ic len")
		}
		return Step(State{N: "ic2", Ret: s.Ret, Typed: s.Typed}, k)
	case "ic len":
		if k == "NUM" {
			return keep("ic close")
		}
	case "ic close":
		if k == ")" {
			return keep("ic2")
		}
	case "ic2":
		if k == "ASC" || k == "DESC" {
			return keep("ic3")
		}
		return Step(State{N: "ic3", Ret: s.Ret, Typed: s.Typed}, k)
	case "ic3":
		if k == "," {
			return keep("ic")
		}
		if k == ")" {
			return State{N: s.Ret, Typed: s.Typed}, true
		}

	// columns
	case "coltype":
		if cat, found := TypeCat[k]; found {
			return State{N: "col first", Cat: cat}, true
		}
	case "col first":
		if k == "(" {
			switch s.Cat {
			case 'D', 'T', 'C':
				return keep("size")
			case 'P':
				return keep("pair")
			case 'O':
				return keep("opair")
			case 'E':
				return keep("vals")
			}
			return no()
		}
		if s.Cat == 'E' {
			return no()
		}
		s.N = "col"
		return Step(s, k)
	case "size":
		if k == "NUM" {
			return keep("size end")
		}
	case "size end":
		if k == ")" {
			return keep("col")
		}
	case "pair":
		if k == "NUM" {
			return keep("pair comma")
		}
	case "pair comma":
		if k == "," {
			return keep("size")
		}
	case "opair":
		if k == "NUM" {
			return keep("opair2")
		}
	case "opair2":
		if k == "," {
			return keep("size")
		}
		if k == ")" {
			return keep("col")
		}
	case "vals":
		if k == "SQ" || k == "DQ" {
			return keep("vals end")
		}
	case "vals end":
		if k == "," {
			return keep("vals")
		}
		if k == ")" {
			return keep("col")
		}
	case "col":
		at := func(pos int, name string) (State, bool) {
			if s.Pos > pos {
				return no()
			}
			x := s
			x.Pos, x.N = pos, name
			return x, true
		}
		switch k {
		case "UNSIGNED":
			if in(string(s.Cat), "D", "P", "O") {
				return at(1, "col")
			}
		case "ZEROFILL":
			if in(string(s.Cat), "D", "P", "O") {
				return at(2, "col")
			}
		case "BINARY":
			if s.Cat == 'C' {
				return at(3, "col")
			}
		case "CHARACTER":
			return keep("c charset")
		case "COLLATE":
			return keep("c name")
		case "ON":
			return keep("c on")
		case "NOT":
			return at(9, "c not")
		case "NULL", "AUTO_INCREMENT", "KEY":
			return at(9, "col")
		case "DEFAULT":
			return at(9, "c default")
		case "UNIQUE":
			return at(9, "c unique")
		case "PRIMARY":
			return at(9, "c primary")
		case "COMMENT":
			return at(9, "c comment")
		case ",", ")":
			return Step(State{N: "field end"}, k)
		}
	case "c charset":
		if k == "SET" {
			return keep("c name")
		}
	case "c name":
		if in(k, "IDENT", "BT", "SQ", "DQ", "BINARY") {
			return keep("col")
		}
	case "c on":
		if k == "UPDATE" {
			return keep("c on update")
		}
	case "c on update":
		if in(k, "CURRENT_TIMESTAMP", "IDENT") {
			return keep("col")
		}
	case "c not":
		if k == "NULL" {
			return keep("col")
		}
	case "c default":
		if in(k, "IDENT", "SQ", "DQ", "NUM", "CURRENT_TIMESTAMP", "NULL", "TRUE", "FALSE") {
			return keep("col")
		}
		if k == "NOW" {
			return keep("c now")
		}
	case "c now":
		if k == "(" {
			return keep("c now2")
		}
	case "c now2":
		if k == ")" {
			return keep("col")
		}
	case "c unique":
		if k == "KEY" {
			return keep("col")
		}
		s.N = "col"
		return Step(s, k)
	case "c primary":
		if k == "KEY" {
			return keep("col")
		}
	case "c comment":
		if k == "SQ" {
			return keep("col")
		}

	// table options
	case "opt end":
		switch k {
		case "EOF":
			return Accept, true
		case ";":
			return to("top")
		}
		return Step(State{N: "opt"}, k)
	case "opt":
		switch k {
		case ",":
			return to("opt")
		case "ENGINE", "COLLATE":
			return to("o name")
		case "CHARACTER":
			return to("o charset")
		case "DEFAULT":
			return to("o default")
		case "AUTO_INCREMENT", "AVG_ROW_LENGTH", "CHECKSUM", "DELAY_KEY_WRITE", "KEY_BLOCK_SIZE", "MAX_ROWS", "MIN_ROWS", "STATS_SAMPLE_PAGES":
			return to("o num")
		case "COMMENT", "CONNECTION", "PASSWORD":
			return to("o str")
		case "DATA", "INDEX":
			return to("o dir")
		case "INSERT_METHOD":
			return to("o ident")
		case "PACK_KEYS":
			return to("o pack")
		case "ROW_FORMAT":
			return to("o rowfmt")
		case "STATS_AUTO_RECALC", "STATS_PERSISTENT":
			return to("o stats")
		}
	case "o charset":
		if k == "SET" {
			return to("o name")
		}
	case "o default":
		switch k {
		case "CHARSET", "COLLATE":
			return to("o name")
		case "CHARACTER":
			return to("o charset")
		}
	case "o dir":
		if k == "DIRECTORY" {
			return to("o str")
		}
	case "o name", "o num", "o str", "o ident", "o pack", "o rowfmt", "o stats":
		if k == "=" {
			return to(s.N + "=")
		}
		return Step(State{N: s.N + "="}, k)
	case "o name=":
		if isName(k) {
			return to("opt end")
		}
	case "o num=":
		if k == "NUM" {
			return to("opt end")
		}
	case "o str=":
		if k == "SQ" || k == "DQ" {
			return to("opt end")
		}
	case "o ident=":
		if k == "IDENT" {
			return to("opt end")
		}
	case "o pack=":
		if in(k, "NUM", "IDENT") {
			return to("opt end")
		}
	case "o rowfmt=":
		if in(k, "DEFAULT", "DYNAMIC", "FIXED", "COMPRESSED", "REDUNDANT", "COMPACT") {
			return to("opt end")
		}
	case "o stats=":
		if in(k, "NUM", "DEFAULT") {
			return to("opt end")
		}
	}
	return no()
}

// Kinds is the alphabet of the grammar.
var Kinds = append(append([]string{}, Keywords...), "IDENT", "BT", "SQ", "DQ", "NUM", "(", ")", ",", ";", "=", "DASH", "ILLEGAL", "UNTERM", "EOF")

// Run feeds tokens to the automaton. It returns the index of the first token
// that is not acceptable, or -1.
func Run(toks []Tok) int {
	s := Start
	for i, t := range toks {
		n, ok := Step(s, t.K)
		if !ok {
			return i
		}
		s = n
	}
	return -1
}
