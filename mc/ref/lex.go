// Package ref is an independent, deliberately boring specification of the
// language schemalex supports: a one-pass lexer, a grammar written as an
// explicit state machine, the normalization rules, and a catalog simulator
// for the DDL statements that a migration consists of. It shares no code with
// the repository; the only thing it imports from there is the set of public
// model accessors (canon.go), to read out what the implementation produced.
package ref

import (
	"strings"
	"unicode/utf8"
)

// Tok is a lexical element. K is the keyword in upper case, a punctuation
// character, or one of IDENT BT SQ DQ NUM DASH ILLEGAL UNTERM EOF.
type Tok struct {
	K    string
	Text string // source text, verbatim
	Val  string // denoted name, string or number text
	Pos  int
	Line int
	Col  int
}

// Keywords is the list of words that are not plain identifiers.
var Keywords = strings.Fields(`ACTION AUTO_INCREMENT AVG_ROW_LENGTH BIGINT BINARY BIT BLOB BOOL
BOOLEAN BTREE CASCADE CHAR CHARACTER CHARSET CHECK CHECKSUM COLLATE COMMENT COMPACT COMPRESSED
CONNECTION CONSTRAINT CREATE CURRENT_TIMESTAMP DATA DATABASE DATE DATETIME DECIMAL DEFAULT
DELAY_KEY_WRITE DELETE DIRECTORY DISK DOUBLE DROP DYNAMIC ENGINE ENUM EXISTS FALSE FIRST FIXED
FLOAT FOREIGN FULL FULLTEXT GEOMETRY HASH IF INDEX INSERT_METHOD INT INTEGER JSON KEY
KEY_BLOCK_SIZE LAST LIKE LONGBLOB LONGTEXT MATCH MAX_ROWS MEDIUMBLOB MEDIUMINT MEDIUMTEXT MEMORY
MIN_ROWS NO NOT NULL NUMERIC ON PACK_KEYS PARTIAL PARSER PASSWORD PRIMARY REAL REDUNDANT
REFERENCES RESTRICT ROW_FORMAT SET SIMPLE SMALLINT SPATIAL STATS_AUTO_RECALC STATS_PERSISTENT
STATS_SAMPLE_PAGES STORAGE TABLE TABLESPACE TEMPORARY TEXT TIME TIMESTAMP TINYBLOB TINYINT
TINYTEXT TRUE UNION UNIQUE UNSIGNED UPDATE USE USING VARBINARY VARCHAR YEAR WITH ZEROFILL ASC
DESC NOW`)

var kwset = func() map[string]string {
	m := map[string]string{}
	for _, k := range Keywords {
		m[k] = k
	}
	return m
}()

// IsKeyword tells whether the word is reserved, in any letter case.
func IsKeyword(s string) bool { _, ok := kwset[strings.ToUpper(s)]; return ok }

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func digit(c byte) bool  { return c >= '0' && c <= '9' }
func space(c byte) bool  { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f' }
func word(c byte) bool   { return letter(c) || digit(c) || c == '_' }

type scanner struct {
	b         string
	p         int
	line, col int
}

// adv consumes one character (a rune, or a byte that is not valid UTF-8).
func (s *scanner) adv() {
	_, w := utf8.DecodeRuneInString(s.b[s.p:])
	if s.b[s.p] == '\n' {
		s.line++
		s.col = 0
	} else {
		s.col++
	}
	s.p += w
}
func (s *scanner) at(i int) byte {
	if s.p+i < len(s.b) {
		return s.b[s.p+i]
	}
	return 0
}
func (s *scanner) more() bool { return s.p < len(s.b) }

func (s *scanner) number() {
	for s.more() && digit(s.at(0)) {
		s.adv()
	}
	if s.at(0) == '.' {
		s.adv()
		for s.more() && digit(s.at(0)) {
			s.adv()
		}
	}
	if c := s.at(0); c == 'e' || c == 'E' {
		s.adv()
		if s.at(0) == '-' {
			s.adv()
		}
		for s.more() && digit(s.at(0)) {
			s.adv()
		}
	}
}

// Lex returns the significant elements of the text: white space and comments
// are dropped. The last one is EOF, or UNTERM for a literal that is not closed.
func Lex(b string) []Tok {
	s := &scanner{b: b, line: 1, col: 1}
	var out []Tok
	for {
		t := Tok{Pos: s.p, Line: s.line, Col: s.col}
		if !s.more() {
			t.K = "EOF"
			return append(out, t)
		}
		c := s.at(0)
		switch {
		case space(c):
			s.adv()
			continue
		case letter(c):
			for s.more() && word(s.at(0)) {
				s.adv()
			}
			t.K = "IDENT"
			if k, ok := kwset[strings.ToUpper(b[t.Pos:s.p])]; ok {
				t.K = k
			}
			t.Val = b[t.Pos:s.p]
		case digit(c):
			s.number()
			t.K, t.Val = "NUM", b[t.Pos:s.p]
		case c == '`' || c == '\'' || c == '"':
			s.adv()
			closed := false
			for s.more() {
				d := s.at(0)
				s.adv()
				if d == '\\' && c != '`' {
					if s.more() {
						s.adv()
					}
				} else if d == c {
					if s.at(0) == c && s.more() {
						s.adv()
					} else {
						closed = true
						break
					}
				}
			}
			if !closed {
				t.K, t.Text = "UNTERM", b[t.Pos:s.p]
				return append(out, t)
			}
			in := b[t.Pos+1 : s.p-1]
			switch c {
			case '`':
				t.K, t.Val = "BT", unback(in)
			case '\'':
				t.K, t.Val = "SQ", decodeLit(in, c)
			default:
				t.K, t.Val = "DQ", decodeLit(in, c)
			}
		case c == '/' && s.at(1) == '*':
			s.adv()
			s.adv()
			for s.more() {
				if s.at(0) == '*' && s.at(1) == '/' {
					s.adv()
					s.adv()
					break
				}
				s.adv()
			}
			continue
		case c == '#', c == '-' && s.at(1) == '-' && space(s.at(2)):
			for s.more() {
				d := s.at(0)
				s.adv()
				if d == '\n' {
					break
				}
			}
			continue
		case c == '-' && s.at(1) == '-':
			s.adv()
			s.adv()
			t.K = "DASH"
		case (c == '-' || c == '.' || c == '+') && digit(s.at(1)):
			s.adv()
			s.number()
			t.K, t.Val = "NUM", b[t.Pos:s.p]
		case c == '(' || c == ')' || c == ';' || c == ',' || c == '=':
			s.adv()
			t.K = string(c)
		default: // including . / - + that start nothing
			s.adv()
			t.K = "ILLEGAL"
		}
		t.Text = b[t.Pos:s.p]
		out = append(out, t)
	}
}

func unback(s string) string { return strings.ReplaceAll(s, "``", "`") }

// decodeLit computes the string a literal denotes, given what is between its
// quotes: MySQL's escape sequences, and doubled quotes.
func decodeLit(s string, q byte) string {
	var o []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '\\' && i+1 < len(s):
			i++
			o = unescape(o, s[i])
		case c == q && q != 0 && i+1 < len(s) && s[i+1] == q:
			i++
			o = append(o, q)
		default:
			o = append(o, c)
		}
	}
	return string(o)
}

func unescape(o []byte, c byte) []byte {
	switch c {
	case '0':
		return append(o, 0)
	case 'b':
		return append(o, '\b')
	case 'n':
		return append(o, '\n')
	case 'r':
		return append(o, '\r')
	case 't':
		return append(o, '\t')
	case 'Z':
		return append(o, 26)
	case '%', '_':
		return append(o, '\\', c)
	}
	return append(o, c)
}

// Denoted computes the string that is denoted by a string the model holds: the
// model keeps escape sequences as they were written, quotes stand for themselves.
func Denoted(s string) string { return decodeLit(s, 0) }
