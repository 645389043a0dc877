package checks

import (
	"strings"

	"schemaverif/fw"
)

// The catalogs: fragments of every construct, to be combined.

var catTypes = []string{"BIT", "BIT(3)", "TINYINT", "TINYINT(1)", "SMALLINT", "MEDIUMINT", "INT", "INT(7)", "INTEGER", "BIGINT", "REAL", "REAL(5,2)", "DOUBLE", "FLOAT(7,3)", "FLOAT",
	"DECIMAL", "DECIMAL(5)", "DECIMAL(6,2)", "NUMERIC", "NUMERIC(4,1)", "DATE", "TIME", "TIME(6)", "TIMESTAMP", "DATETIME(3)", "DATETIME", "YEAR", "CHAR", "CHAR(4)", "VARCHAR(20)", "BINARY(2)", "BINARY", "VARBINARY(9)",
	"TINYBLOB", "BLOB", "MEDIUMBLOB", "LONGBLOB", "TINYTEXT", "TEXT", "MEDIUMTEXT", "LONGTEXT", "ENUM('p','q')", "SET(\"r\",'s')", "BOOLEAN", "BOOL", "JSON", "GEOMETRY"}

var catAttrs = []string{"UNSIGNED", "ZEROFILL", "BINARY", "CHARACTER SET utf8", "CHARACTER SET `big5`", "COLLATE utf8_bin", "COLLATE 'latin1_bin'", "NOT NULL", "NULL",
	"DEFAULT NULL", "DEFAULT 'x'", "DEFAULT \"1\"", "DEFAULT 2.50", "DEFAULT word", "DEFAULT CURRENT_TIMESTAMP", "DEFAULT NOW()", "DEFAULT TRUE", "DEFAULT false", "DEFAULT ''",
	"AUTO_INCREMENT", "UNIQUE", "UNIQUE KEY", "KEY", "PRIMARY KEY", "COMMENT 'it''s'", "COMMENT ''", "ON UPDATE CURRENT_TIMESTAMP", "ON UPDATE later", "DEFAULT '1e3'", "DEFAULT '-7'", "DEFAULT '0x'"}

// attributes that make a difference between columns, for the longer sequences
var catAttrsCore = []string{"UNSIGNED", "ZEROFILL", "BINARY", "CHARACTER SET utf8", "COLLATE utf8_bin", "NOT NULL", "NULL", "DEFAULT '1'", "DEFAULT 'x'", "DEFAULT NULL", "AUTO_INCREMENT", "UNIQUE", "PRIMARY KEY", "COMMENT 'c'", "ON UPDATE CURRENT_TIMESTAMP"}

var catCoreTypes = []string{"BIT(3)", "INT", "TINYINT(1)", "DOUBLE", "DECIMAL(6,2)", "VARCHAR(20)", "TEXT", "TIMESTAMP", "ENUM('p','q')", "BLOB", "BOOL"}

// fields of a table with the columns a, b and c
var catFields = []string{
	"a INT", "b VARCHAR(10) NOT NULL DEFAULT 'x''y'", "c DECIMAL(4,2) UNSIGNED ZEROFILL NOT NULL COMMENT 'c'", "`a b` TEXT", "d INT PRIMARY KEY", "e INT UNIQUE KEY", "f INT NOT NULL KEY", "g INT UNIQUE PRIMARY KEY", "h ENUM('u','v','w') COLLATE utf8_bin", "i SET('m') NOT NULL", "j TIMESTAMP DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP",
	"PRIMARY KEY (a)", "PRIMARY KEY (b, a)", "PRIMARY KEY USING BTREE (a)", "PRIMARY KEY (a) USING HASH", "PRIMARY KEY pname (c)", "CONSTRAINT PRIMARY KEY (a)", "CONSTRAINT ps PRIMARY KEY (a)",
	"KEY (a)", "INDEX (a, b)", "KEY ka (a)", "INDEX ka (a) USING BTREE", "KEY kb USING HASH (b(5), a)", "KEY kc (b DESC, a ASC)", "KEY kd (b(3) ASC)",
	"UNIQUE (a)", "UNIQUE KEY ua (a)", "UNIQUE INDEX ub (a, b)", "CONSTRAINT us UNIQUE (a)", "CONSTRAINT us UNIQUE KEY uc (b)", "CONSTRAINT `fk1` UNIQUE INDEX USING BTREE (c)",
	"FULLTEXT (b)", "FULLTEXT KEY fa (b, c)", "FULLTEXT INDEX fb (b) WITH PARSER ngram", "FULLTEXT fc (b) WITH PARSER `my parser`", "SPATIAL (a)", "SPATIAL INDEX sa (a)", "SPATIAL sb (b)",
	"FOREIGN KEY (a) REFERENCES p (x)", "FOREIGN KEY fn (a, b) REFERENCES p (x, y)", "CONSTRAINT fk1 FOREIGN KEY (a) REFERENCES p (x)", "CONSTRAINT fk2 FOREIGN KEY fn2 (b(4), a DESC) REFERENCES `p q` (x(2), y DESC)",
	"CONSTRAINT ka FOREIGN KEY (a) REFERENCES p (x) ON DELETE CASCADE", "CONSTRAINT e FOREIGN KEY (a) REFERENCES p (x) ON DELETE SET NULL ON UPDATE NO ACTION", "FOREIGN KEY (a) REFERENCES p (x) MATCH FULL ON UPDATE RESTRICT", "CONSTRAINT fk1 FOREIGN KEY (b) REFERENCES p (y) MATCH SIMPLE ON DELETE RESTRICT ON UPDATE CASCADE", "CONSTRAINT FOREIGN KEY (c) REFERENCES p (x) MATCH PARTIAL", "FOREIGN KEY (a)", "CONSTRAINT fk9 FOREIGN KEY (a)",
}

var catOptions = []string{"ENGINE = InnoDB", "ENGINE MyISAM", "ENGINE = `Inno DB`", "AUTO_INCREMENT = 5", "AVG_ROW_LENGTH 6", "DEFAULT CHARSET = utf8", "DEFAULT CHARACTER SET utf8mb4", "CHARACTER SET = latin1", "DEFAULT COLLATE = utf8_bin", "COLLATE utf8_general_ci", "CHECKSUM = 1",
	"COMMENT = 'it''s'", "COMMENT \"d\\\"q\"", "CONNECTION = 'mysql://x'", "DATA DIRECTORY = '/d'", "DELAY_KEY_WRITE = 1", "INDEX DIRECTORY = '/i'", "INSERT_METHOD = none", "KEY_BLOCK_SIZE = 8", "MAX_ROWS = 9", "MIN_ROWS 2", "PACK_KEYS = 0", "PACK_KEYS = some", "PASSWORD = 'pw'",
	"ROW_FORMAT = DEFAULT", "ROW_FORMAT COMPRESSED", "ROW_FORMAT = DYNAMIC", "ROW_FORMAT = FIXED", "ROW_FORMAT = REDUNDANT", "ROW_FORMAT = COMPACT", "STATS_AUTO_RECALC = 1", "STATS_AUTO_RECALC = DEFAULT", "STATS_PERSISTENT = 0", "STATS_PERSISTENT DEFAULT", "STATS_SAMPLE_PAGES = 20"}

var catStmts = []string{"CREATE TABLE t (a INT)", "CREATE TABLE IF NOT EXISTS u (b INT NOT NULL, KEY (b)) ENGINE = x", "CREATE TEMPORARY TABLE v (c TEXT)", "CREATE TABLE TEMPORARY w (d INT)", "CREATE TABLE x LIKE t", "CREATE TEMPORARY TABLE IF NOT EXISTS y LIKE `t`", "CREATE TABLE z IF NOT EXISTS (a INT)",
	"CREATE DATABASE db", "CREATE DATABASE IF NOT EXISTS `d b`", "DROP TABLE IF EXISTS t", "SET NAMES 'utf8;x'", "USE `a;b`", "", "-- comment ; here\n", "/* CREATE TABLE no (a INT); */", "# x;y\n", "SET @a = \"it's\"", "INSERT INTO t"}

// structTexts combines the fragments of the catalogs.
func structTexts(c *fw.Ctx, f func(text string)) {
	n := 2
	if c.Thorough {
		n = 3
	}
	for _, t := range catTypes {
		for _, a := range catAttrs {
			if !c.Mine() {
				continue
			}
			pre := "CREATE TABLE t (a " + t + " " + a
			f(pre + ")")
			for _, b := range catAttrs {
				f(pre + " " + b + ")")
				if n == 3 {
					for _, d := range catAttrs {
						f(pre + " " + b + " " + d + ", z INT)")
					}
				}
			}
			if c.Expired() {
				return
			}
		}
	}
	for _, t := range catCoreTypes {
		for _, a := range catAttrsCore {
			if !c.Mine() {
				continue
			}
			strs(prefixed(" ", catAttrsCore), 2, n+1, func(s string) {
				if !c.Expired() {
					f("CREATE TABLE t (a " + t + " " + a + s + ", z INT)")
				}
			})
		}
	}
	for _, a := range catFields {
		for _, b := range catFields {
			if !c.Mine() {
				continue
			}
			f("CREATE TABLE t (" + a + ", " + b + ")")
			f("CREATE TABLE t (" + a + " " + b + ")")
			f("CREATE TABLE t (" + a + ",, " + b + ")")
			for _, d := range catFields {
				if n == 3 || strings.HasPrefix(d, "CONSTRAINT") {
					f("CREATE TABLE t (" + a + ", " + b + ", " + d + ") COMMENT = 'x'")
				}
			}
			if c.Expired() {
				return
			}
		}
	}
	for _, a := range catOptions {
		for _, b := range catOptions {
			if !c.Mine() {
				continue
			}
			for _, sep := range []string{" ", ", ", " , , "} {
				f("CREATE TABLE t (a INT) " + a + sep + b)
				f("CREATE TABLE t (a INT) " + sep + a + sep + b + ";")
				f("CREATE TABLE t (a INT) " + a + sep + b + sep)
				if n == 3 {
					for _, d := range catOptions {
						f("CREATE TABLE t (a INT) " + a + sep + b + sep + d + "; CREATE TABLE u (b INT)")
					}
				}
			}
		}
	}
	stmts := append(append([]string{}, catStmts...), "CREATE TABLE bad", "CREATE TABLE bad (a INT)) ", "CREATE TABLE bad (a INT) ENGINE", "DROP 'x", "CREATE DATABASE", "CREATE VIEW v")
	for _, a := range stmts {
		for _, b := range stmts {
			if !c.Mine() {
				continue
			}
			f(a)
			for _, sep := range []string{";", "\n", " ; ;\n"} {
				f(a + sep + b)
				f(a + sep + b + ";")
				for _, d := range stmts {
					f(a + sep + b + sep + d)
				}
			}
		}
	}
}

func prefixed(p string, l []string) []string {
	var o []string
	for _, s := range l {
		o = append(o, p+s)
	}
	return o
}
