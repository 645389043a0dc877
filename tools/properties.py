import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    P.append(d)
DM='diff/diff.go'
p('C01','Executing a diff turns the old schema into the new one',
 "For any two schemas A and B that the parser accepts, executing the statements which diff generates from A to B on a database with schema A yields the tables, column definitions, indexes and foreign keys of B, with every added column placed directly after the column it follows in B. A second diff from the resulting schema to B is empty. The claim covers tables, columns, indexes and foreign keys; table options and the reordering of columns that both schemas have are not part of it.",
 ['inputs','programs','histories'],"all pairs (and chains) of schemas of the supported language",
 "The tests compare the text of about 15 hand-written diffs; which pairs of schemas make the generated statements miss, misplace or duplicate something is a question about all pairs, and no test ever executes the statements.",
 [DM,'model/table.go','model/index.go','model/table_column.go','format/format.go'],
 [('set differences of table, column and index identities','diff/diff.go newDiffCtx, newAlterCtx'),('placement of added columns','diff/diff.go addTableColumns'),('change detection','diff/diff.go alterTableColumns'),('drop and add of indexes','diff/diff.go dropTableIndexes, addTableIndexes')],
 [('fromSet/toSet','identities of the tables of both schemas','diff/diff.go diffCtx'),('beforeToNext','new column by the column it follows','diff/diff.go addTableColumns')],
 ['diff.Strings output'])
p('C02','Every statement of a diff is executable when its turn comes',
 "For any two schemas A and B that the parser accepts, each statement of the diff from A to B is a valid statement at the point where it is executed: what it drops, changes or follows exists then, what it adds does not, no table loses its last column, and no index is dropped before a foreign key that needs it and is dropped as well. Diff fails only when an index without a name would have to be dropped.",
 ['inputs','programs'],"all pairs of schemas of the supported language, every prefix of the generated statement sequence",
 "The order of the statements matters only in combinations (several dropped and added columns, keys and foreign keys together), while the tests cover single changes and never run the statements.",
 [DM],[('drop, create, alter order','diff/diff.go Statements, alterTables'),('lazy drop of indexes and lazy add of foreign keys','diff/diff.go dropTableIndexes, addTableIndexes'),('dependency order of added columns','diff/diff.go addTableColumns')],None,['diff.Strings output and error'])
p('C03','The diff of equivalent schemas is empty',
 "If two schema texts define the same schema - the same text in a different layout, spelling of types (synonyms, default display widths, NULL defaults, inline and separate keys), statement or index order, or as formatted by this library - then the diff between them is empty in both directions and no error is reported.",
 ['inputs'],"all pairs of equivalent schemas of the supported language",
 "Equivalence classes are infinite products of independent spellings; the tests have a few pairs.",
 [DM,'model/table.go','model/table_column.go','model/index.go','parser.go'],[('normalization','model/table.go Normalize, model/table_column.go Normalize, model/index.go Normalize'),('identities','model/index.go ID, model/reference.go ID'),('deep comparison of columns','diff/diff.go alterTableColumns')])
p('C04','The output is a function of the input alone',
 "Parsing, formatting, linting and diffing the same input with the same options gives byte-for-byte the same output and the same error every time, whatever order the runtime visits maps and sets in.",
 ['inputs','schedules','programs'],"all inputs, and all iteration orders of every map or set that is ranged over",
 "Map order is chosen by the runtime: a test samples a few of the orders, and the existing ones sort the output or use single-element sets.",
 [DM,'model/table.go'],[('inOrder','diff/diff.go'),('sorting of the remaining columns','diff/diff.go addTableColumns')])
p('C05','A diff is complete, framed statements or nothing at all',
 "A diff consists of complete statements, each ended by a semicolon; with transactions enabled it is exactly the diff without them between BEGIN; SET FOREIGN_KEY_CHECKS = 0; and SET FOREIGN_KEY_CHECKS = 1; COMMIT;. When diff returns an error nothing has been written. Comparing strings, files, sources and parsed statements gives the same result, with or without a caller-supplied parser.",
 ['inputs','programs','configurations'],"all pairs of schemas, options and entry points",
 "Separators depend on which of the phases produce something and on how many statements; the tests cover few combinations and one entry point each.",
 [DM,'diff/option.go'],[('assembly of the phases','diff/diff.go Statements'),('entry points','diff/diff.go Strings, Files, Sources')])
p('C06','Formatting and parsing again preserves the schema',
 "For every statement the parser accepts, formatting it with any indentation and parsing the result gives an equal model, and formatting that again gives the same text. The same holds for columns, indexes, references and options formatted on their own inside a statement, and for models built through the API; a model that no statement can express (without columns or values, or of an unknown kind) is refused with an error. A list of statements is formatted as its statements one after another.",
 ['inputs','programs'],"all accepted statements, all models, all indentations",
 "Each clause of the grammar has its own formatting code, and values need quoting that depends on their bytes; the tests format a handful of statements.",
 ['format/format.go','format/option.go','internal/util/util.go','parser.go'],[('formatting of each clause','format/format.go'),('Quote and Backquote','internal/util/util.go'),('decoding of quoted tokens','lexer.go')])
p('C07','A parsed model says what the text says',
 "Every text of the supported language is accepted, and the model that the parser returns has exactly the tables, columns, types, attributes, indexes, references and options that the text spells out, in that order, up to the documented normalization; nothing is lost, invented or attached to another object, and quoted values have the bytes the quotes denote.",
 ['inputs'],"all texts of the supported language",
 "Combinations of options, attributes and histories within a statement are unbounded; the tests compare formatted output for about 40 texts.",
 ['parser.go','lexer.go','model/table.go','model/table_column.go','model/index.go','model/reference.go'],[('building of the model','parser.go'),('normalization','model/*.go Normalize')])
p('C08','Parsing always terminates, without panic or leaked work',
 "On every input - any bytes, any length, truncated anywhere - parsing returns a result or an error in time proportional to the input, without a panic; afterwards no goroutine it started is left, and neither earlier inputs nor how often a parser was used change the result.",
 ['inputs','histories'],"all byte strings, all sequences of uses of a parser",
 "Panics, endless loops and stuck goroutines come from inputs nobody wrote down: a truncated or unexpected token at each of the parser's states.",
 ['parser.go','lexer.go','errors.go'],[('lexer goroutine and its cancellation','parser.go Parse, lexer.go lex'),('end-of-input handling','lexer.go')])
p('C09','A syntax error points at the first wrong token',
 "For every rejected text the error is a parse error whose line, column, and surrounding text identify the first token after which the text can no longer become acceptable (or the end of the text); the message is printable and its position lies within the text.",
 ['inputs'],"all rejected texts",
 "Each of the several hundred places that detect an error has to report its own position, over all layouts with multi-byte characters and line breaks; the tests check three messages.",
 ['errors.go','parser.go','lexer.go'],[('positions of tokens','lexer.go'),('construction of the error','errors.go, parser.go parseError')])
p('C10','Layout never changes the meaning of a schema',
 "Whitespace of any kind and amount, comments of all three forms between any two tokens, the case of keywords, and missing or repeated semicolons at the end never change whether a text is accepted or what model it gives; the same bytes within quotes do count.",
 ['inputs'],"all accepted texts and all variations of their layout",
 "The token boundary at which a comment or a newline is mishandled can be any of hundreds; the tests place comments in a few.",
 ['lexer.go','parser.go'],[('skipping of white space and comments','lexer.go, parser.go skipWhiteSpaces'),('keyword lookup','tokens_gen.go')])
p('C11','Everything outside of the supported language is rejected',
 "A text that is not a sequence of statements of the supported language is never accepted: malformed, incomplete, contradictory or unknown input is rejected with an error, and no part of an accepted text is ignored.",
 ['inputs'],"all texts",
 "A state machine of about 300 states has to agree with the grammar on each of its transitions, after every history; the tests contain about 60 texts.",
 ['parser.go','lexer.go'],[('recursive descent over the tokens','parser.go'),('column option flags','parser.go parseColumnOption')],[('context','lookahead over the tokens','parser.go parseCtx')],['Parser.ParseString error'])
p('C12','Normalization is idempotent and leaves its receiver alone',
 "For every model of a column, index or table, normalizing gives the equivalent canonical definition, normalizing twice gives the same as once, the receiver stays as it was, and a result reported as unmodified is the receiver itself.",
 ['inputs','programs'],"all models that can be built through the API, in any order of calls",
 "The rules for types, widths, defaults, inline keys and foreign keys multiply; the tests have about ten columns.",
 ['model/table_column.go','model/table.go','model/index.go'],[('Normalize','model/table_column.go, model/table.go, model/index.go'),('NativeLength','model/table_column.go')])
p('C13','Model objects behave as independent values and exact containers',
 "After any sequence of operations through the API, a table, index, reference or statement list holds exactly what was put into it, in that order, and every lookup (of a column, the column before it, its position, an index, a statement) agrees with the listing. A clone and its original, an object and its normal form, and a column added to two tables never affect each other, nor does what the caller does with its slices afterwards.",
 ['histories','programs'],"all sequences of API calls",
 "Aliasing and stale lookup tables show only after particular sequences of adds, clones and changes; the tests build each object once.",
 ['model/table.go','model/table_column.go','model/index.go','model/reference.go','model/statement.go'],[('column position table','model/table.go AddColumn'),('Clone','model/table_column.go, model/index.go'),('Lookup','model/table.go, model/statement.go')],[('columnNameToIndex','position by column identity','model/table.go table')])
p('C14','Identities are equal exactly for the same definitions',
 "Two indexes or foreign keys of a table have the same identity if and only if they define the same thing (kind, names, algorithm, columns with lengths and directions, parser, referenced table, columns and actions); tables have the same identity if and only if they have the same name, and columns if and only if their names differ in case at most, as the names of columns are not case sensitive. Identities of different kinds of objects never collide.",
 ['inputs'],"all pairs of definitions",
 "An identity is a string built from optional parts: which two definitions collide is a question about all pairs, and the diff silently misses a change when two do.",
 ['model/index.go','model/reference.go','model/table_column.go','model/table.go','model/database.go'],[('ID','model/index.go, model/reference.go, model/table.go')])
p('C15','A source delivers exactly the bytes of what its URI names, or an error',
 "For every URI and every source, retrieving a schema either writes exactly the contents of the named file, commit, stream or reader, or returns an error; plain paths with any characters are files, and URIs with unsupported schemes or remote hosts are refused. A source that was not fully read is never reported as a success. Every reading gives the contents as they are then, and leaves no file open.",
 ['inputs','configurations','fault_sequences'],"all URIs, all file contents, all read errors",
 "URI parsing has corner cases in every component and reads can fail at every byte; the tests use one file and one repository.",
 ['source.go'],[('dispatch on the scheme','source.go NewSchemaSource, hasScheme'),('copying','source.go WriteSchema')])
p('C16','A database source is complete, or it is an error',
 "Retrieving a schema from a MySQL server gives the CREATE statement of every table in the server's order, each ended by a semicolon, whatever the names of the tables are. If anything fails on the way - connecting, any query, any row, any packet - an error is returned and nothing has been written; only SHOW statements are executed. Every reading gives the catalog as it is then, and closes its connections.",
 ['fault_sequences','configurations','inputs'],"all catalogs, all faults at every point of the conversation with the server",
 "The tests need a live server and skip without one; a fault at each packet cannot be provoked with one.",
 ['source.go'],[('SHOW TABLES / SHOW CREATE TABLE loop','source.go mysqlSource.WriteSchema'),('DSN handling','source.go MySQLConfig')])
p('C17','A failed write or read is always reported',
 "Whenever the destination refuses a write or accepts only a part of it, or a source fails to deliver, at any point, the call that was asked to format, lint, diff or copy returns an error; whenever it returns no error, the destination has received the complete output.",
 ['fault_sequences','inputs'],"all outputs, and a failure at every write and every byte",
 "A dropped error shows only when exactly that write fails; the tests write to memory only.",
 ['format/format.go','lint/lint.go','diff/diff.go','source.go'],[('buffered output with checked writes','format/format.go, diff/diff.go, lint/lint.go')])
p('C18','Lint output is the same schema in canonical layout',
 "For every schema accepted, linting writes every table statement once, in order, one blank line apart, each ended by a semicolon and each definition on its own line with the requested indentation; the result parses to the same model and linting it again changes nothing, whatever the same linter was used for before. For a source that cannot be read or parsed an error is returned and nothing is written.",
 ['inputs','configurations'],"all schemas and indentations",
 "There is no test of the linter at all.",
 ['lint/lint.go','format/format.go','format/option.go'],[('Run','lint/lint.go'),('formatTable','format/format.go')])
p('C19','The commands report success exactly when their output is complete',
 "For all arguments, sources and output files, schemadiff, schemalex and schemalint exit with status 0 exactly when the complete result has been written to standard output or to the file given with -o, and otherwise exit with a non-zero status and a message on standard error; the result equals that of the library. A run that cannot produce the result writes no part of one to standard output and leaves an existing output file as it was, and the output file may be one of the inputs.",
 ['configurations','fault_sequences','inputs'],"all argument combinations, and failures of every source and destination",
 "The commands have no tests.",
 ['cmd/schemadiff/schemadiff.go','cmd/schemalex/schemalex.go','cmd/schemalint/schemalint.go'],[('_main','cmd/schemadiff/schemadiff.go, cmd/schemalint/schemalint.go')])
p('C20','Concurrent use gives the same results as sequential use',
 "Parsing, formatting, diffing and reading shared models from any number of goroutines, including through one shared parser, gives every caller the result it would have had alone, for every interleaving; there is no data race, no deadlock and no goroutine left behind.",
 ['schedules','inputs'],"all interleavings of the goroutines of the callers and of the lexer they start",
 "A schedule is chosen by the runtime; the tests run one goroutine and whatever order comes up.",
 ['parser.go','lexer.go','model/table.go','model/index.go','model/table_column.go','diff/diff.go'],[('lexer goroutine with channel','parser.go Parse, lexer.go'),('channels of the model iterators','model/table.go, model/index.go'),('table mutex','model/table.go')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    assert x['statement'].count('. ')<=2,x['id']
print(len(P))
