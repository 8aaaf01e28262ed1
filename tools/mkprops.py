#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

TOK='sqltoken/tokenizer.go'; PAR='parser.go'; AST='sqlast/ast.go'; QRY='sqlast/query.go'; STM='sqlast/stmt.go'
TYP='sqlast/type.go'; VAL='sqlast/value.go'; WRT='sqlast/writer.go'

p('P01','Tokens are exactly the lexical elements of the input',
  "Tokenizing a text under any of the shipped dialects yields, in order, exactly its lexical elements with the right kind, value and quote style: words recognised as keywords whatever their letter case, delimited identifiers, numbers, strings with doubled quotes undone, longest-match operators, whitespace and comments; nothing is lost, invented, split or merged. "
  "A text with an unclosed string, comment or delimited identifier, with a '!' without '=', or that is not UTF-8, is reported as an error.",
  ['inputs','configurations'],
  'For every input text, under each of the generic, MySQL and PostgreSQL dialects.',
  'The tokenizer tests compare a few dozen fixed snippets under one or two dialects; combinations of adjacent tokens, odd characters, line ends and dialect characters are unbounded.',
  [TOK,'sqltoken/kind.go','dialect/dialect.go','dialect/mysql.go','dialect/postgres.go','dialect/keywords.go'],
  [('Tokenizer.next',TOK),('MakeKeyword',TOK),('IsIdentifierStart/IsIdentifierPart/IsDelimitedIdentifierStart','dialect/*.go')],
  ['Tokenizer.Tokenize return value'])
p('P02','Token positions are the true line and column of the text',
  "Every token starts where the previous one ended, the first at line 1 column 1, and its start and end are the line and column that follow from the text before them. "
  "Columns count characters from 1, except that a tab between tokens counts four, and each of \\n, \\r\\n and \\r starts a new line, also inside strings, delimited identifiers and comments.",
  ['inputs','configurations'],
  'For every valid UTF-8 input text that tokenizes, under every dialect, for every token of it.',
  'Tests pin positions of single-line ASCII snippets; the error only shows after multi-line or non-ASCII tokens, escaped quotes or mixed line ends.',
  [TOK],[('Tokenizer.consume, Line and Col counters',TOK),('Tokenizer.Scan',TOK)],['Token.From / Token.To'])
p('P03','All tokenizer and parser entry points see the same tokens',
  "Tokenizing all at once, token by token, into a reused token, or in a mix of these ways gives the same tokens and the same error, whichever constructor and option order built the tokenizer. "
  "With comments disabled it yields the same tokens and positions without the whitespace and comments. "
  "A parser that is handed those tokens, with or without whitespace, gives the same statements as one reading the text.",
  ['inputs','configurations','histories'],
  'For every input text, every dialect, every tokenizer constructor and option combination.',
  'The tests use each entry point on one or two texts and never compare them with one another.',
  [TOK,PAR],[('NewTokenizer, NewTokenizerWithOptions, DisableParseComment',TOK),('Parser.SetTokens, NewParserWithOptions',PAR)],
  ['Tokenizer.Tokenize / NextToken / Scan','Parser.ParseSQL after SetTokens'])
p('P04','Read faults are reported and chunking of the input is invisible',
  "A reader that fails with an error other than end-of-input at any byte makes tokenizing and parser construction fail with an error that carries that cause, never a result for the part read so far. "
  "How the reader splits the input into chunks, including one byte at a time, empty reads and data returned together with end-of-input, never changes tokens, statements or comments.",
  ['fault_sequences','inputs'],
  'For every input text, every byte offset at which the reader can fail, and every way to chunk the input.',
  'The tests only use in-memory readers and whole files, which never fail and deliver everything at once.',
  [TOK,PAR],[('errReader',TOK),('NewParser error path',PAR)],['error of Tokenize, Scan and NewParser'])
p('P05','A query parses to the structure it spells',
  "Parsing a SELECT query yields exactly the tree its text spells: common table expressions, select list with aliases and wildcards, DISTINCT, table references with joins of every kind, derived and lateral tables, table functions and hints, WHERE, GROUP BY, HAVING, set operations with INTERSECT binding tighter than UNION and EXCEPT, ORDER BY, LIMIT and OFFSET, and window specifications. "
  "Joins and set operations of equal rank associate to the left, and ON or USING belongs to the nearest join that still lacks one.",
  ['inputs','configurations'],
  'For every query of the supported grammar, of any size and nesting, under every dialect.',
  'About thirty fixed queries are compared in the tests; clause combinations, nesting and join shapes are unbounded.',
  [PAR,QRY,AST],[('parseQuery, parseQueryBody, parseSelect',PAR),('parseTableReference, parseTableReferenceRight, parseJoinSpec',PAR),('parseFunction, parseWindowFrame',PAR)],
  ['Parser.ParseStatement / ParseSQL / ParseFile'])
p('P06','INSERT, UPDATE, DELETE and EXPLAIN parse to what they spell',
  "Parsing INSERT (value rows or a query, optional columns, ON DUPLICATE KEY UPDATE), UPDATE, DELETE and EXPLAIN statements yields exactly the table, columns, rows, assignments and condition the text spells, each in its place and order.",
  ['inputs','configurations'],
  'For every such statement of the supported grammar with any number of rows, columns and assignments, under every dialect.',
  'The tests hold a handful of fixed statements, mostly with one row and one or two assignments.',
  [PAR,STM],[('parseInsert, parseUpdate, parseDelete, parseAssignments',PAR)],['Parser.ParseStatement / ParseSQL'])
p('P07','Schema statements and data types parse to what they spell',
  "Parsing CREATE TABLE, CREATE [MATERIALIZED] VIEW, CREATE [UNIQUE] INDEX, ALTER TABLE, DROP TABLE and DROP INDEX yields exactly the names, columns, data types with sizes and modifiers, defaults, column and table constraints, table options and flags the text spells. "
  "The order in which DEFAULT, AUTO_INCREMENT and column constraints follow a column's type does not lose or change any of them.",
  ['inputs','configurations'],
  'For every such statement of the supported grammar, every supported data type, and every combination and order of column attributes, under every dialect.',
  'The tests compare a few fixed statements; most type, constraint and option combinations are never parsed.',
  [PAR,STM,TYP,'sqlast/table_option.go'],[('parseCreateTable, parseElements, parseColumnDefinition',PAR),('ParseDataType',PAR),('parseAlter, parseDrop, parseCreateIndex, parseTableOptions',PAR)],
  ['Parser.ParseStatement / ParseSQL / ParseDataType'])
p('P08','Operator precedence and associativity are respected',
  "An expression without redundant parentheses parses to the one tree given by this order, from loosest to tightest: OR; AND; NOT; IS [NOT] NULL; comparisons, [NOT] LIKE, [NOT] IN and [NOT] BETWEEN; binary and unary + and -; *, / and %; the :: cast; binary operators of equal rank associate to the left, and BETWEEN's AND is not the logical one. "
  "Parentheses, function calls, CASE, CAST, EXISTS and subqueries are atoms, and explicit parentheses are kept in the tree.",
  ['inputs','programs'],
  'For every expression over these operators of any depth, in every clause that takes an expression.',
  'The tests contain single operators and a few pairs; the number of operator sequences and nestings is unbounded.',
  [PAR,AST,'sqlast/operator.go'],[('parseSubexpr, parseInfix, parsePrefix',PAR),('getPrecedence, getNextPrecedence',PAR),('parseBetween, parseIn, parsePGCast',PAR)],
  ['Parser.ParseExpr and expressions inside statements'])
p('P09','Printed SQL parses back to the same tree',
  "For every tree that the parser returns, and for trees built by hand from the same nodes, the printed SQL parses under the same dialect to an equal tree up to positions. Printing that tree again gives the same text.",
  ['inputs','programs'],
  'For every statement of the supported grammar and every tree of the nodes the parser can produce.',
  'Tests compare the printed text of a few dozen trees with a fixed string; they never feed the output back for arbitrary trees.',
  [AST,QRY,STM,TYP,VAL,WRT,PAR],[('ToSQLString / WriteTo of every node','sqlast/*.go'),('Parser',PAR)],['ToSQLString and a second parse'])
p('P10','Accepted input is never silently dropped or altered',
  "When a whole text is accepted, the statements returned account for every word, literal and symbol in it, in order, up to the parser's normal spellings: printing them gives the same tokens except for letter case of keywords, optional words (AS, KEY after UNIQUE, WITHOUT TIME ZONE), synonyms (<> and !=, INT and INTEGER, CHAR and CHARACTER, VARCHAR and CHARACTER VARYING, :: and CAST), numeric spelling, the order of a column's DEFAULT and AUTO_INCREMENT among its constraints, and separators between statements and table options. "
  "A text the grammar does not cover is rejected with an error instead.",
  ['inputs'],
  'For every input text the parser accepts as a whole, valid or a mutation of a valid one.',
  'The tests only parse well-formed statements, and none checks that nothing of the text was left out.',
  [PAR,AST,QRY,STM,TYP],[('ParseSQL delimiter check',PAR),('every optional clause that consumes tokens',PAR)],['ParseSQL result compared with the token stream of the input'])
p('P11','Any input ends in statements or an error, never a crash or hang',
  "For any sequence of bytes, and any sequence of valid tokens, the tokenizer and each parse entry point return in time roughly proportional to the input, either with a result or with a non-nil error; they never panic, loop forever, exhaust the stack or write to standard output or error. "
  "Every tree they return can be printed, walked and asked for its positions without a panic.",
  ['inputs','configurations'],
  'For every byte string, every dialect, with and without comment parsing, for texts nested up to hundreds of thousands of levels.',
  'The tests feed valid statements only; error paths are hardly exercised.',
  [TOK,PAR,AST,QRY,STM,TYP],[('recoverError, fail, enter',PAR),('Tokenizer error returns',TOK)],['return values, process exit, stdout'])
p('P12','Layout, comments and keyword case do not change the statements',
  "Rewriting a text by changing whitespace and line ends between tokens, inserting or removing comments between tokens, changing the letter case of keywords, or turning comment parsing on or off never changes the parsed statements apart from positions, nor whether the text is accepted.",
  ['inputs','configurations'],
  'For every text and every such rewriting of it, valid or invalid, under every dialect.',
  'Tests use one layout per statement and compare comment parsing with plain parsing only on a few texts.',
  [PAR,TOK],[('nextToken, nextTokenWithParseComment, prevToken, peekToken',PAR),('parseKeyword case folding',PAR),('MakeKeyword',TOK)],['ParseSQL / ParseFile results'])
p('P13','A delimited identifier is never taken for a keyword',
  "Wherever the grammar accepts a name, a delimited identifier is accepted and kept verbatim with its quotes, even if its text spells a keyword, an operator or a type name; and a delimited identifier is never accepted in the place of a keyword.",
  ['inputs','configurations'],
  'For every keyword, every position where a name or keyword occurs, and every quote style the dialect supports.',
  'One tokenizer test covers one quoted keyword; no parser test uses one.',
  [PAR,TOK],[('maskQuotedKeywords, parseKeyword',PAR),('MakeKeyword quote style',TOK)],['Parser results on texts with delimited identifiers'])
p('P14','Literals keep their exact value through parsing and printing',
  "The value of every literal in the tree equals the literal in the text: integers over the whole 64-bit range, decimals to the nearest double, strings and national strings character for character with doubled quotes undone, booleans and NULL; and printing it yields a literal of the same kind and value. "
  "A number that cannot be represented is rejected, never changed.",
  ['inputs'],
  'For every integer, decimal and string literal, in every place of the grammar that takes a literal or a count.',
  'Tests use small integers and plain ASCII strings.',
  [PAR,VAL,TOK],[('parseValue, parseLiteralInt',PAR),('LongValue, DoubleValue, SingleQuotedString, NationalStringLiteral',VAL),('tokenizeSingleQuotedString',TOK)],['value nodes of the tree and their printed form'])
p('P15','Node positions delimit exactly the text of the node',
  "For every node of a parsed tree that has text of its own, its start is the position of the first token it spells and its end the position just after its last one, so that a child's extent lies within its parent's and siblings appear in order.",
  ['inputs'],
  'For every node of every parsed statement, in every layout.',
  'Tests pin positions of a few trees in one-line layouts, and several of them pin unset positions.',
  [PAR,AST,QRY,STM,TYP,VAL,'sqlast/table_option.go'],[('Pos and End methods','sqlast/*.go'),('position fields filled by the parser',PAR)],['Node.Pos / Node.End'])
p('P16','A script parses to its statements, each as if alone',
  "Parsing a text of several statements separated by semicolons returns one statement per non-empty part, in order, each equal to what parsing that part alone returns up to positions; repeated, leading and trailing semicolons add nothing. "
  "If any part is not exactly one valid statement, the whole parse fails with an error; parsing a single statement from the text returns the statement it begins with, whatever follows the semicolon. A parsed file prints its statements in order, each on a line of its own.",
  ['inputs','histories'],
  'For every sequence of statements with any separators, comments and layout, parsed at once, as a file, or for its first statement.',
  'The tests parse a few files of two or three statements.',
  [PAR],[('ParseSQL, ParseFile, ParseStatement',PAR)],['ParseSQL / ParseFile results'])
p('P17','Every comment is reported once, in order, with its text and place',
  "With comment parsing on, a parsed file lists every comment of the text exactly once, in source order, with its exact text and extent. "
  "Comments that no other token separates form one group, unless they follow code on the same line, in which case the end of that line closes the group; with comment parsing off no comments are reported. A comment prints as its text, a group as its comments on lines of their own.",
  ['inputs'],
  'For every accepted text and every placement of line and block comments between its tokens, before the first and after the last.',
  'Tests place comments in a few fixed spots; parser backtracking re-reads comments in ways that depend on the grammar around them.',
  [PAR,'sqlast/comment.go'],[('nextTokenWithParseComment',PAR),('ParseFile comment collection',PAR)],['File.Comments'])
p('P18','The comment map assigns each comment to one fitting node',
  "Building the comment map of a parsed file assigns every comment group to exactly one node of that file, keeping the order of groups per node, and never fails. "
  "A comment group on lines of its own belongs to the outermost node starting at the statement or column definition below it if it stands directly above that, or between empty lines; if it stands directly below a statement and an empty line follows, or behind the last statement, it belongs to that statement or a part of it, as does one behind a statement on its last line. A group behind or directly below a column definition or table constraint that another one follows belongs likewise, before or after the comma.",
  ['inputs'],
  'For every file parsed with comments and every placement of comments.',
  'Tests build the map for a handful of fixed files.',
  ['sqlast/commentmap.go','sqlast/walk.go'],[('NewCommentMap',"sqlast/commentmap.go"),('nodeList order','sqlast/walk.go')],['CommentMap'])
p('P19','Walking a tree visits every node once, in source order',
  "Walking a tree calls the visitor exactly once for every node reachable from the root, parents before children and children in source order, followed by one closing nil call when all children of a node are done. "
  "Children of a node are visited with the visitor its visit returned, and a nil visitor or a false answer skips exactly that subtree; the tree itself is left unchanged.",
  ['inputs','programs'],
  'For every tree of parser-produced nodes and every choice of nodes to prune.',
  'Tests walk a few statements without looking at what is visited.',
  ['sqlast/walk.go'],[('Walk, Inspect','sqlast/walk.go')],['calls of Visitor.Visit'])
p('P20','Rewriting traversal reaches every node and respects its callbacks',
  "The rewriting traversal calls the pre callback before and the post callback after the children of every node reachable from the root, exactly once each, with the cursor naming the true parent, field and index of the node. "
  "A pre callback returning false skips the children and the post callback of that node only, a post callback returning false ends the traversal at once, a panic of a callback reaches the caller as it is, and callbacks that change nothing leave the tree unchanged. Callbacks may run traversals of their own.",
  ['inputs','programs','histories'],
  'For every tree of parser-produced nodes and every choice of callback answers.',
  'Tests rewrite one kind of node in a few statements.',
  ['sqlastutil/rewrite.go'],[('Apply, application.apply, applyList','sqlastutil/rewrite.go')],['calls of the callbacks, Cursor.Parent / Name / Index / Node'])
p('P21','Cursor edits change exactly the node they point at',
  "Replace, Delete, InsertBefore and InsertAfter on a cursor change exactly that place of the tree as the same edit on a list or field would, and leave all other nodes as they were. "
  "Nodes inserted or put in by a replacement are not visited, nodes that follow are each still visited once, and the tree printed afterwards reflects exactly the edits; deleting or inserting beside a node that is not in a list panics without changing the tree.",
  ['histories','programs','inputs'],
  'For every tree, every node and every sequence of edits made during one traversal.',
  'Two small tests replace one node; list edits and sequences of edits are not covered.',
  ['sqlastutil/rewrite.go'],[('Cursor.Replace, Delete, InsertBefore, InsertAfter','sqlastutil/rewrite.go')],['tree after Apply and order of callback calls'])
p('P22','Writing a tree reports exact byte counts and stops at write errors',
  "Writing any node to a writer produces exactly the bytes of its printed form and returns their number with no error, whether or not the writer also takes strings. "
  "If the writer fails after any number of bytes, exactly the bytes before the failure have been delivered, their number and that error are returned, and nothing more is written after the failure.",
  ['fault_sequences','inputs'],
  'For every node of every tree and every byte at which the writer can fail.',
  'The tests write into memory buffers that never fail.',
  [WRT,AST,QRY,STM,TYP,VAL,'sqlast/comment.go','sqlast/table_option.go','sqlast/operator.go'],[('sqlWriter',WRT),('WriteTo of every node','sqlast/*.go')],['WriteTo results and the bytes received'])
p('P23','Independent parsers can be used concurrently',
  "Any number of goroutines may tokenize, parse, print, walk and rewrite at the same time, each with its own parser and tree, sharing dialects and constants, and each gets exactly the result it would get alone; reading one tree from many goroutines is free of data races as well.",
  ['schedules','inputs'],
  'For every interleaving of goroutines that each use their own parser, and of readers of one tree.',
  'No test runs anything concurrently.',
  [TOK,PAR,'dialect/keywords.go',AST],[('keywordCache is only written at start-up',TOK),('no shared mutable state in Parser',PAR)],['race detector reports and results of concurrent runs'])
p('P24','Parsing is repeatable and trees are independent of one another',
  "Parsing the same text again, in the same or another process and whatever was parsed before or is parsed in turn with it, gives the same statements, comments or error message. "
  "Printing, walking or asking for positions never changes a tree, editing one tree never affects another parsed from the same text or tokens, and a parser never modifies the tokens it is handed.",
  ['histories','inputs'],
  'For every text and every history of earlier parses, failed parses and edits in the process.',
  'Each test parses each text once in a fresh parser.',
  [PAR,TOK],[('maskQuotedKeywords copies tokens',PAR),('keywordCache entries are shared',TOK),('ParseFile orders comments from a map',PAR)],['results of repeated parses, token slices before and after'])
p('P25','The astprinter command prints the parsed statement or an error',
  "Given a statement on standard input or in a file named with -f, the command exits 0, dumps its tree (where a list of more than 1000 items may be abbreviated) and prints the statement's SQL as the library prints it. "
  "For input that cannot be read, tokenized or parsed it exits non-zero with a message and without a stack trace.",
  ['inputs','configurations'],
  'For every input text, delivered by file or standard input.',
  'The command has no tests.',
  ['cmd/astprinter/main.go'],[('main','cmd/astprinter/main.go')],['exit status and output of the command'])
p('P26','The marker generator writes a valid, closed interface',
  "For every exported type name made of capitalised words (SQL counts as one) and every list of embedded interfaces, the marker generator writes one formatted Go file, named after the type in snake case unless a name is given, that compiles and declares an interface which only types embedding the generated marker struct, and having the embedded methods, satisfy. "
  "A missing or unexported type name is refused with a usage error, and a name whose private form is no Go identifier with an error; then no file is written. "
  "Regenerating the markers that the syntax tree package asks for reproduces the committed files.",
  ['inputs','configurations'],
  'For every type name, output name, package name and list of embedded interfaces.',
  'One unit test checks the snake-case conversion of a few names.',
  ['tools/genmark/main.go','sqlast/*_gen.go'],[('run, toSnake, toPrivate','tools/genmark/main.go')],['generated file and exit status'])
p('P27','A user-supplied dialect decides how names are spelled',
  "For any implementation of the dialect interface that takes the ASCII letters as names, an unquoted word is the longest run of characters that the dialect admits (its start, then its parts) and a delimited identifier is one that starts with a quote character the dialect names (a double quote, backtick or opening bracket) and runs to the matching close; everything else, keywords included, is tokenized as under the shipped dialects, and positions count characters of any script. "
  "Statements whose names are spelled as the dialect allows parse to exactly these names, and print and parse back to the same tree; the dialect's answer for the end of the input does not matter.",
  ['inputs','configurations','programs'],
  'For every dialect over letters and signs that mean nothing else in SQL, and every text.',
  'Tests use the three shipped dialects only, with ASCII names.',
  [TOK,'dialect/dialect.go',PAR],[('Tokenizer.next, tokenizeWord, matchingEndQuote',TOK),('Dialect','dialect/dialect.go')],['token streams and trees under dialects of the monitor'])
p('P28','Constructors, values and comparisons agree with what parsing gives',
  "Identifiers, object names, sizes, words and literals made by the exported constructors equal the nodes (or tokens) that parsing their written form gives, positions apart, and print alike; the Value of a literal node is exactly the Go value it stands for, and date and time literals print that value. Nodes that only programs build (COPY, the binary and large-object types, a partitioned join, groups of comments) print what their fields say. "
  "CompareWithoutMarker reports nothing for equal trees and something for any two trees that differ in a node, a field, a list or a position. "
  "ComparePos is the order by line, then column, and the names of token kinds, operators, window frame units and file formats are distinct and map back where they can be read.",
  ['inputs'],
  'For every name, value and size, every pair of trees and every pair of positions.',
  'Tests use a few constructors as a means to build expected trees; nothing compares them with parsed nodes over their whole range.',
  [VAL,AST,TYP,'testhelper.go',TOK,'sqltoken/kind_string.go'],[('NewXxx, Value',VAL),('NewObjectName, NewIdent',AST),('CompareWithoutMarker','testhelper.go'),('ComparePos, MakeKeyword',TOK)],['constructed and parsed nodes, results of the comparisons'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+'\n')
print(len(P),'properties')
