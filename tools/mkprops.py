#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the texts are easy to review).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

TK="sqltoken/tokenizer.go"; PA="parser.go"
p("C01","Result does not depend on how the source fragments its bytes",
 "For a given byte sequence and dialect, every way of consuming it (parsing a statement, a script, a file with comments, an expression or a data type; tokenizing at once; pulling tokens one by one) gives exactly the same tokens, positions, comments, syntax tree, rendered SQL and error, however the io.Reader splits the bytes over its reads: one byte at a time, inside a multi-byte rune or a multi-character token, zero-length reads, the last bytes together with io.EOF, or scratch data left in the unused part of the buffer. Pulling tokens one by one gives exactly the tokens that tokenizing at once gives.",
 ["inputs","fault_sequences"],"every input text, dialect, way of consuming, and every legal sequence of read sizes and end-of-file styles",
 "The tests feed every text through bytes.NewBufferString or an os.File in one read of a short text; no test crosses the 1024-byte scanner buffer at a chosen place or splits a token between reads.",
 [TK,PA],[("character-at-a-time scanning over text/scanner",TK+": Tokenizer.next, tokenizeWord, tokenizeSingleQuotedString, tokenizeMultilineComment"),("end and error of the source kept in one place",TK+": sourceReader"),("parser starts from the complete token list",PA+": NewParser")],
 ["Tokenizer.Tokenize","Tokenizer.NextToken","Tokenizer.Scan","NewParser and the Parse methods"])
p("C02","A failing source always surfaces as an error",
 "If the source fails with any error other than io.EOF, at any byte offset and with or without data in the same read, then parsing reports an error that matches the source's error under errors.Is, and returns no statement, expression, type or file for the part that was read. When tokens are pulled one by one, those delivered before the failure are exactly the first tokens of the complete text, never one that the failure cut short, and then the failure is reported.",
 ["inputs","fault_sequences"],"every input text, dialect and way of consuming, every failure offset from 0 to the very end, every error value (wrapped io.EOF, io.ErrUnexpectedEOF, EINTR, timeouts, custom types)",
 "No existing test uses a reader that fails.",
 [TK,PA],[("source error recorded by the reader wrapper and preferred to what was scanned",TK+": sourceReader, Tokenizer.sourceErr, Tokenizer.Scan"),("tokenizer errors wrapped by the parser",PA+": NewParser")],
 ["error of NewParser / Tokenize / NextToken / Scan","tokens delivered before it"])
p("C03","Truncated or corrupted input ends in exactly one clean outcome",
 "Whatever happened to the bytes on their way in (cut off at any point, bytes flipped, dropped, repeated, moved or replaced by garbage), and however long or deeply nested they are, every way of parsing or tokenizing them terminates within work and stack space bounded in the input length and yields exactly one of a result and an error: it never panics, never hangs, never exhausts the stack, never returns both or neither. Any tree it returns can be rendered, walked, rewritten, asked for the position of every node and given a comment map without panicking or hanging.",
 ["inputs","fault_sequences"],"every valid text of every supported statement kind, every cut offset and every sequence of byte-level corruptions, all dialects and all ways of consuming",
 "The tests parse a few hundred complete, valid texts and a handful of invalid ones; they never cut or corrupt them systematically.",
 [PA,TK,"sqlast/walk.go","sqlast/ast.go","sqlast/stmt.go","sqlast/commentmap.go","sqlastutil/rewrite.go"],[("panics while parsing reported as errors",PA+": recoverError in ParseStatement, ParseSQL, ParseFile, ParseExpr, ParseDataType"),("end-of-text tests in every scanning loop",TK+": next and its helpers"),("optional children skipped",  "sqlast/walk.go: Walk; sqlastutil/rewrite.go: Apply")],
 ["NewParser and the Parse methods","Tokenizer methods","Node.WriteTo, Walk, Inspect, Apply on the result"])
p("C04","A finished statement is not affected by what comes after it",
 "Once the terminating semicolon of a statement has been supplied, the tree parsed for it is the same whatever follows: the stream ending there, ending at any later point, or continuing with any other text. The same holds for tokens: every token that ends before the point where the stream is cut is delivered identically.",
 ["inputs","crash_points"],"every script of supported statements, every later cut point and every continuation that can be tokenized",
 "The tests parse fixed scripts to their end only; none compares a script with its prefixes.",
 [PA,TK],[("bounded lookahead of tokenizer and parser",TK+": next; "+PA+": peekToken, prevToken"),("statement loop",PA+": ParseSQL, ParseStatement")],
 ["Parser.ParseStatement","Parser.ParseSQL","Tokenizer.NextToken"])
p("C05","The end of a stream is final",
 "Once a token pull has reported the end of the source, or that the source failed, every later pull on that tokenizer reports the same again and delivers no token, and the source is not read again, even if it has more to give by then. Once a parser has consumed all its statements, every further attempt to parse one reports the end of input and parsing the remaining script yields nothing.",
 ["histories","fault_sequences"],"every input, every kind of end (io.EOF with or without data, any failure), every number and mix of later calls, and sources that come back to life after their end",
 "No test calls the tokenizer or the parser again after the end, and no test source ever supplies data after its end.",
 [TK,PA],[("sticky end of source",TK+": sourceReader"),("end of token list",PA+": nextTokenNoSkip, EOF")],
 ["Tokenizer.NextToken / Scan / Tokenize after the end","calls to the io.Reader","Parser.ParseStatement / ParseSQL after the end"])
p("C06","A failing sink is reported exactly and at once",
 "When the io.Writer given to WriteTo fails at any point, WriteTo returns that error and a count equal to the bytes the writer accepted, those bytes are a prefix of the complete rendering, and the writer is not called again after it failed. When it does not fail, the count equals the length of the rendering.",
 ["inputs","fault_sequences"],"every kind of syntax tree node with every combination of optional parts, every failure offset, short and full counts, writers with and without WriteString, any error value",
 "Tests only render into memory, which never fails.",
 ["sqlast/writer.go","sqlast/ast.go","sqlast/query.go","sqlast/stmt.go","sqlast/type.go","sqlast/value.go","sqlast/table_option.go"],[("first error latched, bytes counted","sqlast/writer.go: sqlWriter"),("one WriteTo per node type","sqlast/*.go")],
 ["Node.WriteTo's count and error","the sequence of Write and WriteString calls"])
p("C07","Rendering does not depend on the sink and can be repeated",
 "Rendering a tree gives the same bytes into every kind of writer (with or without WriteString, buffered, piped, failing midway up to the failure) and as a string, and leaves the tree unchanged. After a rendering that failed or was cut short by a panic of the writer, rendering the same tree again gives the complete text.",
 ["inputs","fault_sequences","histories"],"every kind of node, every kind of sink, every failure or panic point, any number of repeated attempts",
 "Tests render each tree once into one kind of sink that cannot fail.",
 ["sqlast/writer.go","sqlast/ast.go","sqlast/query.go","sqlast/stmt.go"],[("per-call writer state","sqlast/writer.go: newSQLWriter"),("separate path for io.StringWriter","sqlast/writer.go: Idents; sqlast/ast.go: Ident.WriteStringTo")],
 ["bytes received by the sink","ToSQLString","the tree before and after"])
p("C08","Concurrent sessions do not influence each other",
 "Parsing, tokenizing, rendering, walking and rewriting sessions that run concurrently, each on its own inputs and trees, give exactly the results they give when run alone, under every interleaving. This also holds when other sessions fail, stall, or panic or exit their goroutine inside the caller's own code (source, sink, visitor or callback) at any point.",
 ["schedules","fault_sequences"],"every interleaving at statement granularity of up to four sessions of every kind, with failing sources and sinks and sessions ended inside any call of the caller's code",
 "All tests are sequential.",
 [PA,TK,"sqlast/writer.go","sqlastutil/rewrite.go","dialect/keyword.go"],[("all mutable state per Parser, Tokenizer, writer or application",PA+": Parser; "+TK+": Tokenizer; sqlast/writer.go: sqlWriter; sqlastutil/rewrite.go: application"),("package-level tables only read after init",TK+": keywordCache; dialect/*.go; sqlast/writer.go byte slices")],
 ["result and error of every session"],[("keywordCache","shared keyword values",TK)])
p("C09","A tree or token list may be shared by concurrent readers",
 "Any number of concurrent readers of one syntax tree (rendering it, walking it, asking positions, building a comment map) and any number of parsers given one token list obtain what each obtains alone, under every interleaving and also when some readers abort, panic or exit inside their own sink or visitor midway. The shared tree and the token list are left unchanged.",
 ["schedules","fault_sequences"],"every interleaving of up to four readers of one tree, or parsers of one token slice, with aborting, failing and exiting readers",
 "All tests are sequential and none shares a tree or a token list.",
 ["sqlast/ast.go","sqlast/query.go","sqlast/stmt.go","sqlast/walk.go","sqlast/commentmap.go",PA],[("rendering, walking and positions only read the nodes","sqlast/*.go"),("comment map works on a copy of the list","sqlast/commentmap.go: NewCommentMap"),("parser only reads the tokens given to it",PA+": SetTokens, nextTokenNoSkip")],
 ["results of each reader","the shared tree and tokens before and after"])
p("C10","No data races between independent or read-only uses",
 "Concurrent use of separate parsers, tokenizers, renderings, walks and rewrites, and concurrent read-only use of one tree or token list, never makes two goroutines access the same memory without synchronisation where one of them writes.",
 ["schedules"],"every interleaving of up to four concurrent sessions or readers of every kind",
 "No test runs anything concurrently, so the race detector has nothing to see.",
 [PA,TK,"sqlast/writer.go","sqlast/walk.go","sqlastutil/rewrite.go","dialect/keyword.go"],[("no shared mutable state outside init","all packages")],
 ["happens-before relation over the memory accesses of each run"])
p("C11","Results do not depend on map order, hash seeds or garbage collection",
 "The same bytes, dialect and options always give the same tokens, syntax tree, comment list and order, comment map, rendering and error, whatever iteration order and hash seeds the runtime picks for maps and whenever the garbage collector runs.",
 ["inputs","schedules"],"every input and way of consuming, every map iteration order, hash seed and garbage collection point",
 "The runtime randomises map order, but a test runs each input under one or a few orders and inputs with at most a few comments.",
 [PA,"sqlast/commentmap.go",TK,"dialect/keyword.go"],[("comments collected from a map are sorted by position",PA+": ParseFile"),("keyword table filled from a map without depending on order",TK+": init")],
 ["all results of a session, canonically printed"],[("Parser.comments","comment groups by position",PA)])
p("C12","No residue: earlier sessions never change later ones",
 "What a session returns depends only on its own input and options: after any history of earlier sessions in the same process, successful, failed, aborted, panicking in caller code or abandoned halfway, it returns exactly what it returns as the first thing a fresh process does.",
 ["histories","fault_sequences"],"every history of up to a dozen sessions of every kind with injected failures, followed by every kind of probe session",
 "Each test checks its own case; none compares a call after a chosen history with the same call in a fresh process.",
 [PA,TK,"sqlast/writer.go","sqlastutil/rewrite.go"],[("no package-level state written after init","all packages"),("shared keyword values never written",TK+": MakeKeyword"),("abort sentinel carries no state","sqlastutil/rewrite.go: Apply")],
 ["result of the probe session compared with the same session alone in a new process"],[("keywordCache","shared keyword values",TK)])
p("C13","Walks visit everything, stop where told and leave nothing behind",
 "Walk and Inspect visit every node of the tree exactly once, a parent before its children, except that they visit nothing below a node for which the visitor returned nil or false (and still everything else in the usual order), and close every node they entered with exactly one nil visit; everything below a node, and its closing, goes to the visitor that was returned for it. A panic or goroutine exit of the visitor ends the walk at once with the same panic value and no further visit; the tree is unchanged and a new walk of it is complete.",
 ["inputs","fault_sequences","histories"],"every tree, every set of pruned nodes, every visit at which the visitor panics or exits, and any sequence of such walks, nested or not",
 "The only tests walk a few trees to the end with a visitor that never stops, prunes or fails.",
 ["sqlast/walk.go"],[("visitor result tested before descending","sqlast/walk.go: Walk"),("closing nil visit","sqlast/walk.go: Walk")],
 ["sequence of visits","panic value","tree before and after"])
p("C14","Rewrites stop where told, keeping exactly the edits made so far",
 "Apply presents every node of the tree in one pre call before its children and one post call after them, except that it skips the children and the post call of a node whose pre call returned false and nothing else; when a post call returns false it makes no further call, keeps the edits made so far and returns the (possibly replaced) root. A panic or goroutine exit of a callback ends the traversal at once, unchanged in value; a nested Apply stopped in any of these ways does not disturb the one around it.",
 ["inputs","fault_sequences","histories"],"every tree, every call at which a callback stops, skips, panics or exits, nested applications inside callbacks",
 "The tests run four rewrites to the end and never stop, skip or fail one.",
 ["sqlastutil/rewrite.go"],[("private sentinel panic recovered only by Apply","sqlastutil/rewrite.go: Apply, abort"),("cursor saved and restored around each node","sqlastutil/rewrite.go: application.apply")],
 ["sequence of pre and post calls with node, parent, name and index","returned root","tree afterwards"])
p("C15","Edits during a rewrite neither lose nor repeat nodes",
 "However Replace, Delete, InsertBefore and InsertAfter are mixed in pre and post calls during an Apply, also one that is cut short, every element originally in a list is presented exactly once and in order, no inserted or replacing node is presented, and the tree afterwards is exactly what applying the same edits to plain lists gives. Every node presented can be replaced in the field the cursor names, and the cursor always names the field and index where the node is.",
 ["inputs","histories"],"every tree, every sequence of legal cursor edits interleaved with the traversal, with the traversal stopped at any point",
 "The tests perform four fixed single edits.",
 ["sqlastutil/rewrite.go"],[("list index and step adjusted by each edit","sqlastutil/rewrite.go: Cursor.Delete, InsertAfter, InsertBefore, applyList"),("field looked up by name","sqlastutil/rewrite.go: Cursor.field")],
 ["nodes presented","tree afterwards compared with a list model"])
p("C16","Piping a rendering into a parser is loss-free and never deadlocks",
 "When one goroutine renders statements into a bounded pipe while another tokenizes or parses from it, the consumer obtains exactly what it would obtain from the complete text, under every interleaving and pipe capacity. When either end fails, closes or dies in any of its calls on the pipe, both ends finish in bounded time, the other end reports that error, and no statement is produced from the partial text.",
 ["schedules","fault_sequences"],"every list of statements, pipe capacity from one byte up, interleaving, and failure of either end at every offset",
 "No test connects rendering and parsing concurrently.",
 ["sqlast/writer.go",TK,PA],[("write errors latched and returned","sqlast/writer.go: sqlWriter"),("read errors returned",TK+": sourceReader, sourceErr")],
 ["results and errors of both ends","blocked goroutines at the end"])
p("C17","Caller code may call back into the library at any point",
 "A source, sink, dialect, visitor or rewrite callback may itself parse, tokenize, render, walk or rewrite other inputs and trees while the library is calling it, to any depth; both the outer and the inner operations give exactly the results they give alone, and none of them blocks.",
 ["schedules","histories"],"every pair and nesting of operations and every callback invocation at which the inner operation is started",
 "The tests pass plain readers and visitors that never call the library.",
 [TK,PA,"sqlast/writer.go","sqlast/walk.go","sqlastutil/rewrite.go"],[("no locks and no package-level scratch state","all packages")],
 ["results of outer and inner operations"])
p("C18","The library has no ambient side effects, whatever fails",
 "Whatever input, source, sink or callback it is given and however that fails, the library writes nothing to the process's standard output, standard error or log (apart from the log line that announces a panic on misuse of the API, such as traversing a node type that traversals do not know), does not exit the process, leaves no goroutine and no open file behind when a call returns, creates no file, and changes no state that the process shares (environment, working directory, log settings, time zone, processor count, garbage collector settings, exported tables such as dialect.Keywords).",
 ["inputs","fault_sequences"],"every kind of session, every input including malformed ones, and every injected failure",
 "Tests do not look at standard output or at goroutines, and exercise few failures.",
 [PA,TK,"sqlast/walk.go"],[("errors returned, not printed",PA+": expectKeyword, expectToken, recoverError"),("scanner given an error handler",TK+": NewTokenizer")],
 ["file descriptors 1 and 2, log output, number of goroutines, process exit, shared state of the process"])
p("C19","Results belong to the caller alone",
 "The trees, comments and comment maps returned by the calls of one session (one parser) share no memory that anyone writes with the results of any other session: a caller may change every part of what it got, at any moment while other sessions run and before or after later ones, without changing any result of theirs, and its own results do not change after they were returned.",
 ["histories","schedules"],"every pair and sequence of sessions, every moment at which one result is overwritten",
 "No test modifies a result and then looks at another, or looks at a result again after later calls.",
 [PA,"sqlast/ast.go"],[("nodes allocated per parse",PA+": all parse methods"),("values copied out of tokens",PA+": Ident values are strings")],
 ["results of other sessions, and the same result later"])
p("C20","Pulling tokens is incremental",
 "Pulling tokens from a source that is still being written delivers each token as soon as the source has supplied it and at most two more characters: it never waits for the rest of the text, so a source that stalls or is cut off later cannot delay or withhold earlier tokens. Pulling a token never discards or skips input that a later pull needs.",
 ["inputs","schedules","crash_points"],"every input, read fragmentation and every offset at which the source stalls",
 "Test sources are complete in memory and never stall.",
 [TK],[("one character of lookahead",TK+": Tokenizer.next over text/scanner Peek and Next")],
 ["tokens delivered before the source stalls"])
p("C21","Caller panics come back unchanged",
 "If the caller's own code (source, dialect, sink, visitor or rewrite callback) panics or exits its goroutine at any invocation, the panic reaches the caller of the library with the identical value, is never swallowed, replaced or turned into a result or an error, and no further caller code is invoked by that call.",
 ["fault_sequences","histories"],"every entry point that takes caller code, every invocation at which it panics, every panic value including error values, runtime errors, nil-like and comparable ones",
 "No test passes code that panics.",
 [TK,"sqlast/writer.go","sqlast/walk.go","sqlastutil/rewrite.go",PA],[("tokenizing happens outside the methods that turn panics into errors",PA+": NewParser, recoverError"),("only the private sentinel is recovered","sqlastutil/rewrite.go: Apply")],
 ["panic value seen by the caller","callback invocations after the panic"])

p("C22","Every operation sees the tree as it is now",
 "After any history of edits to a tree (assigning any field of any node, editing lists, or through a rewrite) mixed with renderings, walks, rewrites, position queries and comment maps, complete, failed or cut short, every such operation gives exactly what it gives on a fresh copy of the tree in its current state. Edits that a visitor or a pre callback makes to the node it is being shown take part in the rest of that traversal.",
 ["histories","fault_sequences"],"every tree, every history of edits and observations, observations failing or aborted at any point, edits made from inside a callback",
 "The tests render or walk a tree once after parsing or building it and never edit it between two operations, except for four fixed rewrites.",
 ["sqlast/ast.go","sqlast/query.go","sqlast/stmt.go","sqlast/walk.go","sqlast/commentmap.go","sqlastutil/rewrite.go"],[("nothing cached in nodes","sqlast/*.go"),("children read after the callback returned","sqlast/walk.go: Walk; sqlastutil/rewrite.go: application.apply, applyList")],
 ["WriteTo, ToSQLString, Walk, Inspect, Apply, Pos, End, NewCommentMap after edits"])
p("C23","Cost grows in proportion to the input",
 "The work and memory for tokenizing, parsing, rendering, walking and rewriting grow in proportion to the input length (up to a logarithmic factor), for every construct that can be repeated or nested, however the source delivers the bytes and however the sink takes them, also when the source fails on the way; the same holds for the number of reads and writes.",
 ["inputs","fault_sequences"],"every repeatable or nestable construct at growing lengths, every read fragmentation, every failure point, every kind of sink",
 "The tests use texts of a few lines, where no growth shows.",
 [TK,PA,"sqlast/writer.go","sqlast/ast.go","sqlast/commentmap.go"],[("one pass over the characters",TK+": Tokenizer.next"),("one pass over the tokens with bounded backtracking",PA+": nextToken, prevToken"),("writers write each part once","sqlast/writer.go: sqlWriter")],
 ["executed library statements, calls of the source and sink, allocated bytes, as functions of the length"])

p("C24","Sources and sinks are taken as they stand and stay the caller's",
 "The library consumes a source from where it stands to its end and appends to what a sink already holds, whatever their types (own ones with any set of further methods, files, buffers, readers and writers of the standard library, partly used before). It does nothing else to them, however the call ends: it never closes, seeks, flushes, rewinds, resets or truncates them, never uses them after the call returned or twice at a time, and never changes bytes that the caller holds.",
 ["inputs","histories","fault_sequences"],"every type and state of source and sink, every operation on them, every failure, panic or exit of the caller's code during it",
 "The tests read from fresh string readers and write to fresh builders and buffers only, and never look at them again.",
 [TK,PA,"sqlast/writer.go","sqlast/ast.go"],[("the source is only read",TK+": NewTokenizer, sourceReader"),("the sink is only written","sqlast/writer.go: sqlWriter")],
 ["state of the caller's source and sink after the call","calls of their other methods"])

p("C25","Results do not depend on clock, environment or calling context",
 "What any operation returns or calls depends on its arguments only. It is the same whatever the clock shows and however it jumps or stands still between any two steps, whether timers fire early or never, in whatever time zone and locale, with whatever environment variables, working directory, processor count, number of goroutines and memory use, in whatever process, and wherever the caller stands: deep in its stack, in a deferred call while it panics, beside any number of other goroutines. In particular no operation gives up, degrades or expires because time has passed.",
 ["configurations","fault_sequences","inputs"],"every operation and input, every sequence of clock readings and timer expiries, every answer of the environment, every calling context",
 "The tests run in one environment, quickly, from a shallow stack, and no clock ever jumps while they do.",
 [PA,TK,"sqlast/writer.go","sqlast/value.go","sqlast/walk.go","sqlastutil/rewrite.go"],[("no use of clock, timers or environment","all packages"),("times rendered in their own zone","sqlast/value.go: DateValue, TimeValue, DateTimeValue, TimestampValue"),("panics recovered only where they were raised",PA+": recoverError; sqlastutil/rewrite.go: Apply")],
 ["results, errors and callback invocations under different surroundings"])

# ---- pure functions of the input: stated, not claimed
p("C30","Rendering a parsed statement parses back to the same statement",
 "For every supported statement, the SQL rendered from its tree parses, and gives the same tree apart from positions, so that rendering it again gives the same text.",
 ["inputs"],"every statement of every supported kind","Tests round-trip fixed texts only.",
 [PA,"sqlast/ast.go","sqlast/query.go","sqlast/stmt.go","sqlast/type.go"],[("ToSQLString per node","sqlast/*.go")],["ToSQLString, ParseSQL"])
p("C31","Operator precedence and associativity follow the documented table",
 "Every expression is grouped by the documented precedence of its operators, left-associatively, and parentheses are kept.",
 ["inputs"],"every expression","Tests fix a few operator pairs.",[PA],[("precedence climbing",PA+": parseSubexpr, getPrecedence")],["ParseExpr"])
p("C32","Token and node positions locate their text",
 "The start and end position of every token and node are the line and column of its text, siblings do not overlap and children lie within their parents.",
 ["inputs"],"every text","Tests compare fixed positions.",[TK,"sqlast/ast.go"],[("line and column counters",TK+": next")],["Token.From/To, Node.Pos/End"])
p("C33","Every comment is reported exactly once and attached to the nearest node",
 "With comment parsing on, every comment of the source is in exactly one comment group of the file, and the comment map attaches each group to the node it documents.",
 ["inputs"],"every text with comments","Tests fix a few layouts.",[PA,"sqlast/commentmap.go"],[("comment groups",PA+": nextTokenWithParseComment"),("association","sqlast/commentmap.go: NewCommentMap")],["File.Comments, NewCommentMap"])
p("C34","Dialects decide identifiers and quoting",
 "Each dialect accepts exactly its own identifier characters and quote characters, and delimited identifiers keep their text and quote style.",
 ["inputs","configurations"],"every text and dialect","Tests cover a few identifiers per dialect.",["dialect/dialect.go","dialect/generic.go","dialect/mysql.go","dialect/postgresql.go",TK],[("dialect predicates","dialect/*.go")],["Tokenize"])
p("C36","Keywords are recognised in any letter case",
 "A keyword is recognised whatever the case of its letters, keeps its spelling as a value, and is never recognised inside quotes.",
 ["inputs"],"every keyword and casing","Tests use few casings.",[TK,"dialect/keyword.go"],[("keyword lookup",TK+": MakeKeyword")],["MakeKeyword, Tokenize"])
p("C37","Literals keep their value",
 "String, national string, integer, decimal and boolean literals are represented by exactly the value written and rendered so that they read back as that value, or rejected if they cannot be represented.",
 ["inputs"],"every literal","Tests use small literals.",[PA,"sqlast/value.go"],[("literal conversion",PA+": parseValue")],["ParseExpr, ToSQLString"])
p("C38","Statements are accepted with every documented combination of clauses",
 "Every combination of the optional clauses of the supported statements, types, joins, constraints and window frames is accepted and represented in the tree, and nothing that was written is dropped.",
 ["inputs"],"every statement of the supported grammar","Tests sample some combinations.",[PA],[("recursive descent",PA)],["ParseSQL"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), [ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
