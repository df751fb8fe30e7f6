import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p("C01","Filter verdict equals the boolean meaning of the expression",
 "For every expression built from comparisons, existence tests, AND, OR and NOT over nested fields and array elements, and every well-formed JSON document, matching returns exactly the value of that boolean formula over the document's fields. A comparison on a field the document does not have counts as false (so its negation is true); a field holding null, an empty array or an empty object exists. The order of the document's members and the point at which matching stops early never change the verdict.",
 ["programs","inputs"],"every expression and every JSON document",
 "The tests check a few dozen hand-written expression/document pairs; the compiler flattens expressions into a tree and a scan plan, and mistakes show only for particular combinations of shape, missing fields and member order.",
 ["transform.go","fastMatcher.go","bintree.go","fastMatcherDef.go"],
 [("Transformer: expression to exec tree + binary tree","transform.go:Transform"),("single pass scan with early exit","fastMatcher.go:matchExec"),("final resolution of unmarked conditions","bintree.go:Resolve")],
 ["FastMatcher.Match"])
p("C02","The verdict does not depend on how the document is written",
 "Rewriting a document into an equivalent JSON text - different whitespace, different member order, escaped spellings of keys or string values, extra members the expression does not mention, with any nested content - never changes the verdict, the per-expression results or the error of matching it.",
 ["inputs","programs"],"every document, every equivalent rewriting of it, every expression",
 "Tests match each document in one layout; skipping of irrelevant values, offset bookkeeping for saved values and key decoding depend on layout.",
 ["fastMatcher.go","jsontokenizer.go","fastlitparse.go","fastlitescape.go"],
 [("skipping of values with no interest","fastMatcher.go:skipValue/leaveValue"),("key decoding","fastlitparse.go:ParseEscStringWLen"),("value slots by offset","fastMatcher.go:literalFromSlot")],
 ["FastMatcher.Match","FastMatcher.ExpressionMatched"])
p("C03","ANY, EVERY and ANY AND EVERY quantify exactly over the array",
 "ANY is true iff some element satisfies the body; EVERY iff the array is present and no element fails it (true on an empty array); ANY AND EVERY iff the array is non-empty and no element fails it; a missing or non-array target makes all three false. This holds for every body, including negations, several loops over one array, loops nested in loops, bodies that use the enclosing loop variable or document fields, one variable used by several loops (it means the innermost loop around that introduces it), and regardless of what earlier elements contained.",
 ["programs","inputs"],"every loop expression (nested to any depth) and every document",
 "Tests use a handful of loops over people documents; the loop reuses one piece of result state for all elements, so leaks between iterations or between loops need specific element sequences.",
 ["fastMatcher.go","bintree.go","transform.go"],
 [("loop execution with stalled propagation and per-iteration reset","fastMatcher.go:matchLoop"),("subtree reset","bintree.go:ResetNode"),("loop compilation and context stack","transform.go:transformLoop")],
 ["FastMatcher.Match"])
p("C04","Conditions over several fields see exactly those fields' values",
 "A condition relating several parts of the document (field to field, nested field to its own ancestor, arithmetic over several fields, fields of different loop variables) is evaluated on the values those fields have in this very document and loop iteration, whatever order they appear in. If one of the fields is absent the condition is false; a value from elsewhere in the document, an earlier element or an earlier document is never used instead.",
 ["inputs","programs","histories"],"every multi-field condition, every document and member order, every earlier match",
 "Only a few such conditions are tested on complete documents; saved offsets become stale or default to the document start only when a field is absent.",
 ["fastMatcher.go","transform.go"],
 [("value slots","fastMatcher.go:literalFromSlot"),("deferred evaluation","fastMatcher.go:matchAfter"),("choice of the node to defer to","transform.go:findFieldRefsBestRoot")],
 ["FastMatcher.Match"],[("slots","offset and size of saved values","fastMatcher.go:FastMatcher.slots")])
p("C05","A reset matcher behaves like a new one",
 "After Reset, matching a document gives the same verdict, status flags, error and per-expression results as a freshly created matcher, no matter which documents - matching, non-matching, empty, malformed - were processed before.",
 ["histories","inputs"],"every sequence of Reset/Match calls on one matcher, every expression",
 "Tests reuse a matcher over similar documents only and never compare with a fresh one, never look at the status flag and never reuse after an error.",
 ["fastMatcher.go","bintree.go"],
 [("Reset of slots, buckets and flags","fastMatcher.go:Reset"),("Reset of result state incl. stall index","bintree.go:Reset")],
 ["FastMatcher.Match","FastMatcher.MatchWithStatus","FastMatcher.ExpressionMatched"])
p("C06","Each of several merged expressions gets its own verdict",
 "When several expressions are compiled together, after matching a document the reported result of each expression equals what compiling and matching it alone reports, independent of the other expressions, their number, order or duplication; constant true and false expressions are reported as such. The combined verdict is true iff at least one of them matched.",
 ["programs","inputs"],"every list of expressions and every document",
 "One test merges two expressions on one data set; early termination and shared exec nodes make expressions interfere only in particular combinations.",
 ["transform.go","fastMatcher.go","bintree.go"],
 [("merge node that waits for all sides","bintree.go:checkNode (neor)"),("bucket assignment","transform.go:transformMergePiece")],
 ["FastMatcher.ExpressionMatched","FastMatcher.Match"])
p("C07","Matchers used concurrently do not influence each other",
 "Matchers that are each used by one goroutine - including several created from the same compiled definition - and concurrent compilation and parsing of expressions give, under every interleaving, exactly the results they give when run alone, without data races.",
 ["schedules"],"every interleaving of goroutines each using its own matcher, compiler or parser",
 "No test is concurrent; shared scratch memory corrupts results only under particular preemptions.",
 ["fastval.go","fastMatcher.go","transform.go","fastlitparse.go","filterExprParser.go"],
 [("all mutable match state lives in the matcher","fastMatcher.go:FastMatcher"),("scratch buffers","fastval.go:toJsonStringInternal, fastlitparse.go:fastLitParser")],
 ["FastMatcher.Match","Transformer.Transform","NewFilterExpressionParser","ParseSimpleExpression"],
 [("conversion scratch buffer","number-to-text conversion buffer","fastval.go")])
p("C08","Condition results combine the same way in every arrival order",
 "For every tree of AND, OR, NOT and merge nodes, the final result depends only on the truth values given to the conditions, never on the order in which they arrive; a node is decided early only when every completion of the remaining conditions gives that same result, AND/OR/NOT are decided as soon as that is the case, and conditions that never arrive count as false. Resetting the state, or one subtree of it, restores it exactly to undecided.",
 ["histories","programs"],"every tree, every order and subset of condition results, every reset point",
 "The unit tests drive one tree through a few orders.",
 ["bintree.go"],
 [("propagation to parents","bintree.go:MarkNode/checkNode"),("default resolution","bintree.go:Resolve"),("reset","bintree.go:Reset/ResetNode")],
 ["binTreeState"])
p("C09","Comparisons between values of any types are consistent",
 "For any two compared values, flipping the operands flips the ordering, != is the exact negation of =, and <= (>=) is exactly < (>) or = whenever the values are comparable; values of the same type are totally ordered. Values that have no common type - after a boolean is compared with a number by its truth, an integer constant with a string that spells an integer by value, a string constant with a number by its text, and a date with a document's string that spells a date by time - are never equal and are ordered by type (null, booleans, numbers, strings, dates, arrays, objects). The status flag reports that collation was used iff a comparison of values without a common type was performed since the matcher was created or reset.",
 ["inputs","programs"],"every pair of JSON values and constants, every comparison operator",
 "Tests look at individual pairs; laws over all pairs of types, literal spellings and sides of the operator are never checked.",
 ["fastval.go","fastMatcher.go"],
 [("compare dispatch","fastval.go:Compare/compareUserDefined"),("implicit conversions","fastval.go:ImplicitConvTable, checkCompatibility"),("status flag","fastMatcher.go:matchOp")],
 ["FastMatcher.MatchWithStatus"])
p("C10","Numbers compare by their numeric value",
 "Comparing two integers, from the document or from the expression, signed or unsigned and of any size a 64-bit integer can hold, gives their exact mathematical order; if either side is a fractional or exponent number the comparison is that of the two values as double-precision numbers, values closer than one ten-millionth being equal. Integers too large for 64 bits are treated as floating-point numbers, not as some other value.",
 ["inputs"],"every pair of JSON number literals and numeric constants, every operator",
 "Tests use small numbers and a few extremes; conversions between int, uint and float have boundaries at 2^53, 2^63 and 2^64.",
 ["fastlitparse.go","fastval.go","jsontokenizer.go"],
 [("number parsing","fastlitparse.go:ParseInt/ParseNumber"),("numeric comparison","fastval.go:compareNumerics")],
 ["FastMatcher.Match"])
p("C11","Arithmetic and math functions compute the mathematical result",
 "Addition, subtraction, multiplication, division (truncating for integers), modulo of integers and negation give the exact integer result whenever operands and result are 64-bit integers, and the double-precision result when a fraction is involved; each math function gives its standard double-precision value (exact for ABS, CEIL, FLOOR and ROUND, which rounds halves away from zero). Invalid cases such as integer division by zero or non-numeric operands give a result that equals nothing and is greater than nothing; a missing operand makes the condition false. No operand values can crash matching.",
 ["inputs","programs"],"every function, every combination of operand values and representations",
 "Tests evaluate each function once or twice with ordinary operands.",
 ["fastval_math.go","fastMatcher.go"],
 [("operator implementations","fastval_math.go"),("dispatch","fastMatcher.go:resolveFunc")],
 ["FastMatcher.Match","FastValMath*"])
p("C12","Strings are compared by content, not spelling",
 "A document string equals a constant or another document string iff their decoded characters are the same, however each character is written in the JSON text (raw, short escape, \\u escape in either case, surrogate pair) and whatever the length; strings order by their decoded bytes. Field names are matched by the same rule.",
 ["inputs"],"every string, every JSON spelling of it, every position in key or value",
 "Tests contain a handful of escaped strings; ordering of strings with special characters and long escaped strings are not covered.",
 ["fastlitescape.go","fastlitparse.go","fastval.go","transform.go"],
 [("unescaping","fastlitescape.go:unescapeJsonString"),("string comparison","fastval.go:compareStrings")],
 ["FastMatcher.Match"])
p("C13","The tokenizer recognises exactly the JSON lexical grammar",
 "For every byte sequence the tokenizer splits it into exactly the JSON tokens it contains, with the right kind, text and position, reports the end at the end, and reports an error exactly where the bytes stop being JSON tokens. Seeking back to an earlier token start and stepping again yields the same tokens.",
 ["inputs","histories"],"every byte sequence and every seek position",
 "Tests feed a few dozen inputs; the scanner is a 28-state machine with end-of-input cases in every state.",
 ["jsontokenizer.go"],
 [("state machine","jsontokenizer.go:Step"),("position handling","jsontokenizer.go:Seek/Position")],
 ["jsonTokenizer.Step"])
p("C14","No document can crash or hang matching",
 "Matching any byte sequence - truncated, corrupted or not JSON at all - against any expression terminates without a panic and either returns a verdict or an error; a well-formed document never yields an error, and a document that breaks off before the verdict is settled always does. After Reset the matcher works normally again.",
 ["inputs","fault_sequences"],"every byte sequence, every truncation and corruption point, every expression",
 "No test matches a malformed document.",
 ["fastMatcher.go","jsontokenizer.go","fastlitparse.go","fastlitescape.go"],
 [("error paths while scanning","fastMatcher.go:matchExec/matchObjectOrArray/leaveValue/skipValue")],
 ["FastMatcher.Match"])
p("C15","Filter text means what its grammar says",
 "A filter text is interpreted with AND binding tighter than OR, NOT (before a condition) tighter than AND, parentheses around AND/OR formulas overriding both, * / % tighter than + and - and both from left to right, all spellings of an operator being equivalent, field paths, quoted names, array indexes, literals, constants and functions denoting what they spell, and TRUE and FALSE being constants. The resulting matcher therefore gives the verdict of that formula on every document, independent of spacing, comments and redundant parentheses.",
 ["programs","inputs"],"every filter text of the grammar and every document",
 "Tests parse a few dozen texts and mostly inspect the parse tree, not verdicts over documents.",
 ["filterExprParser.go","transform.go"],
 [("grammar","filterExprParser.go struct tags"),("output","filterExprParser.go:OutputExpression")],
 ["GetFilterExpressionMatcher"])
p("C16","No filter text can crash or hang the filter parser",
 "For every input text the filter parser terminates and returns either an error or an expression; whatever it accepts can be compiled and matched against any document without a panic.",
 ["inputs","programs"],"every text",
 "Tests contain a few invalid texts.",
 ["filterExprParser.go","transform.go","fastMatcher.go"],
 [("parser wrapper","filterExprParser.go:parserWrapper"),("error propagation","filterExprParser.go:OutputExpression")],
 ["NewFilterExpressionParser","GetFilterExpressionMatcher"])
p("C17","The simple parser builds the formula its text spells",
 "For every text made of comparisons and checks of fields (==, =, !=, <, <=, >, >=, LIKE, =~, EXISTS, IS [NOT] NULL, IS MISSING) joined by && / AND and || / OR, the simple parser returns an expression with exactly those conditions, combined from left to right with AND and OR of equal precedence and parentheses grouping, whatever the spacing and whatever the quoted names and values contain; a text without parentheses whose parts are separated by blanks is always accepted. Every other text is either given its evident meaning or refused with an error - no part of a text is silently dropped or misread - and no text makes the parser crash or hang.",
 ["programs","inputs"],"every text of the simple language",
 "The tests list about a hundred texts with their parse trees.",
 ["simpleParser.go","bintree.go"],
 [("token and context machine","simpleParser.go:parse"),("output","simpleParser.go:outputExpression")],
 ["ParseSimpleExpression"])
p("C18","The JSON form of an expression is read faithfully",
 "Every well-formed JSON expression array is read into exactly the expression it spells - operator, operand order, field path, variable, constants, nesting - and an input that is not JSON, or in which an operator, operand, path or variable is missing or of the wrong type, yields an error. No input crashes the reader.",
 ["inputs","programs"],"every JSON expression text and every malformed variant",
 "Tests read only the expressions they need and no malformed ones.",
 ["expression_json.go"],
 [("recursive reader","expression_json.go:parseJsonSubexpr")],
 ["ParseJsonExpression"])
p("C19","Removing items from an object partitions it",
 "Removing a set of keys from a JSON object yields an output that is valid JSON containing exactly the remaining items with unchanged values and order - items with a listed key are removed at every depth, removed items being not searched any further - and returns each removed item's exact value text. The returned count and the at-least-one-item flag agree with that, and the result does not depend on whitespace, on the spelling of the keys, on the order of the key list or on whether buffers were supplied.",
 ["inputs"],"every JSON object, every list of keys, every layout",
 "Tests cover about a hundred objects; arrays and nested objects as neighbours of removed items, whitespace and repeated keys combine in many more ways.",
 ["jsonComposer.go"],
 [("token copy with separator repair","jsonComposer.go:jsonObjComposer.Write"),("key matching and value skipping","jsonComposer.go:MatchAndRemoveItemsFromJsonObject")],
 ["MatchAndRemoveItemsFromJsonObject"])
p("C20","Item removal rejects bad input cleanly and leaves its source intact",
 "For every byte sequence, key list and destination buffer size, removing items terminates without a panic, never modifies the source nor writes outside the destination, and reports an error when the source is truncated or lexically not JSON, or when the destination is too small for the result.",
 ["inputs","fault_sequences"],"every byte sequence, every truncation, every destination size",
 "Tests cover a few malformed objects and no short destination.",
 ["jsonComposer.go","jsontokenizer.go"],
 [("input and error checks","jsonComposer.go:MatchAndRemoveItemsFromJsonObject"),("bounded write","jsonComposer.go:jsonObjComposer.Write")],
 ["MatchAndRemoveItemsFromJsonObject"])
p("C21","Simplifying an expression does not change its meaning",
 "For every expression containing constant true or false parts anywhere (AND and OR lists being non-empty), the compacted expression matches exactly the same documents as the original.",
 ["programs","inputs"],"every expression with constants and every document",
 "No test covers compaction.",
 ["expression_compact.go","transform.go"],
 [("constant folding","expression_compact.go:CompactExpression")],
 ["CompactExpression","FastMatcher.Match"])
p("C22","The reference matcher and the fast matcher agree",
 "On every expression both support (AND, OR, ANY and comparisons of fields with fields or with string, boolean, null and double-precision constants) and every document that has all the fields it mentions with values of the compared types (numbers that a double holds exactly and that, where they differ, differ by more than one ten-millionth), the slow matcher and the fast matcher return the same verdict and the same per-expression results, on first and repeated use; the verdict for a list of expressions is true iff any of them matches.",
 ["programs","inputs","histories"],"every common expression and every such document",
 "Tests compare them on one data set.",
 ["slowmatcher.go","fastMatcher.go"],
 [("direct evaluation","slowmatcher.go:matchOne")],
 ["SlowMatcher.Match","FastMatcher.Match"])
p("C23","Dates compare chronologically",
 "A date in any accepted form (year, year-month, date, date with time, full timestamp with zone) denotes the instant it spells, and date comparisons between document and constant or between document fields give the chronological order of those instants. A text or value that is not a date equals nothing and lies below every date.",
 ["inputs"],"every pair of date texts in every accepted form, every operator",
 "Tests compare a few dates.",
 ["fastval_date.go","fastval.go"],
 [("date parsing","fastval_date.go:FastValDateFunc, GetNewTimeFastVal"),("time comparison","fastval.go:compareTime")],
 ["FastMatcher.Match"])
p("C24","Pattern conditions test the string's real characters",
 "REGEXP_CONTAINS and LIKE are true iff the field is a string and the regular expression matches somewhere in its decoded characters, for every spelling of the string in the document; on a missing field or a value of another type they are false.",
 ["inputs","programs"],"every pattern and every string in every spelling",
 "Tests use a few plain strings.",
 ["fastval.go","transform.go","filterExprParser.go"],
 [("regex match","fastval.go:matchStrings")],
 ["FastMatcher.Match"])
p("C25","Nothing the caller passes in is modified",
 "Matching never modifies the document, the compiled definition or the expressions it was compiled from, compiling never modifies the expressions, parsing never modifies its input, and removing items from an object modifies neither its text nor the list of keys; compiling the same expressions again gives an equivalent definition.",
 ["histories","inputs","programs"],"every sequence of compile and match calls on shared inputs",
 "Tests never compare inputs before and after.",
 ["transform.go","fastMatcher.go","expression_compact.go","expression_json.go","jsonComposer.go"],
 [("read-only use of document bytes","fastMatcher.go"),("fresh state per Transform","transform.go:Transform")],
 ["FastMatcher.Match","Transformer.Transform","CompactExpression","ParseJsonExpression","MatchAndRemoveItemsFromJsonObject"])
p("C26","Printing, counting and compiling are complete and repeatable",
 "For every expression a program or parser can build, its printed form, its statistics and the printed form of its compiled definition can be produced without a crash and without changing it. Statistics count each loop, AND, OR, field reference and constant value exactly once wherever it stands - under NOT, in functions, existence tests, pattern matches and loops -, count loops directly inside one other loop as nested, report the deepest nesting of loops, and add up over several scans. The printed form names every loop variable, field, constant and function in order, and expressions that differ in operators, parts or structure print differently. The printed form of a compiled definition names every path element, slot, operation and loop of it. The printed form of a parsed filter text likewise names all its fields, values, functions and operators in their order and nothing else, and filter texts whose parentheses make different formulas of the same parts print differently. Compiling an expression again, also with a transformer that has compiled others, or given up on others, before, gives the same definition.",
 ["programs","histories"],"every expression, any number of scans and compilations",
 "No test prints or counts more than a few expressions; a kind of expression that is forgotten inside of another one shows only for that combination, and state left in a transformer only when it is used again.",
 ["expressionstats.go","expression.go","fastMatcherDef.go","transform.go"],
 [("recursive count","expressionstats.go:scanOne"),("printed forms","expression.go:String"),("printed definitions","fastMatcherDef.go:MatchDef.String"),("fresh state per Transform","transform.go:Transform")],
 ["ExpressionStats.Scan","Expression.String","MatchDef.String","Transformer.Transform"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)
print(len(P))
