"""Writes the "fixed" entries of known_findings.json (open entries, if any, are kept)."""
import json, subprocess
F = [
("C07","65179c8","two matchers converting numbers to text at the same time shared one package-level buffer: a number compared with a string in two goroutines gave the other's text"),
("C05","14086f9","after a match that used collation the status flag stayed set for all later documents, in spite of Reset"),
("C09","14086f9","the collation flag of an earlier match was reported for a match without collation"),
("C03","21b36bd","a body of a nested loop that uses the variable of the enclosing loop (ANY x IN mat: ANY y IN x: y = x.k) did not compile"),
("C04","9115365","a condition that relates a field to its own child (o = o.k) did not compile or match"),
("C03","be16086","NOT EXISTS, TRUE and FALSE inside of a loop body made the compiler panic"),
("C01","0963cc9","EXISTS(a) and comparisons of a were not decided when a is {} or [] and members of it are also used"),
("C03","526347b","a[0] = 1 AND ANY x IN a: ... : indexed elements of an array that is also looped over were not seen"),
("C04","385d0b5","a condition of two fields used the beginning of the document as value of a field that is absent"),
("C03","124355d","conditions of a loop body that were undecided at the end of an element (missing fields under NOT) leaked into the next element"),
("C03","5f41fae","a condition of two fields in a loop body used the value of an earlier element for a field missing in this one"),
("C14","75ef47e","truncated or corrupted documents made Match panic, or were matched as if complete"),
("C11","11f1e77","a / 0 and a % 0 of integers panicked"),
("C11","d58f294","ABS, CEIL and FLOOR of large integers went through double precision; ROUND of large doubles was wrong"),
("C10","0fe8ddc","comparing a signed with an unsigned integer above 2^63 gave the wrong order"),
("C10","a023381","18446744073709551616 and integers between 2^63 and 2^64 overflowed when read from the document"),
("C12","078fad1","strings with escapes were compared and ordered by their escaped spelling"),
("C24","078fad1","regular expressions were matched against the escaped spelling of a string"),
("C12","d84c96d","a high surrogate followed by another \\u escape that is no low surrogate was combined with it"),
("C21","0ee9d6f","constants inside of AND, OR and NOT were not compiled (panic)"),
("C15","0ee9d6f","a = 1 AND TRUE: panic while compiling"),
("C06","c3e664a","TRUE and FALSE as one of several merged expressions were not reported as such"),
("C20","c67026f","{\"a\":[\"x\"]}: a string as the last element of an array was reported as an error"),
("C20","bdc1c8b","a destination that is too small caused a panic"),
("C19","5207e43","a key listed twice was counted twice, and the output was broken"),
("C19","c5055b0","the returned text of a removed item began with white space"),
("C19","d8051ae","{\"\\u0061\":1}: a key written with escapes was not recognised"),
("C18","0c5b368","incomplete or mistyped JSON expressions ([\"equals\"], [\"field\",{}]) panicked"),
("C21","95fce96","ANY x IN arr: TRUE and EVERY x IN arr: FALSE were simplified to constants although they depend on the array"),
("C23","bf907a2","dates with / or . or mixed separators were accepted by the pattern and refused afterwards"),
("C04","7bea0e3","ABS(a) > -1 matched documents without a"),
("C16","8a6c2a3","REGEXP_CONTAINS(a, \"(\") panicked"),
("C15","638bbbf","a + 1 - 2 ignored all but the first operation"),
("C17","be7a064","arr[1].k was read as arr[1][1].k"),
("C17","8b28143","POW(a,ABS(b)): the inner function was taken for a field"),
("C17","18be473","a 1 (no operator) panicked"),
("C17","d4a573a","a == 1 && true ignored the boolean"),
("C17","8355aeb","a == 1 b == 1: a part of the text was ignored"),
("C17","62831e4","true && a == 1, and true || false, panicked or lost a part"),
("C09","e65d30a","\"a\" < true and true < \"a\" were both false or both true"),
("C03","dbbaa14","ANY x IN missing: NOT (x = 1) was true"),
("C03","e7d1c5f","ANY x IN arr: ANY y IN nums: ... (a loop over an array of an outer context) did not compile or used the wrong array"),
("C22","a5c03e7","the slow matcher's verdict for several expressions was the conjunction, the fast matcher's the disjunction"),
("C15","945db27","-2 * a = 1: the sign of a number on the left side was lost or refused"),
("C17","b7e8f78","a EXISTS && b EXISTS || c EXISTS was grouped from the right"),
("C17","8cb3c76","a == 1 AND b == 1 OR c == 1 without parentheses was grouped differently from && and ||"),
("C17","18b8ef4","x-y, LIKEd, ORDER: operators inside of field names ended the name"),
("C17","26a7d4e","a == 1 && `x y` == 1: a field with a blank in its name after an operator was refused"),
("C17","b62d81d","arr[0] was refused"),
("C17","8ce7061","POW(POW(a,2),b): functions as first arguments were not recognised, wrong numbers of arguments accepted"),
("C17","d3f940c","a == \"x  y\": white space inside of values and names was reduced to one blank"),
("C17","f6f6a8d","a == \"x) y\" and `p(q` == 1: quotes and parentheses inside of values and names were misread"),
("C17","6d9f7dc","`a``b` == 1 was accepted as some other field"),
("C17","66a7be9","a == \"(x)\" counted the parentheses of the value"),
("C17","3ac2b88","DATE(d) == DATE(\"2019\"): the date was taken for a number"),
("C17","58e61b3","a field or function alone was accepted as a condition (a panic when output)"),
("C17","0f696a4","a word of some thousand characters took minutes to parse"),
("C17","0d5da55","a == 1 == 1 was accepted"),
("C17","29af4f9","a LIKE \"( x\" (an invalid pattern with a blank) panicked when compiled"),
("C17","591228e","a LIKE \"(?=x)\" (a Perl pattern without support for it) panicked when compiled"),
("C17","bda25f8","parentheses in the middle of a text lost a part of it"),
("C26","9c35255","statistics of NOT a = 1, of a pattern match, TRUE, a time: Scan panicked"),
("C26","2dfd888","String of the definition of TRUE alone panicked"),
("C26","5e7b89b","a transformer used again gave definitions with slots for the fields of everything it had compiled before"),
("C15","38f45d2","a = \"<\" and `true` = 1 were refused, a \"=\" 1 was read as a = 1: quoted text was taken for the operator it spells"),
("C22","66f6a74","in the slow matcher a loop that uses the variable of the loop around it lost the outer value"),
("C26","310688a","the filter text a + b = 2 was printed as a = 2"),
("C23","004b0dc","the constant 2019-02-31 was accepted by the JSON reader and both filter parsers as a date; as a time constant compiling it panicked"),
]
log = subprocess.run(["git","-C","/repo","log","--format=%H","8acfad5..HEAD"],capture_output=True,text=True,check=True).stdout.split()
full = lambda h: [x for x in log if x.startswith(h)][0]
fn = "/verif/known_findings.json"
old = [e for e in json.load(open(fn)) if e["status"] == "open"]
new = [{"property":p,"status":"fixed","key":"","what":"fixed: property=%s %s %s"%(p,full(h)[:10],w),"commit":full(h)} for p,h,w in F]
missing = [x for x in log if not any(x.startswith(h) for _,h,_ in F)]
print("commits without an entry:", missing)
with open(fn,"w") as f:
    f.write("[\n"+",\n".join(json.dumps(e,ensure_ascii=False) for e in old+new)+"\n]\n")
