#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the statements are edited)."""
import json, os
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   observe_at=obs or [],hook_needed=None)))
I=["inputs"]
p("C01","The default helpers have no access to the outside world",
 "A template rendered with only the default helper set can never read or write the file system, start a process, open a network connection, or read the process environment or arguments, whatever it contains, including through filter expressions and through evaluating another template's front matter.",
 ["inputs","programs"],"every template and every argument to every default helper",
 "tests call about ten helpers on friendly inputs; absence of a capability cannot be sampled",
 ["src/funcs/mod.rs","src/funcs/lists.rs","src/expr.rs","src/template.rs"],
 [("opt-in registration","src/funcs/mod.rs WithFuncs::with_defaults"),("nested evaluation uses only defaults and NoTemplates","src/funcs/lists.rs filter; src/template.rs front_matter")])
p("C02","Folder-locked reads stay inside their folder",
 "Every file or directory that a folder-locked helper opens, lists, measures or tests lies, judged by its path, inside the folder given when the helper was registered, whatever strings the template passes and in whichever argument position; a path that would lead out of it (absolute, or climbing with parent components) is refused with an error before it is accessed.",
 I,"all argument lists of all folder-locked helpers",
 "no test calls a folder-locked helper at all; a single missed argument or component form is an escape",
 ["src/funcs/folder.rs"],[("safe_path","src/funcs/folder.rs safe_path"),("recursion only through directory entries","src/funcs/folder.rs do_scan_dir")])
p("C03","Locked writes stay inside their folder; locked reads change nothing",
 "The folder-locked write helper creates, truncates or writes only at paths inside the folder given at registration (creating the folder itself aside), refusing any other path with an error before touching the disk, and the folder-locked read helpers never create, modify or remove anything on disk.",
 I,"all argument lists of the locked write and locked read helpers",
 "no test calls them",
 ["src/funcs/write.rs","src/funcs/folder.rs"],[("safe_path before any mutation","src/funcs/write.rs write")])
p("C04","Each opt-in helper set grants only the authority it names",
 "Reading files is possible for a template only when a folder-lock or free-files set was registered, writing or creating files only with the write-lock or free-files set, and running processes or reading environment variables only with the exec set; no set grants more than that.",
 ["inputs","configurations"],"all combinations of helper sets, all templates",
 "tests use the defaults only",
 ["src/funcs/mod.rs","src/funcs/exec.rs","src/funcs/free_file.rs","src/funcs/write.rs","src/funcs/folder.rs"],[("one registration method per authority","src/funcs/mod.rs WithFuncs")])
p("C05","No helper ever panics, whatever it is called with",
 "Calling any built-in helper with any number of arguments of any types and values (empty lists, out-of-range numbers, any Unicode text) never panics: it returns a value or an error.",
 I,"all helpers, all argument lists",
 "tests pass a handful of well-formed argument lists",
 ["src/funcs"],[("length checks before indexing","src/funcs/*.rs"),("get()/ok_or instead of indexing","src/funcs/*.rs")])
p("C06","Integer arithmetic is exact or an error",
 "For integer operands the arithmetic helpers add, sub, mul, div and mod return exactly the mathematical result (quotient and remainder truncated toward zero), or an error, which is allowed only when the result is outside the signed 64-bit range (for mod: when the quotient is), the operands fit no common 64-bit integer type, or the divisor is zero; they never wrap around, saturate or silently lose digits.",
 I,"all integer operands, signed and unsigned, any number of arguments",
 "the one arithmetic test uses small numbers; wrap-around appears only near the ends of the range",
 ["src/funcs/math.rs"],[("num_match picks a common type","src/funcs/math.rs num_match"),("per-type arms","src/funcs/math.rs add/sub/mul/div/modulo")])
p("C07","Arithmetic helpers fold their own operation left to right",
 "add, sub, mul, div, mod, min and max each combine their arguments strictly left to right with their own operation, give an error for no arguments and for a non-numeric value among two or more, give a float as soon as one operand is a float and never turn a float operand into an integer; a single argument is returned as it is, except that sub negates it (an error if it is no number).",
 I,"all argument lists of the seven helpers",
 "one test covers add and mul on three numbers",
 ["src/funcs/math.rs"],[("fold","src/funcs/math.rs fold"),("num_match","src/funcs/math.rs num_match")])
p("C08","Sorting and searching use a consistent order",
 "The order used by sort, sort_on, bin_search and bin_get is a total preorder on all values, so sorting never panics on inconsistent comparisons, is the same for every permutation of distinct keys, and searching finds what sorting placed: numbers order by value across numeric types, each non-numeric type stays together, and a '-' criterion exactly reverses its field.",
 I,"all lists of all values, all criteria",
 "tests sort five values of one type; cycles need three values of different types or magnitudes",
 ["src/tdata.rs","src/funcs/lists.rs"],[("PartialOrd for TData, mode_rank","src/tdata.rs"),("Comparator::compare, o_flip","src/funcs/lists.rs")])
p("C09","Rendering never panics",
 "Rendering any parsed template with any parameters, any helper set and any template manager never panics: every failure is returned as an error.",
 ["inputs","programs"],"all templates, all parameters",
 "tests render about fifteen well-formed templates",
 ["src/expr.rs","src/template.rs","src/scope.rs","src/pattern.rs","src/tparam.rs","src/tdata.rs"],[("guards before indexing","src/expr.rs, src/scope.rs, src/tparam.rs")])
p("C10","Parsing any text terminates without panicking",
 "Parsing any string as a template, a data value, a filter expression or a sort criterion terminates (no rule can call itself, or repeat, without consuming input) and never panics: it yields a result or an error.",
 I,"all strings",
 "tests parse about twenty valid templates",
 ["src/parse","src/funcs/table.rs","src/funcs/lists.rs"],[("parser combinator grammar","src/parse/*.rs"),("or!/star/sep combinators must consume","src/parse/*.rs")])
p("C11","A malformed tag is an error, never silently text",
 "Once an opening tag delimiter is read, either the complete tag up to its closing delimiter is understood or parsing the whole template fails; tag text is never passed through as literal output, and an unterminated string or comment inside a tag is an error.",
 I,"all template texts",
 "tests contain only well-formed tags",
 ["src/parse/template.rs"],[("brk on tag body and closer","src/parse/template.rs Item"),("literal text stops before an opener","src/parse/template.rs Item, StringItem")])
p("C12","Block-local names never outlive their block",
 "A name bound by let inside a block body, by the pattern of a switch case or 'as' block, or inside a pattern filter is gone when that block is finished, however it finishes (normally, by a failed match or by an error that the caller absorbs), and no construct ever removes the surrounding template's own names.",
 ["inputs","programs","histories"],"all templates, all paths through a block including failures",
 "tests never look at a name after its block, nor at failing blocks",
 ["src/template.rs","src/scope.rs","src/pattern.rs"],[("scope.push/scope.pop pairing","src/template.rs run_block, TreeItem::run; src/pattern.rs match_data")],
 [("maps","stack of name frames","src/scope.rs Scope")])
p("C13","An evaluation error is never silently lost",
 "If evaluating an expression, a block or a called template fails while rendering, rendering fails with that error; the only constructs that absorb it are an if/elif condition (treated as not true), 'first' (tries the next alternative), a pattern filter and the filter helper (treated as no match), and front-matter extraction (skips that export).",
 ["inputs","programs"],"all templates and all places an evaluation can fail",
 "tests exercise almost no failing evaluation",
 ["src/expr.rs","src/template.rs","src/pattern.rs","src/funcs/lists.rs"],[("? propagation","src/expr.rs, src/template.rs")])
p("C14","Control flow evaluates exactly what it selects, once, in order",
 "if/elif/else evaluates its condition once and renders exactly the branch chosen (the else part when the condition is false, not a truth value or fails), switch renders only the first matching case and 'as' only on a match, for renders its body once per element in order with the element's key and value bound, and a block's output is the in-order concatenation of all its items.",
 ["inputs","programs"],"all templates",
 "one test per construct, with literal conditions and lists",
 ["src/template.rs"],[("TreeItem::run, run_block","src/template.rs")])
p("C15","Calls are lazy only where documented, and evaluate arguments once in order",
 "'first' evaluates its alternatives in order and stops at the first one that succeeds with a non-null value, 'select' evaluates its selector and then only the chosen alternative (true choosing the first and false the second, n choosing the nth from zero) or gives an error when there is none, and every other call, list and map literal evaluates each of its parts exactly once, left to right, before the call happens.",
 ["inputs","programs"],"all expressions",
 "one test uses first and select with constants",
 ["src/expr.rs"],[("run_command special forms","src/expr.rs run_command"),("Expr::run","src/expr.rs")])
p("C16","A called template sees only its arguments",
 "A template invoked by name, through run or as a stored template sees exactly the arguments it was given, in order, and its own bindings: never a name or parameter of its caller, and nothing it binds or exports changes the caller's names.",
 ["programs","inputs"],"all templates and call chains",
 "tests call templates that use only positional parameters",
 ["src/expr.rs","src/template.rs","src/scope.rs"],[("fresh Scope per call","src/template.rs run_exp; src/expr.rs run_values, run_command")])
p("C17","return and export reach exactly the caller that asked",
 "A called template's value is its returned value when it executed a return and otherwise its rendered text, on every way of calling it; export and @export (and return) bind at the top level of the template they are written in from any nesting depth, so that all of them and no block-local binding are in the exported map.",
 ["programs","inputs"],"all templates",
 "two tests return a number from the top level of a template",
 ["src/expr.rs","src/template.rs","src/scope.rs"],[("set_root / top","src/scope.rs"),("remove(\"return\")","src/expr.rs")])
p("C18","Path lookup finds the addressed value or nothing",
 "Looking up a path in any parameter type returns the value addressed by the whole path: an empty path gives the value itself, a name steps only into maps and a number only into lists, and a path that names nothing (missing key, index out of range, stepping into a scalar) gives no value instead of some other value; a path into a card gives what the same path into the card's value gives.",
 I,"all parameter types, all values, all paths",
 "tests look up one- and two-step paths that exist",
 ["src/tparam.rs"],[("TParam::get_v, one per parameter type","src/tparam.rs")])
p("C19","Name resolution order is innermost first",
 "A named variable resolves to the innermost block binding of that name, otherwise to an outer one, otherwise to the declared parameter of that name, and never falls back to another binding when the rest of the path is missing; $n is always the nth argument; a plain binding affects only the current block.",
 ["programs","inputs"],"all nestings and shadowings",
 "tests bind each name once",
 ["src/scope.rs"],[("Scope::get, set, set_root","src/scope.rs")])
p("C20","Comparison and logic helpers mean what their names say",
 "eq, gt, gte, lt and lte are true exactly when their relation holds between the first argument and every later one, eq_any exactly when it holds for at least one, neq with two arguments is the negation of eq, and and/or/nand/nor are exactly all-true, any-true and their negations over all arguments, where a value that is not a truth value counts as not true.",
 I,"all argument lists",
 "tests use lt and eq on two numbers",
 ["src/funcs/bools.rs","src/funcs/mod.rs"],[("one loop per helper","src/funcs/bools.rs"),("name to function table","src/funcs/mod.rs with_bools")])
p("C21","Equality is an equivalence that agrees with the order",
 "Two values are equal exactly when they are of comparable types and have equal contents (numbers by value across numeric types, never by wrap-around; text, booleans, dates, lists, maps, bytes and templates by content; null only to null): every value except NaN equals itself, equality is symmetric, and equal values are never ordered one before the other. (Values containing NaN are exempt.)",
 I,"all pairs of values",
 "tests compare two small numbers",
 ["src/tdata.rs","src/funcs/math.rs"],[("PartialEq / PartialOrd for TData","src/tdata.rs"),("num_match","src/funcs/math.rs")])
p("C22","Escaping helpers leave no markup character unescaped",
 "html_esc and xml_esc replace every '&', '<', '>', double quote and single quote of every argument by a complete, ';'-terminated entity reference of that very character, and pass every other character through unchanged and in order.",
 I,"all strings",
 "no test calls either helper",
 ["src/funcs/strings.rs","src/funcs/svg.rs"],[("character match","src/funcs/strings.rs html_esc; src/funcs/svg.rs _xml_es")])
p("C23","Rendering is deterministic",
 "Apart from the rand helper and the opt-in file and process helpers, the same template with the same parameters, helpers and stored templates always renders the same text: no helper keeps state between calls and nothing depends on the clock, addresses, threads or hash-map iteration order.",
 ["inputs","histories"],"all templates, all repeated renderings",
 "each test renders once; maps in tests have one key or are looked up by key",
 ["src/template.rs","src/tdata.rs","src/funcs"],[("no statics; ordered traversal of maps","src/template.rs TreeItem::run For; src/tdata.rs Display, Serialize")])
p("C24","Call dispatch: built-in forms, then helpers, then templates",
 "A call runs the special forms run, first and select under those names, otherwise the registered helper of exactly that name, otherwise the stored template of exactly that name, otherwise it is an error naming it; registering a helper replaces only the helper of the same name, and no two default helpers share a name.",
 ["programs","configurations"],"all call names and registrations",
 "tests never have a helper and a template under one name",
 ["src/expr.rs","src/func_man.rs","src/funcs/mod.rs"],[("run_values","src/expr.rs"),("BasicFuncs add_func/get_func","src/func_man.rs")])
p("C25","Every block closes with its own closer",
 "When a template text is turned into a tree, each block ends exactly at the closing tag that names its own opener; a closing, else, elif or case tag that does not belong to the innermost open block is an error and is never dropped or attached to another block, and text that ends inside an if, before its else or closer, is an error (any other open block, and an else part, simply ends with the text). Every item between opener and closer is kept, once and in order; only text before the first case of a switch belongs to no case and is dropped.",
 ["inputs","programs"],"all sequences of tags",
 "tests contain only well-nested templates",
 ["src/template.rs"],[("tt_basic and the tt_* closers","src/template.rs")])
p("C26","Patterns match exactly the shapes they describe",
 "A list pattern matches only a list with at least as many elements whose elements match position by position, a map pattern only a map holding every named key with a matching value, a value pattern only an equal value, a filter only when its expression yields true, and a capture binds its name to exactly the matched part and only if its own sub-pattern matched.",
 ["inputs","programs"],"all patterns and values",
 "one test and one data file use two-element patterns",
 ["src/pattern.rs"],[("Pattern::match_data","src/pattern.rs")])
p("C27","List helpers return elements of the list they were given",
 "get, slice, first-class search (bin_search, bin_get, index_of), filter, sort, sort_on, append, groups and list return only positions in, or unmodified elements of, the lists they were given (or null): nothing is invented, taken from another argument, duplicated or lost beyond what the operation names, and bin_get returns the element at the position bin_search reports for the same arguments. They fail only for arguments that are missing or of another kind, a criterion or filter that does not parse, or positions that are negative or (slice, text) outside the value; list, append and sort never fail.",
 I,"all lists and arguments",
 "tests cover sort and filter on five elements",
 ["src/funcs/lists.rs"],[("lists helpers","src/funcs/lists.rs")])
p("C28","Locked and free file helpers treat every argument alike",
 "is_file and is_dir answer true exactly when every given path exists and is of that kind, file and file_bytes return the complete contents of all given paths in order, and an unreadable or missing path is an error for file, file_bytes and dir; the folder-locked and the free version of each helper agree on this.",
 ["inputs"],"all argument lists of the two sibling sets",
 "no test calls them",
 ["src/funcs/folder.rs","src/funcs/free_file.rs"],[("sibling implementations","src/funcs/folder.rs, src/funcs/free_file.rs")])
p("C29","Conversions keep kind and value",
 "JSON, TOML and card data convert to template values of the corresponding kind with the same value and all their elements (a JSON or TOML integer stays that integer, never a float or another number), and w_json writes null, booleans, numbers (finite floats), text, lists and maps as the corresponding JSON kind with the same value and all their elements.",
 I,"all JSON, TOML and card values",
 "tests convert three small JSON numbers and a few strings",
 ["src/tdata.rs","src/funcs/format.rs"],[("from_json, from_toml, From<&CData>, Serialize","src/tdata.rs")])
p("C30","exec passes the program and arguments verbatim, without a shell",
 "exec and exec_stdin start exactly the program named by their first argument, directly and not through a shell, with exactly the remaining argument values as separate arguments in order (exec_stdin's second value going only to standard input) and yield its standard output, and env reads exactly the variable named by its first argument.",
 I,"all argument lists",
 "no test calls them",
 ["src/funcs/exec.rs"],[("Command::new(arg0).args(rest)","src/funcs/exec.rs")])
p("C31","Text output of a value is that value's own text",
 "Printing a value gives a boolean, number or string as exactly its own standard text, null as NULL, and a list as its elements' texts in order, separated by ',' inside '[' and ']'; cat concatenates exactly its arguments' texts in order and join_with puts the separator exactly between consecutive elements.",
 I,"all values",
 "tests print a few numbers, strings and one list",
 ["src/tdata.rs","src/funcs/strings.rs","src/funcs/path.rs"],[("Display for TData","src/tdata.rs"),("cat","src/funcs/strings.rs"),("join_with","src/funcs/path.rs")])
p("C32","word_wrap and table keep every word and cell",
 "word_wrap returns lines that, joined, contain every non-blank character of the text in order and no others, and table emits, in order, every cell of every row of at least two cells (a row marked as continuation adds its cells to the columns of the row before).",
 I,"all texts and widths","no test calls either",
 ["src/funcs/strings.rs","src/funcs/table.rs"],[("_word_wrap","src/funcs/strings.rs"),("Table","src/funcs/table.rs")])
p("C33","Base64 helpers are inverse to each other",
 "from_base64 of as_base64 of any text or bytes gives back the same bytes.",
 I,"all byte strings","no test calls either",
 ["src/funcs/bytes.rs"],[("base64::encode/decode","src/funcs/bytes.rs")])
p("C34","Data text round-trips: r_json reads what w_json writes",
 "Reading with r_json the text that w_json wrote for one value made of null, booleans, text, integers, finite floats, lists and maps (less than a hundred levels deep) gives an equal value, floats up to the rounding of their last digit.",
 I,"all values","no test calls either",
 ["src/funcs/format.rs","src/parse/expr.rs"],[("BasicData grammar","src/parse/expr.rs"),("serde_json::to_string","src/funcs/format.rs")])
p("C35","Rendering terminates and uses bounded memory",
 "Rendering a template that does not call itself and loops only over finite values terminates, and recursion through run or stored templates is reported as an error instead of exhausting the stack.",
 ["programs"],"all templates","no test recurses",
 ["src/expr.rs","src/template.rs"],[("recursive evaluation","src/expr.rs, src/template.rs")])
p("C36","Literal text and whitespace control reproduce the source",
 "Text outside tags appears in the output character for character, except escaped characters, escaped line breaks and the whitespace removed by '-' in tag delimiters.",
 I,"all template texts","tests use a few layouts",
 ["src/parse/template.rs"],[("StringItem, IOpen, IClose","src/parse/template.rs")])
p("C37","Tags and expressions are read as written",
 "Every form of tag, expression, pattern and data literal of the language is read as that form and no other, with its parts in the order written; a keyword is read only as a whole word; an escape stands for its documented character; a literal keeps its kind, sign and value, and one that has no value of its kind (a date or number out of range) is an error, never another value; where two forms begin alike the longer or more specific one is tried first.",
 I,"all template texts","tests parse a few dozen templates",
 ["src/parse/template.rs","src/parse/expr.rs","src/parse/pattern.rs"],[("grammar rules","src/parse/template.rs, src/parse/expr.rs, src/parse/pattern.rs")])
p("C38","Text helpers act on the text they are given",
 "split cuts its first argument at every occurrence of its second (a line break without one) and gives all parts in order; str_contains tells whether any later argument occurs in the first; str_replace and str_replace_n replace every, or at most the given number of (by default one), occurrences of the second argument in the first by the third; string_from_ints gives the characters of its numbers in order; regex tells whether the pattern given second matches the text given first, a malformed pattern being an error; debug contributes nothing to the output.",
 I,"all argument lists","no test calls them",
 ["src/funcs/strings.rs"],[("split, str_contains, str_replace, str_replace_n, string_from_ints, regex, debug","src/funcs/strings.rs")])
p("C39","SVG helpers put each value under its own attribute",
 "xy, xywh, xy12, cxyrr, fl_stk and font give exactly their documented attributes, each with the text of the argument at its position followed by the unit argument where there is one, and an error when an argument is missing.",
 I,"all argument lists","no test calls them",
 ["src/funcs/svg.rs"],[("svg helpers","src/funcs/svg.rs")])
p("C40","Path helpers agree with the path operations",
 "join, parent, base_name, base_name_sure, stem, full_stem, with_ext and bread_crumbs work on the path made of all their arguments in order and give that path, its parent, its last part, its last part without extension, the whole path without extension, the path with the extension given second, and the list of the path and all its ancestors from the outermost to itself.",
 I,"all argument lists","no test calls them",
 ["src/funcs/path.rs"],[("path helpers","src/funcs/path.rs")])
p("C41","Inspection and map helpers report what the value is",
 "type_of names the kind of its first argument (or tells whether that is the name given second), is_null and is_num tell whether it is null or a number, len counts the elements of lists and maps, the bytes of texts and one for any other argument, all added up, and map builds a map with each name bound to the value following it, a name that is no text being an error.",
 I,"all argument lists","tests call len and map on one input",
 ["src/funcs/lists.rs","src/funcs/mod.rs"],[("len, is_null, is_num, type_of, map","src/funcs/lists.rs, src/funcs/mod.rs")])
p("C42","The write helpers leave exactly the given text in the named file",
 "A successful write makes the folder the file lies in, replaces whatever the file held, and leaves in it exactly the text of the argument after the path (the folder-locked helper) or of all the arguments after it, one after the other (the free one); fewer than two arguments, a path with no folder to lie in, or any failure to make, open or write is an error, and nothing is touched before the arguments are known to suffice.",
 I,"all argument lists of both write helpers, all answers of the file system","no test calls them",
 ["src/funcs/write.rs","src/funcs/free_file.rs"],[("write","src/funcs/write.rs write, src/funcs/free_file.rs write")])
p("C43","scan_dir and file_img_dimensions report what is there",
 "scan_dir returns one map for every file it meets in the given folder, in the order the system lists them, that can be opened, whose name does not start with an underscore and whose path matches the filter given third (if it is a regular expression): its path under item_full_path, its name under item_file, the folder it lies in relative to the one given under item_path, and the front matter of its text, if that is a template; folders below are visited down to the depth given second, none without one; a folder that cannot be listed is an error. file_img_dimensions gives the width and height of the named picture under w and h.",
 I,"all argument lists and directory contents, both the locked and the free helper","no test calls them; depth and order of nested folders are unbounded",
 ["src/funcs/folder.rs","src/funcs/free_file.rs"],[("scan_dir, do_scan_dir, file_img_dimensions","src/funcs/folder.rs, src/funcs/free_file.rs")])
p("C44","The typed views of a value give what it holds",
 "as_str, as_usize, as_float, get_key_str and get_key_string give exactly the text, non-negative integer, number or entry a value holds and nothing for a value of another kind; as_bool is true exactly for a true truth value, a number other than zero and a text, list or map that is not empty, false for the other values of these kinds and for null, and nothing for the rest; a host's list of texts becomes the list of exactly these texts; TreeTemplate::load gives the template parsed from the whole text of the file, or an error if it cannot be read or parsed.",
 I,"all values and keys; all outcomes of opening and reading the file","no test calls most of them",
 ["src/tdata.rs","src/template.rs"],[("TData::as_*, get_key_*","src/tdata.rs"),("TreeTemplate::load","src/template.rs")])
p("C45","rand stays in the range asked for",
 "rand gives, without arguments, a float drawn from 0 to 1; for two numbers of one kind a number of that kind from the first up to but not including the second; for one integer an integer from 0 up to but not including it; for one float that float times a float drawn from 0 to 1; for a list one of its elements, any of which may come; it fails only for an empty range or list, a bound that is not finite, or values of other kinds.",
 I,"all argument lists, every number the generator may give","randomness cannot be sampled exhaustively",
 ["src/funcs/random.rs"],[("get_rand","src/funcs/random.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
