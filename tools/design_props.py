DP={
'C01':'''Roots: every function registered by `with_defaults`, the renderer (`TreeTemplate::run`, `Expr::run`, patterns, front matter) with an arbitrary FuncManager
excluded. All functions reachable over resolved calls, closures and vtables are classified; a violation names the call path from the helper to the `std::fs`/`process`/`net`/`env`
function. That filter expressions and front matter evaluate with `NoTemplates`/default helpers is an obligation too. 2 s. Tests cannot show the absence of a capability.''',
'C02':'''Roots: every closure registered by `with_folder_lock`; engine runs them for arbitrary folder and argument list. Every call into the file system on every path is an obligation:
its path term has to be `folder` extended by normal components only – shown from the facts of the path (component loops by induction: "no component seen so far is a parent, root or prefix", "depth never below zero").
Both a component loop and a comparison of normalised prefixes discharge it. Directory recursion is allowed through entries of an already contained directory. 4 s.
Symbolic links are outside (the property says "judged by path").''',
'C03':'''As C02 for the write helper (with the order of effects: no mutation before the check), and the authority analysis for the locked readers. 2 s.''',
'C04':'''Per opt-in method (`with_folder_lock`, `with_free_files`, `with_write_lock`, `with_exec`): authority classes reachable from what it registers are a subset of what it is allowed. 3 s.''',
'C05':'''Roots: all registered helpers of all sets plus the `Ord`/`Eq`/`Display` implementations they reach through generic library code. Obligations: every MIR assert (bounds, overflow, division), every
call to a panicking library function (`unwrap`, slicing, `split_at`, `chunks(0)`, `RefCell`, `Regex` unwraps …) with its precondition as a linear or variant fact, for all arguments. 35–60 s (slowest check). Library functions not listed are assumed
not to panic; allocation failure and stack exhaustion are outside.''',
'C06':'''Reference: fold over exact (unbounded) integers. `add`, `sub`, `mul`, `div`, `mod`: each result term is compared as an exact linear term (products as an uninterpreted exact product); casts and wrapping/saturating operations are
distinct terms, hence differ from the exact one. Error leaves have to be justified by the facts of their path. 2 s.''',
'C07':'''Reference: fold with one step per pair of kinds; min/max select by comparison. Float operations are compared as terms (operation and operand order). 3 s.''',
'C08':'''(a) the comparator closures of sort/sort_on/bin_search/bin_get are shown to be a lexicographic combination of the value order (or its exact reverse); (b) the order itself is decided over
all 11×11 pairs of kinds: rank classes, numbers by exact value including the integer/float boundary, antisymmetry and transitivity from the rank table. 9 s.''',
'C09':'''As C05 for rendering, with arbitrary FuncManager, TempManager and TParam. The scope invariant (at least one frame) is proved by induction for all methods that touch frames and assumed at the roots. 5 s.''',
'C10':'''Grammar: no rule reaches itself without consuming (left recursion), no repetition whose body may match nothing, no retry loop over a failing item without progress; every action and combinator is panic-free for all texts (as C05).
Nesting depth of the recursive rules is a separate obligation and fails: three known findings (below). 10 s.''',
'C11':'''On the recovered grammar: after an opening delimiter no alternative that treats it as text remains (the text automaton never accepts the delimiter unescaped); strings, comments and tags have no alternative that ends without their closer; whole-template parse demands end of input. 4 s.''',
'C12':'''Frame counter as a symbolic integer; each function that pushes has to pop the same number on every way out, success or error; `Scope` methods change exactly the frame they should. 4 s.''',
'C13':'''Every `Result` produced by an evaluation is tracked to the result of the function: on a path where it is known to be `Err` the function has to return an error, except at the listed constructs. 4 s.''',
'C14':'''Reference programs for the item runners (if, switch, as, for, let, export, …), item lists and block bodies; evaluations and nested renderings are events. 4 s.''',
'C15':'''Reference programs for `Expr::run`, the special forms, call arguments and literals. 2 s.''',
'C16':'''At each nested call the scope handed over is built from the argument values alone and the scope of the caller is unchanged afterwards. 2 s.''',
'C17':'''Reference programs for return/export and for the ways of calling (run, stored, named). 7 s.''',
'C18':'''Reference: a lookup of a path in a value of each parameter type, inner values by induction. 2 s.''',
'C19':'''Reference: lookup over the list of frames, innermost first (loop matched by induction), then parameters. 7 s.''',
'C20':'''Each `true`/`false` returned is justified by an inductive fact of its loop: "all elements so far satisfy the relation" and so on. 2 s.''',
'C21':'''All pairs of kinds, contents unknown; symmetric pairs must give mirrored answers, equal kinds element-wise equality; the number pairs over exact integers. 2 s.''',
'C22':'''Reference: characters in order, five of them replaced by any complete reference of the very character. Two loop nestings are accepted (text accumulated, or one text per argument joined). 3 s.''',
'C24':'''Reference for the dispatch order; registration is a map insertion under exactly the name; all default names are enumerated and distinct. 2 s.''',
'C25':'''Reference: a stack machine over tags: each block builder consumes items until the closer of its own kind. Reading one item is an event with an arbitrary answer. 5 s.''',
'C26':'''Reference: recursive matching, inner patterns by induction, bindings as events. 2 s.''',
'C27':'''Reference programs for get, slice, bin_search, bin_get, index_of, filter, sort, sort_on, append, groups, list. 6 s.''',
'C28':'''Reference programs for each helper of both sets over the same vocabulary of file questions. 4 s.''',
'C30':'''`Command` building is a term, starting a program an event with the whole command in it; what is written to it, waiting for it and returning its output are matched in order. 2 s.
That a failing exit status is ignored is not part of the property.''',
'C33':'''The argument handed to `encode`/`decode` is exactly the argument\'s bytes, the result exactly theirs; both use the same (standard) configuration. 2 s.''',
'C36':'''Every item of literal text yields exactly what it consumed (term equality between the value built and the characters matched); whitespace is only dropped by `-` delimiters. 2 s.''',
'C37':'''Every alternative of every rule – what is consumed, in which order it is tried, which value is built of which part – is compared with the reference table `sa/language.txt`, up to inlining of rules,
equivalent automata and renaming. 13 s.''',
'C38':'''Reference programs. The characters of string_from_ints: any number for which `char::from_u32` is asked. 3 s.''',
'C39':'''Reference: the attribute text. 2 s.''',
'C40':'''Reference over `Path` operations as uninterpreted functions; loops (arguments, ancestors) by induction. 1 s.''',
'C41':'''Reference programs, kinds by variant. 2 s.''',
'C42':'''Reference program over making folders, opening for replacement (whatever the spelling: the options set are folded into one event) and writing; three admitted shapes (each text on its own, joined before opening, joined after). 2 s.''',
'C43':'''Reference programs; the recursive function is found in the call graph, the parts its parameters play are read off their types, and it is decided on its own with symbolic parameters, a recursive call being an event with the contract
of the function. Maps are compared whatever the order their entries were put in. 6 s.''',
'C44':'''Every path of each view is split by the kind of the value (and of the entry asked for) and compared with a table of what the view of that kind is; `load` has to give the parse of what one read of the whole file gave, and to fail only where opening, reading or parsing failed. 2 s.''',
'C45':'''Every path of rand is split by number and kind of arguments. A draw is an event with its bounds; the result has to be the value drawn, provably inside the range the arguments name, the range drawn from as wide as that range, a list answered by the element at a drawn position; a failing path has to be one of an empty range or list, a bound that is not finite, or other kinds. 2 s.''',
'C29':'''Reference programs for `from_json`, `from_toml`, the card conversions, `Serialize for TData` (calls on the serializer are events or results) and w_json, r_card. Number kinds are judged by what the path asked of the number:
a float only where it is known to be no integer. 3 s.''',
'C31':'''`Display for TData` is run with an unknown formatter content; what has been appended at the end is compared with the reference; cat and join_with as reference programs. 2 s. Maps, dates, bytes and templates are not part of the property.''',
'C34':'''r_json has to return the JSON reading of its text whenever there is one, w_json the text serde_json writes; the tables of `Serialize` and `from_json` (decided as in C29) are inverse kind by kind. 3 s.''',
'C23':'''Two parts. Effects: from every default helper and from TreeTemplate::run no function is reached that reads the clock, random numbers, thread or process identities, addresses or atomic, locked or thread-local state (rand, and the opt-in exec, exec_stdin, env,
are the declared exceptions), and no static has interior mutability. Order: every iterator over a hash map or set met on the way is followed through the adaptors of the closed table to its consumer; it may end in a map or set again, in a count, or in a vector that is sorted before anything else reads it. 3 s.''',
'C32':'''word_wrap: pushing a line is an event; the reference holds the position reached and asks of each line that it is a slice of the text from that position, trimmed of nothing but blanks (the patterns are run on a symbolic character), and
at the end that the position is the end of the text and that the result is the list of those lines. An error is allowed only where the lines joined differ from the text, both without all the characters trimmed. table: the rule of a row (compiled grammar)
and a reference program over the rows, with blanks around cells ignored. 12 s.''',
}
