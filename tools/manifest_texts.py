SIMT=T+': refinement of a reference program'
SIMN='every path and loop of the function is matched against a reference program for all inputs (loops by an inductively verified correspondence); values are compared symbolically; '
TECH.update({
'C12':(T+': typestate of scope frames','a symbolic frame counter is checked on every path and loop of every function that adds or removes frames, and the effect of each Scope method is proved for any number of frames; nested rendering is covered by induction over nesting.'),
'C13':(T+': error-flow analysis','each fallible evaluation is followed to the return on every path; absorbing is allowed only at the documented constructs; panics are C09.'),
'C14':(SIMT,SIMN+'truth and text of a value are those of TData.'),
'C15':(SIMT,SIMN+'whether a registered helper is called is C24.'),
'C16':(SIMT,SIMN+'the callee is the function decided here, user-written template managers are arbitrary.'),
'C17':(SIMT,SIMN+'maps are modelled as finite functions.'),
'C19':(SIMT,SIMN+'the lookup of the rest of a path inside a value is C18.'),
'C24':(SIMT+', plus enumeration of the registered names',SIMN+'user-written helper and template managers are arbitrary; the ones shipped are analysed.'),
'C02':(T+': containment proof for every path that reaches the file system','every file system call of a locked helper is an obligation: its path term is built from the folder by steps that cannot leave it, given the facts of the path it lies on; loops by induction over the examined components; symbolic links inside the folder are outside (judged by path).'),
'C03':(T+': containment proof for every path that reaches the file system','as C02 for the write helper; the read helpers reach no call with write authority.'),
'C28':(SIMT,SIMN+'a file system call is an unknown answer for its path; the files do not change during one call.'),
'C25':(SIMT,SIMN+'reading a tag is an event, nested items by induction (the item builder is a root of its own).'),
'C06':(SIMT,SIMN+'the reference folds over exact integers; an error is accepted only where the linear facts of the path put the result outside the signed range (or show no common type or a zero divisor).'),
'C07':(SIMT,SIMN+'float operations are those of the processor.'),
'C18':(SIMT,SIMN+'a lookup in an inner value is the induction step; the conversion of a JSON, TOML or card node is C29.'),
'C26':(SIMT,SIMN+'equality of values is C21.'),
'C21':(T+': case analysis of the comparison over all pairs of kinds','eq and partial_cmp are evaluated for every pair of kinds with unknown contents; number pairs are decided by linear facts over exact integers with the wrap-around of casts explicit; inner values are the induction step.'),
'C08':(T+': case analysis of the order and provenance of the comparators','the comparator handed to each sort or search is shown to be the total preorder (or its exact reverse for a - criterion); the order itself is decided for every pair of kinds; the library sort and search are trusted.'),
'C27':(SIMT,SIMN+'library sorts permute and library searches return an index of the slice they are given.'),
'C10':('grammar analysis over parser combinators evaluated from MIR, plus abstract interpretation for panics','rules are read from the compiled code down to the combinators; left recursion, empty repetitions and endless retries are decided on the grammar; each parser closure and tree builder is interpreted for all arguments. Stack depth for nested text is a known finding.'),
'C11':('grammar analysis over parser combinators evaluated from MIR','rules are read from the compiled code down to the combinators; the text alternatives are explored as an automaton over all character classes; gobble combinators are summarised.'),
'C36':('grammar analysis over parser combinators evaluated from MIR','each piece of text is compared symbolically with the characters it consumed; delimiters and escapes by enumeration of their alternatives; gobble combinators are summarised.'),
'C37':('grammar analysis over parser combinators evaluated from MIR'+': comparison with a reference table of the language','every alternative of every rule (what is consumed, which value is built from which part) is compared with the reference table sa/language.txt, and overlapping alternatives are compared in order; gobble combinators and its number and name rules are trusted.'),
'C22':(SIMT,SIMN+'any complete reference of the character (named or numeric) is accepted.'),
'C30':(SIMT,SIMN+'starting a program and each use of it is an event; the program itself is arbitrary.'),
'C33':(SIMT,SIMN+'the base64 crate is trusted to be inverse to itself.'),
'C38':(SIMT,SIMN+'splitting, searching and replacing are operations of the standard library, matching of the regex crate.'),
'C39':(SIMT,SIMN+'no loops.'),
'C40':(SIMT,SIMN+'path operations are those of the standard library.'),
'C41':(SIMT,SIMN+'kinds are the variants of the value type.'),
'C42':(SIMT,SIMN+'a file system call is an event with an unknown answer.'),
'C44':('symbolic execution of every path, compared kind by kind with a table of what a value holds','no loops but those over lists of texts; opening and reading a file are events with unknown answers.'),
'C45':('symbolic execution of every path; linear arithmetic bounds on the value drawn',SIMN.split(';')[0]+'; the generator is trusted to stay in the range it is asked for.'),
'C43':(SIMT,SIMN+'a file system call is an event with an unknown answer; the recursive call is replaced by its contract, decided on the recursive function itself.'),
})
NA.update({
'C35':'termination and memory of rendering depend on the program being rendered (recursion depth, sizes of data, regular expressions): a termination measure over arbitrary templates is out of reach of a static argument about the renderer, and the stack needed per level is not visible in MIR. (That parsing terminates is C10.)',
})
TECH.update({
'C29':(SIMT,SIMN+'inner values by induction; the JSON, TOML and card readers themselves are trusted.'),
'C31':(SIMT,SIMN+'the text of an inner value is the induction step, that of numbers and booleans the standard library\'s.'),
'C23':('effect analysis over the call graph (clock, random numbers, threads, shared state) plus flow analysis of hash-map iteration order to order-insensitive consumers','a table of what a hash map may be asked and which consumers forget the order; a call outside the tables is a violation. Values a library keeps (compiled regular expressions) and allocation failure are outside; the order of files read from a folder belongs to the file helpers.'),
'C32':(SIMT+'; word_wrap: a partition argument (the pieces pushed are consecutive slices of the text); rows of a table from the compiled grammar',SIMN+'blanks are space, tab, newline and carriage return.'),
'C34':(SIMT+' and composition of the two conversion tables',SIMN+'serde_json is trusted to read what it writes.'),
})
