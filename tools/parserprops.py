S = 'src/'
EA = 'crates/easter/src/'
ES = 'crates/estree/src/'
REF = ("Held on the generated and enumerated programs of this run, by comparison with an independent reference parser written from the "
       "ECMAScript grammar (cross-checked against acorn while it was developed); trusts that reference, rustc and the standard library. "
       "Programs that use syntax esprit does not implement, and a few points it leaves unspecified, are run but not judged (see DESIGN.md). ")

p('C14', 'Tree constructors and directive conversions keep what they are given',
  'A declarator or constant declarator built from a pattern and an initializer holds exactly these and spans from the one to the other; without an initializer it is refused, handing the pattern back, for constants and for array and object patterns, and allowed for a plain name. '
  'Turning a name into an expression, pattern or declarator, and a statement into an item, keeps content and location. '
  'Exactly the statements that consist of one string literal are directives; converting one to a directive keeps its string, source text, semicolon and location, anything else is handed back unchanged.',
  ['inputs'], 'every pattern, initializer and statement list', 'easter has no tests.',
  [EA+'decl.rs', EA+'id.rs', EA+'patt.rs', EA+'stmt.rs', 'crates/joker/src/track.rs'],
  [('DtorExt and the constructors of Dtor and ConstDtor', EA+'decl.rs'), ('IdExt', EA+'id.rs'), ('is_directive, to_directive, into_directive, Dir::pragma', EA+'stmt.rs'), ('span', 'crates/joker/src/track.rs')],
  'runtime monitoring: parsed trees are taken apart and rebuilt, the results compared with a model of the parts',
  'Exploration of generated programs and patterns.')
p('C15', 'Source locations of trees can be read, replaced and erased as a whole',
  'The location reported for any node is the location that node records; replacing it changes the location of that node and of nothing else. '
  'Erasing the locations of a tree removes every location in it, at any depth, and the places of all semicolons, and changes nothing else; erasing again changes nothing.',
  ['inputs'], 'every tree, every node of it', 'easter has no tests; the code is mostly generated by a derive macro that is not tested either.',
  ['crates/joker/src/track.rs', 'crates/derive/src/lib.rs', EA+'expr.rs', EA+'stmt.rs', EA+'fun.rs', EA+'patt.rs', EA+'punc.rs'],
  [('TrackingRef, TrackingMut, Untrack', 'crates/joker/src/track.rs'), ('the derive macros', 'crates/derive/src/lib.rs'), ('hand-written implementations', EA+'expr.rs')],
  'runtime monitoring: every location of a tree watched before and after each operation',
  'Exploration of parsed and hand-assembled trees; the derive macro is compiled with a stand-in of its syn dependency that only parses less.')
p('C16', 'Tree equality is structural',
  'Two trees without locations are equal exactly if they have the same structure, names, operators and values: strings and numbers count by value, not by spelling, regular expressions by pattern and set of flags, and a new expression without arguments is the one with none. '
  'With locations, equal trees also agree in every location. Equality does not depend on the order of comparison.',
  ['inputs'], 'every pair of trees', 'No test compares two trees.',
  [EA+'expr.rs', EA+'stmt.rs', 'crates/joker/src/token.rs'],
  [('PartialEq for Expr', EA+'expr.rs'), ('PartialEq for literals', 'crates/joker/src/token.rs')],
  'runtime monitoring: the answer of every comparison judged by an independent structural comparison',
  'Exploration of pairs of programs that differ in layout, spelling, one token, or altogether.')
p('C17', 'Operators, their texts, tokens and precedence correspond exactly',
  'Every binary, logical, assignment and unary operator is read from its text, is written back as that text where it can be written, and is produced from its token with the location of the token; no other text or token yields an operator, and the in operator is only produced where it is allowed. '
  'The precedences order the operators as ECMAScript does.',
  ['inputs'], 'every operator text, every token, every pair of operators', 'No test touches operators.',
  [EA+'punc.rs', S+'tokens.rs'], [('FromStr, Display and precedence of the operator tags', EA+'punc.rs'), ('to_binop, to_logop, to_assop', S+'tokens.rs')],
  'runtime monitoring: every operator and token enumerated, results judged by a table',
  'Texts of up to four operator characters are enumerated, longer ones sampled.')
p('C18', 'Expressions become assignment patterns exactly when they are patterns',
  'An expression converts to an assignment target exactly if it is a name or a member access, and to an assignment pattern exactly if it is that, or an array or object literal all of whose parts are; the rest element is only accepted last. '
  'The pattern has the same parts, in order, with the same locations. Otherwise the error says which part is wrong, and where.',
  ['inputs'], 'every expression', 'easter has no tests.',
  [EA+'cover.rs', EA+'patt.rs'], [('IntoAssignTarget, IntoAssignPatt, IntoAssignProp', EA+'cover.rs')],
  'runtime monitoring: every conversion compared with a reference conversion',
  'Exploration of generated and enumerated literals.')
p('C19', 'Layout does not matter beyond line breaks',
  'Replacing the white space and comments between two tokens by any others, keeping whether there is a line terminator between them, changes neither whether a program is accepted nor its tree, locations aside. '
  'Adding or removing a line terminator matters only where ECMAScript inserts a semicolon because of it, or forbids it.',
  ['programs'], 'every program, every pair of layouts', 'No test parses a program.',
  ['crates/joker/src/lexer.rs', S+'parser.rs'], [('trivia in the lexer, newline-sensitive rules of the parser', S+'parser.rs')],
  'runtime monitoring: metamorphic comparison of two layouts of one token sequence',
  'Exploration of random layouts; needs no reference parser except to tell which texts have the same tokens.')
p('C20', 'Parsing any text is total',
  'Parsing any text through any entry point ends with a tree or an error. It never panics, overflows, hangs or crashes the process, and every error can be shown.',
  ['inputs'], 'every text, every entry point', 'No test parses a program.',
  [S+'parser.rs', S+'lib.rs', S+'error.rs', S+'state.rs', S+'stack.rs'], [('the recursive-descent and operator-precedence parser', S+'parser.rs'), ('the stack of pending operators', S+'stack.rs')],
  'runtime monitoring: panic, abort, CPU and memory monitors (overflow checks and debug assertions on) over hostile, mutated and truncated texts',
  'Exploration. Nesting up to 400 levels on a 256 MB stack; unbounded recursion on deeper input is inherent in the design and not judged.')
p('C21', 'A valid program yields the tree the ECMAScript grammar defines',
  'Every valid program is accepted and its tree is the one the ECMAScript grammar defines: every statement, declaration, function, pattern, literal and operator appears in it, in order, with the right kind, values, precedence and associativity, and nothing else does.',
  ['programs'], 'every valid program', 'No test parses a program.',
  [S+'parser.rs', S+'stack.rs', S+'expr.rs', S+'atom.rs'], [('statement and expression productions', S+'parser.rs'), ('operator precedence', S+'stack.rs'), ('member and call suffixes', S+'expr.rs')],
  'runtime monitoring: every tree compared node by node with a reference parser', REF)
p('C22', 'Semicolons are inserted exactly where ECMAScript inserts them',
  'Where a semicolon is missing, one is inserted exactly if a line terminator or } or the end of input permits it, including after break, continue, return, throw and before postfix ++ and --, and after do-while; otherwise the program is rejected there. '
  'The tree records for every semicolon whether it was inserted, and if not, where it stands.',
  ['programs'], 'every program, every placement of line breaks', 'No test parses a program.',
  [S+'parser.rs', 'crates/joker/src/lexer.rs'], [('Parser::semicolon, has_explicit_semi, restricted productions', S+'parser.rs')],
  'runtime monitoring: every recorded semicolon compared with a reference parser', REF)
p('C23', 'Results depend on the text alone',
  'Tokenizing or parsing a text gives the same tokens, tree or error, including every location, whatever was tokenized or parsed before, in between or at the same time in other threads. '
  'It makes no difference what kind of character source a lexer reads the text from.',
  ['inputs', 'histories', 'schedules'], 'every text, every history and interleaving of other lexers and parsers', 'The test reads each text once, in one order, in one thread.',
  ['crates/joker/src/lexer.rs', 'crates/joker/src/reader.rs', 'crates/joker/src/word.rs', S+'parser.rs', S+'context.rs'], [('lexer and parser own all their state', S+'parser.rs')],
  'runtime monitoring: results after other work, in turns and in threads compared with those of fresh processes', 'Exploration: groups of texts, each alone in a fresh process, then in histories (short and of over a thousand texts), interleaved, in four threads and in storms of threads.')
p('C24', 'Jumps, labels and default cases are validated',
  'Break and continue are accepted exactly where something encloses them, within the same function, that they can leave or continue; a label is accepted exactly if it encloses the jump in the same function, and for continue labels a loop; nested labels differ; return only occurs in functions; a switch has at most one default. '
  'A violation is reported as such, at the offending statement.',
  ['programs'], 'every nesting of statements', 'No test parses a program.',
  [S+'parser.rs', S+'context.rs', S+'error.rs'], [('the context of loops, switches, labels and functions', S+'context.rs')],
  'runtime monitoring: outcome and blame of every jump compared with a reference parser', REF,
  state=[('context', 'what encloses the current statement', S+'context.rs')])
p('C25', 'Strict mode and the entry points decide what is allowed',
  'The restrictions of strict code (no with statement, no names that are reserved in strict code, no binding of eval or arguments) apply exactly to modules, to scripts parsed as strict, and to scripts and functions from their "use strict" directive on, including the name and parameters of such a function. '
  'Parsing as a program and then deciding for script, strict or module gives the same result as parsing so directly; "use module" makes a program a module. '
  'A violation is reported as such, at the offending place.',
  ['programs', 'configurations'], 'every program through every entry point', 'No test parses a program.',
  [S+'lib.rs', S+'parser.rs', S+'state.rs', 'crates/joker/src/word.rs'], [('script, strict, module, program, Program', S+'lib.rs'), ('strictness and pending violations', S+'parser.rs')],
  'runtime monitoring: all seven ways of parsing a text compared with each other and with a reference parser', REF)
p('C26', 'Every node is located at exactly its source text',
  'Every node of a parsed tree has a location, whose start and end are those of the first and last token of the construct, as offset, line and column; only locations of statements, directives, declarators, blocks, parameter lists and spread or rest elements may include white space and comments next to them. '
  'The locations of the parts of a node lie within its own.',
  ['programs'], 'every program, every node', 'No test looks at a location.',
  [S+'parser.rs', S+'expr.rs', S+'stack.rs', 'crates/joker/src/track.rs'], [('Parser::span, span_with', S+'parser.rs'), ('locations of pending operators', S+'stack.rs')],
  'runtime monitoring: every location compared with the tokens of a reference parser', REF + 'White space at the ends of the constructs named is not counted for or against them.')
p('C27', 'Invalid programs are rejected, at the first error',
  'A text that is not a program of the implemented language is rejected through every entry point: with a syntax error at the first token that cannot continue a program, with a lexical error if a token is malformed, and with the offending place if a target of an assignment, increment or loop is not one. '
  'A valid program is never rejected.',
  ['inputs'], 'every text', 'No test parses a program.',
  [S+'parser.rs', S+'error.rs', S+'expr.rs'], [('token expectations, error construction', S+'parser.rs'), ('Display for Error', S+'error.rs')],
  'runtime monitoring: outcome, class and place of every error compared with a reference parser', REF + 'Two listed findings about parenthesized patterns and a comma after a rest element.')
p('C28', 'ESTree documents are decoded faithfully or rejected with the right cause',
  'A well-formed ESTree document of a script in the supported language is read as the tree it describes, without locations, leading string statements of the script and of functions becoming directives. '
  'A document that lacks a required field, or has a field of the wrong type, an unknown node type, operator or kind, or a node where it may not stand, is rejected; if that is the only fault, the error names the missing field, the unknown type, operator or kind of declaration, or the JSON type or type of node found instead. '
  'Additional fields are ignored, and reading through the JSON deserializer gives the same outcome.',
  ['inputs'], 'every JSON document', 'estree has no tests.',
  [ES+'lib.rs', ES+'node.rs', ES+'stmt.rs', ES+'expr.rs', ES+'obj.rs', ES+'decl.rs', ES+'fun.rs', ES+'tag.rs', ES+'error.rs'],
  [('IntoScript, ESTreeScript', ES+'prog.rs'), ('readers of each kind of node', ES+'stmt.rs'), ('Tag', ES+'tag.rs')],
  'runtime monitoring: outcome and tree of every document compared with a reference decoder',
  'Held on documents of generated programs, whole and spoilt; trusts the reference decoder. Where ESTree determines a type by the place of the node, another type is not judged.')
p('C29', 'Parsing and reading the ESTree of the same program agree',
  'Reading the ESTree document of any parsed script gives the tree that was parsed, without its locations.',
  ['programs'], 'every script the parser accepts', 'Neither the parser nor the ESTree reader is tested.',
  [ES+'prog.rs', S+'parser.rs', EA+'stmt.rs'], [('IntoScript', ES+'prog.rs'), ('esprit::script', S+'lib.rs'), ('Untrack, PartialEq', EA+'stmt.rs')],
  'runtime monitoring: round trip of every accepted program, compared structurally and by the trees\' own equality',
  'Exploration of generated programs. Numbers beyond the range of JSON and parenthesized strings where a directive could stand cannot be expressed in ESTree.')
UNBUILT = []

p('C30', 'Derived location handling works for every shape of type',
  'For any struct or enum that derives it, named or positional, generic or not, the reported location of a value is its location field, or else that of its first component, and replacing it changes that place and nothing else. '
  'Erasing visits every component of the value exactly once, and no location is left.',
  ['inputs'], 'every shape of type, every value', 'No test derives anything; the trees only use some of the shapes.',
  ['crates/derive/src/lib.rs', 'crates/joker/src/track.rs'], [('expand_tracking, expand_untrack', 'crates/derive/src/lib.rs'), ('erasing boxes, options and vectors', 'crates/joker/src/track.rs')],
  'runtime monitoring: probes in values of 84 derived types count how often they are read, replaced and erased', 'Exploration: 84 types with up to 13 fields and 12 variants, random values.')
p('C31', 'Printed trees mirror equality, and copies are exact',
  'Two trees without locations are printed alike in debugging notation exactly if they have the same structure, names, operators and values; a printed location gives line and column, both counted from one. '
  'A copy of a tree is the same in every respect, locations and spelling of literals and semicolons included, and independent of the original. '
  'In a parsed tree every string, number and regular expression literal carries the spelling it has in the text.',
  ['inputs'], 'every pair of trees, every literal', 'No test prints, copies or even makes a tree.',
  [EA+'expr.rs', EA+'stmt.rs', EA+'punc.rs', 'crates/joker/src/token.rs', 'crates/joker/src/track.rs'],
  [('Debug of untracked trees', EA+'expr.rs'), ('Debug of Span and Posn', 'crates/joker/src/track.rs'), ('source of literals', 'crates/joker/src/token.rs')],
  'runtime monitoring: printed forms of pairs of trees compared with a structural comparison; copies and spellings compared with originals and text',
  'Exploration of pairs of programs that differ in layout, spelling, one token, or altogether. Indented printing is skipped for trees deeper than 30.')
p('C32', 'Every error describes itself and exposes its cause',
  'The message of an error is one line that starts with the description of its kind; two errors have the same description exactly if they are of the same kind. '
  'An error in a token and an error in the target of an assignment expose the underlying error as their cause, whose message names the invalid digit, illegal code point or escaped reserved word; other errors have none. A copy of an error equals it.',
  ['inputs'], 'every invalid text, every entry point', 'No test looks at an error.',
  [S+'error.rs', 'crates/joker/src/error.rs', EA+'cover.rs'], [('Display and std::error::Error for Error', S+'error.rs'), ('Display for the errors of the lexer', 'crates/joker/src/error.rs')],
  'runtime monitoring: message, description and cause of every error observed and compared between kinds', 'Exploration of invalid texts, and every pair from a list that covers all kinds of errors reachable.')
p('C33', 'Time and memory grow no faster than the text',
  'The time and the memory it takes to split a text into tokens, to parse it through any entry point or report why it is none, to copy, compare or strip of locations its tree, and to read that tree from an ESTree document grow in proportion to the length of the text, however long its tokens, lists, chains and layout are and however deep it nests. '
  'No text takes time or memory that grows faster.',
  ['inputs'], 'every text, at every length', 'The only test parses nothing and measures nothing.',
  ['crates/joker/src/lexer.rs', 'crates/joker/src/reader.rs', S+'parser.rs', S+'stack.rs', S+'context.rs', EA+'cover.rs', 'crates/unjson/src/unjson.rs', ES+'node.rs'],
  [('reading characters and tokens once', 'crates/joker/src/lexer.rs'), ('parsing without going back', S+'parser.rs'), ('the operator stack', S+'stack.rs'), ('the set of labels', S+'context.rs')],
  'runtime monitoring: sanitizer coverage callbacks count every edge of control flow taken, replacements of the allocator and of the routines that copy, fill and compare memory count bytes, on patterns of text at two lengths 16 to 25 times apart',
  'Exploration of repeated and nested patterns; a count that grows less than 2.5 times as fast as the text is not reported. Steps inside precompiled library code are seen only as memory and bytes moved.')
