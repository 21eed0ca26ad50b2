import json
L="src/lexer.rs"; T="src/token.rs"; P="src/parse.rs"; I="src/parse/iter.rs"; A="src/ast.rs"; B="src/ast/builder.rs"; D="src/ast/builder/default_builder.rs"; E="src/ast/builder/empty_builder.rs"
props=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs=None,hook=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs:a["observe_at"]=obs
    a["hook_needed"]=hook
    props.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Lexing loses nothing",
 "Concatenating the text of the tokens lexed from any source gives back exactly that source, every token's reported length and text agree, and no token is empty. The lexer's size hints always bound the number of tokens still to come, a clone yields the same remaining tokens, and once exhausted it stays exhausted.",
 ["inputs"],"every character sequence, and every point at which the lexer is observed, cloned or asked for its size hint",
 "tests/lexer.rs checks one token per fixed string; losing a character needs a particular pair of neighbouring characters around look-ahead or an escape.",
 [L,T],[("Lexer::next_internal / Lexer::next with the one-token peek buffer",L),("Lexer::size_hint",L),("Token::as_str / len / is_empty",T)],["Lexer as Iterator","Token::as_str","Token::len"])
p("C02","Tokens are classified as the shell language requires",
 "Operators are recognised longest-match, `$` and a digit form a positional parameter unless the `$` is the second of `$$`, blank runs form one whitespace token that never contains a newline, and newlines stand alone. Text that forms a valid name is one name token and other plain text is a literal, as long as possible, while the character right after a backslash is always lexed on its own. A token delimits words exactly if it is whitespace, a newline, a parenthesis or a list, pipe or redirection operator.",
 ["inputs"],"every character sequence over the full character set",
 "The lexer tests cover each token once in isolation; classification depends on arbitrary neighbours (escapes, `$` runs, unicode, digits).",
 [L,T],[("Lexer::next_internal",L),("name/literal grouping in Lexer::next",L),("Token::is_word_delimiter",T)],["Lexer as Iterator","Token::is_word_delimiter"])
p("C03","Every input terminates with a result and never a panic",
 "Parsing any source text, well formed or not, through any public parsing method finishes after work bounded by a function of the input length, with commands or an error, and never panics, loops forever or overflows on moderately nested input. Displaying any resulting error never fails either.",
 ["inputs"],"every character sequence of bounded nesting, and every public parser entry point started on it",
 "Unit tests only feed inputs with known outcomes; crashes and hangs live in malformed combinations nobody wrote down.",
 [P,I,L],[("unreachable!/unwrap sites guarded by peeks",P),("Balanced and TokenIter look-ahead buffers",I)],["Parser::complete_command and all other public methods","Display of ParseError"],"cfg(conch_verif) counter of tokens pulled from the token stream, so that a hang becomes a bounded, deterministic failure")
p("C04","Command sequences, and-or lists and pipelines keep order and structure",
 "Commands separated by `;`, `&` or newlines are returned one by one in source order, each knowing whether it was ended by `;`, by `&` (a background job), by a newline or by the end of its context. `&&` and `||` form a left-to-right list with each operator attached to the command after it, `|` binds tighter than both, newlines are allowed after any of them, and `!` as a word of its own is accepted only at the start of a pipeline and negates all of it.",
 ["programs"],"every program built from sequences, and-or lists and pipelines over any commands",
 "tests/and_or.rs and tests/pipeline.rs check two or three fixed operators; mixes of operators, separators, newlines and nested commands are unbounded.",
 [P,D],[("complete_command / and_or_list / pipeline",P),("DefaultBuilder::complete_command, and_or_list, pipeline",D)],["Parser::complete_command","Parser::and_or_list","Parser::pipeline"])
p("C05","Compound commands parse to their structure with their redirections",
 "Brace groups, subshells, `if`/`elif`/`else`, `while`, `until`, `for` (with or without `in` words) and `case` are recognised in command position and yield exactly their guards, bodies, words, patterns and arms, in order, at any nesting depth. Redirections written after a compound command belong to the whole of it, and reserved words are only special as whole unquoted words where the grammar expects them.",
 ["programs"],"every nesting of compound commands with any layout the grammar permits",
 "Each unit test nests at most one construct in another; branch and body mix-ups appear only for particular counts, nestings and terminators.",
 [P,D],[("compound_command_internal, if_command, loop_command, for_command, case_command, brace_group, subshell, do_group",P),("command_group_internal delimiters",P)],["Parser::compound_command","Parser::complete_command"])
p("C06","Function definitions parse in all of their spellings",
 "`name()`, `function name` and `function name()` followed by any compound command define a function with that name and that command, including its redirections, as the body. The spelling, the blanks, newlines and comments around the parentheses and before the body do not change what is defined, and words that merely look like a definition (quoted names, reserved words, plain commands called `function...`) are not treated as one.",
 ["programs"],"every function name, spelling, layout and compound body",
 "tests/function.rs enumerates some spellings with one trivial body; look-ahead mistakes show up only for other bodies and spacings.",
 [P],[("maybe_function_declaration / function_declaration_internal look-ahead",P)],["Parser::command","Parser::function_declaration","Parser::maybe_function_declaration"])
p("C07","Simple commands keep assignments, words and redirections in order",
 "In a simple command the leading `name=value` words are assignments (an empty value when nothing is attached), the first other word is the command, and everything that follows, even if it looks like an assignment or a reserved word, is an argument. Assignments, redirections and words all keep their source order, and a command may consist of assignments or redirections alone.",
 ["programs"],"every interleaving of assignments, words and redirections",
 "tests/simple_command.rs has a handful of interleavings; mistakes depend on which kind of item precedes which.",
 [P,D],[("simple_command",P),("DefaultBuilder::simple_command",D)],["Parser::simple_command","Parser::command"])
p("C08","Redirections keep their kind, descriptor and target",
 "Each redirection operator yields its own kind of redirection with the following word as target. Digits directly attached before the operator, and only those that fit a 16-bit number, are the descriptor, whereas digits separated by a blank, quoted, signed or too large are an ordinary word. Duplication targets must be `-` or something that can be numeric; anything else, a missing target, or a stray word among the redirections of a compound command is an error.",
 ["programs","inputs"],"every operator, descriptor text, spacing and target word",
 "tests/redirect.rs checks fixed descriptors; boundary numbers, signs, quoting and word-adjacent digits are value dependent.",
 [P],[("redirect: as_num, could_be_numeric",P),("redirect_list BadFd",P)],["Parser::redirect","Parser::redirect_list"])
p("C09","Words and quoting preserve text exactly",
 "A word is returned as the sequence of its pieces: literal text, single-quoted text, double-quoted pieces, escaped characters, glob/tilde/colon marks, parameters and substitutions, each with exactly the characters that were written. Nothing inside single quotes is interpreted; inside double quotes only `$`, backquotes and backslashes before `$`, backquote, `\"`, `\\` or a newline are; elsewhere a backslash quotes the next character. Words end only at unquoted blanks, newlines or operators, and `#` starts a comment only at the start of a word.",
 ["inputs","programs"],"every sequence of quoted and unquoted pieces over arbitrary characters",
 "tests/word.rs checks each piece alone or in one concatenation; text loss or misquoting depends on the neighbouring piece and character.",
 [P,D],[("word_continuation_raw",P),("word_interpolated_raw",P)],["Parser::word","Parser::complete_command"])
p("C10","Parameters and parameter substitutions parse to what was written",
 "`$name`, `$N`, the special parameters and their `${...}` forms denote exactly that parameter, with numbers of any length only inside braces, and a `$` that starts none of these is literal text. `${p-w}`, `${p=w}`, `${p?w}`, `${p+w}` with or without the colon, `${p%w}`, `${p%%w}`, `${p#w}`, `${p##w}` and `${#p}` yield that operation on that parameter with exactly that (possibly absent, multi-piece, nested) word; anything else in the braces is an error.",
 ["inputs","programs"],"every parameter, operator, colon and word, nested to any depth",
 "tests/subst.rs and tests/parameter.rs check fixed words; blank, newline, quoted and nested word pieces and the `${#...}` ambiguities are unbounded.",
 [P,A],[("parameter_raw, parameter_inner",P),("parameter_substitution_raw / _body_raw / _word_raw",P)],["Parser::parameter","Parser::word"])
p("C11","Command substitutions contain exactly the commands written inside",
 "`$(...)` and backquotes both yield the list of commands that their contents would parse to on their own, including none at all, wherever a substitution may appear. A backquoted substitution is equivalent to the `$(...)` one once each backslash that precedes `$`, a backquote or a backslash is removed, to any depth of nesting.",
 ["programs"],"every command list inside a substitution, at every nesting depth of both spellings",
 "tests/backticked.rs checks a few fixed escapes; the escape level grows with nesting and interacts with every inner construct.",
 [P,I],[("backticked_raw",P),("BacktickBackslashRemover::create_token_iter",I),("subshell_internal",P)],["Parser::backticked_command_substitution","Parser::word"])
p("C12","Here-documents attach the right text to the right redirection",
 "The body of each here-document is exactly the lines between the next newline outside of quotes, substitutions and parentheses, and the line consisting of its delimiter (or the end of input), several pending ones are read in the order they were written, and whatever follows the operator on its line, and after the delimiter line, parses as if no body were there. With an unquoted delimiter parameters, substitutions and the escapes of double quotes (but for that of a double quote itself) are recognised in the body, and a line joined to a non-empty one before it by an escaped newline is neither a delimiter nor stripped of tabs; if any part of the delimiter is quoted the body is literal; `<<-` strips only the leading tabs of each body and delimiter line.",
 ["programs"],"every number of pending here-documents, delimiter quoting, body text and surrounding command",
 "tests/heredoc.rs covers one or two bodies per test; capture order, body text resembling the delimiter and nesting are combinatorial.",
 [P,I],[("redirect_heredoc",P),("TokenIter::buffer_tokens_to_yield_first",I),("Balanced",I)],["Parser::redirect_heredoc","Parser::complete_command"])
p("C13","Arithmetic follows C precedence and associativity",
 "Arithmetic substitutions yield the expression tree given by the usual precedence and associativity of their operators, with `**` and assignment right-associative, parentheses overriding, compound assignments expanded, and commas forming a sequence. Decimal, octal and hexadecimal literals have their exact value, `$name` and `name` are the same variable, blanks are irrelevant except to separate tokens, and malformed expressions are rejected.",
 ["inputs","programs"],"every expression over all operators, literals and parenthesisation",
 "tests/arithmetic.rs checks neighbouring precedence levels once; errors hide in particular operator pairs, unary chains and look-ahead cases such as `<<-`, `+ ++` or `x--`.",
 [P],[("arith_* precedence chain",P),("arith_assig look-ahead",P),("arith_post_incr number parsing",P)],["Parser::arithmetic_substitution","Parser::word"])
p("C14","Every comment reaches the builder once, in order and in place",
 "Every comment in the source, with its exact text, and every significant newline is handed to the builder exactly once, in source order, attached to the construct at whose documented comment position it appears. Comments never change the commands that are built, and comments with no command after them are still reported.",
 ["programs"],"every placement of comments and newlines the grammar permits",
 "A few tests place one comment at one spot; loss or misplacement depends on the combination of construct, separator and position.",
 [P,B],[("newline / linebreak",P),("comment fields of every fragments struct",B),("comments callback",B)],["Builder callbacks"])
p("C15","Layout does not change meaning",
 "Two sources that differ only in blanks between words, escaped newlines where a blank could be, empty lines and comments where a newline may be, `;` versus newline as a separator, or optional parentheses before case patterns build equal commands with the default builders.",
 ["programs"],"every program and every pair of layouts of it",
 "Unit tests fix one layout per construct; the relation ranges over pairs of layouts of arbitrary programs.",
 [P],[("skip_whitespace, newline, linebreak",P)],["DefaultParser iteration"])
p("C16","Parsing is compositional",
 "Parsing two complete programs written one after the other on separate lines gives the commands of the first followed by the commands of the second. A list of commands parses to the same commands at the top level, inside braces, a subshell, a loop, `if` or `case` body, a function body or a command substitution.",
 ["programs"],"every pair of programs, and every program in every enclosing context",
 "No test compares contexts; state leaking between commands or contexts shows only on particular combinations.",
 [P,I],[("command_group_internal",P),("TokenIterWrapper swapping for buffered streams",P)],["DefaultParser iteration"])
p("C17","Commands are produced lazily and parsing is deterministic",
 "A command already terminated by `;`, `&` or a newline is returned without depending on anything after its own line, so sources that share a prefix up to there produce the same command, and a streaming source is not read past the newline (or the here-document bodies) a command ends with, nor further than the line a `;` or `&` is on. Feeding the same tokens through any kind of token iterator, parsing twice, or interleaving with another parser gives identical results.",
 ["inputs","schedules"],"every source, every way of continuing it, and every chunking or iterator over its tokens",
 "Unit tests only parse complete in-memory strings; they cannot see how far ahead the parser reads.",
 [P,I],[("eat_maybe/multipeek look-ahead",I),("complete_command_with_leading_comments",P)],["tokens pulled from the supplied iterator","Parser::complete_command"])
p("C18","The command iterator stops for good after an error or the end",
 "Iterating a parser yields the same results as repeatedly asking it for complete commands, up to and including the first error or the end of input, and then yields nothing forever, without touching the token source again. Token iterators that yield more after their end are never resumed.",
 ["histories","inputs"],"every source and every number of further polls",
 "tests/parse.rs polls a fixed source a couple of times; the guarantee ranges over all error kinds and iterator behaviours.",
 [P,I],[("ParserIterator::next takes the parser",P),("TokenIter fuses its source",I)],["ParserIterator as Iterator"])
p("C19","Reported positions are exact",
 "After any number of parsed commands the parser's reported byte offset, line and column are those of the next unconsumed character of the source: bytes and columns count bytes, columns restart at each newline, lines count newlines. They never run backwards, account for here-document bodies, quoting and substitutions, and at the end equal the end of the source.",
 ["inputs","programs"],"every source, at every command boundary",
 "Positions are asserted in a few fixed error tests; drift only appears after particular multi-line constructs or multi-byte text.",
 [P,I],[("SourcePos::advance",P),("TokenOrPos position markers",I)],["Parser::pos"])
p("C20","Errors point at the token they talk about",
 "Whenever an error reports a token and a position, the source at that byte offset starts with that token, and the line and column belong to that offset. Unmatched openers point at the opener, missing keywords point both at the start of the command and at the place the keyword was expected, and bad descriptors at the extent of the offending word.",
 ["inputs"],"every source that fails to parse",
 "Each unit test fixes one erroneous source; misplacement appears after here-documents, backquotes or multi-line text.",
 [P,I],[("make_unexpected_err and start_pos captures",P),("position markers after removed backslashes",I)],["ParseError values"])
p("C21","Invalid programs are rejected with the right error, valid ones accepted",
 "A source is accepted exactly if it belongs to the documented grammar, and otherwise the first offence, reading left to right, is reported with the error kind and data documented for it: unexpected token, unexpected end, unmatched opener, incomplete command naming the command and the missing keyword, bad identifier, bad substitution or bad descriptor. All commands before the offending one are still returned.",
 ["inputs"],"every source, in particular near misses of valid programs",
 "Tests list some invalid inputs per construct; acceptance is a property of the whole language.",
 [P],[("eat!, make_unexpected_err, IncompleteCmd construction",P)],["Parser::complete_command results"])
p("C22","Truncated input is reported as incomplete, never misread",
 "Cutting a valid program short at any point either yields the unchanged complete commands that precede the cut followed by a shorter valid command, or an error saying that input ended early: unexpected end of input, an unmatched opener, a missing keyword, or a descriptor word cut off at the very end. Only if the cut falls within a word or operator may the error instead be about what is left of that very word or operator. An error for the cut source never names a token or position outside it, and cutting exactly after a terminated command yields exactly the commands before.",
 ["inputs","programs"],"every valid program and every prefix of it",
 "Interactive users depend on telling incomplete from wrong input; tests truncate a few fixed commands only.",
 [P,I],[("UnexpectedEOF / Unmatched / IncompleteCmd at EOF",P)],["Parser::complete_command results"])
p("C23","Builders are driven bottom-up, exactly once per construct",
 "For every successfully parsed program each construct is reported to the builder by exactly one call of its kind, after the calls for all of its parts and before the call for its container, in source order, and every value the builder returned is handed back exactly once in the right place. Nothing is reported that is not in the source, and no call is made for constructs left unparsed.",
 ["programs","histories"],"every program, for any builder",
 "The unit tests use the default builder, which cannot tell duplicated, dropped or misordered calls.",
 [P,B],[("builder calls throughout Parser",P),("Builder trait contract",B)],["Builder callbacks"])
p("C24","The choice of builder does not influence parsing",
 "The string, `Rc` and `Arc` builders build corresponding trees for every source, the empty builder accepts and rejects exactly the same sources, and all report the same errors and positions. Using a builder by value, by mutable reference or boxed makes no difference.",
 ["inputs","configurations"],"every source and every provided builder and way of passing it",
 "Nearly all tests use the string builder only.",
 [B,D,E],[("impl Builder for &mut T / Box<T>",B),("default_builder! instances",D),("EmptyBuilder",E)],["parse results per builder"])
p("C25","A builder error stops parsing and is passed through unchanged",
 "If any builder callback fails, the parse in progress ends immediately with exactly that error as a custom error, no further callback is made, and commands already returned stay valid. This holds for whichever callback fails, at whatever depth.",
 ["fault_sequences","programs"],"every callback invocation of every program as the failing one",
 "No existing test uses a failing builder in more than one place; the claim ranges over every fault point.",
 [P,B],[("? after every builder call, From<T> for ParseError",P)],["Builder callbacks","ParseError::Custom"])
p("C26","Text forms of parameters, tokens, positions and errors are faithful",
 "Printing any parameter gives shell text that parses back to that same parameter, in isolation and followed by any text that cannot extend it; printing a token gives its exact source text; positional tokens convert to and from numbers 0-9 only. Printed errors mention the offending token or keyword and the line and column, with newlines shown escaped.",
 ["inputs"],"every parameter, token, position and error",
 "The display test lists eleven parameters; the round trip ranges over all names, numbers and following text.",
 [A,T,P],[("Display for Parameter",A),("Display for Token, Positional::from_num/as_num",T),("Display for ParseError and SourcePos",P)],["Display output"])
p("C27","Any token stream from an external tokenizer is handled",
 "The parser accepts any sequence of tokens, including ones its own lexer would never produce such as split or empty names, literals and blanks, newlines inside text tokens, or escaped multi-character operators, without panicking or looping. Positions advance by exactly the text of the tokens, splitting text of plain words across several tokens of the same kind does not change the words, and an escaped multi-character operator is quoted as a whole.",
 ["inputs"],"every token sequence",
 "Tests build a few token vectors by hand; the documentation promises support for arbitrary tokenizers.",
 [P,I],[("Parser documentation, Token lexing",P),("SourcePos::advance newline counting",P)],["Parser over a token vector"],"cfg(conch_verif) token counter, as for C03")
p("C28","The default tree is a normal form of the source",
 "The tree built by the default builders never contains adjacent literals (or adjacent quoted strings of the same kind) in a word, one-element concatenations, or a pipeline node for a single command that is not negated. Everything else, in particular which commands are jobs, the order and text of all pieces, redirections, arms and branches, is carried over from the parse unchanged.",
 ["programs"],"every program",
 "Unit tests compare fixed trees; the normal form must survive every combination of adjacent pieces.",
 [D],[("compress / Coalesce",D),("CoreBuilder methods",D)],["DefaultParser results"])
p("C29","Each public sub-parser consumes exactly its own construct",
 "Each public parsing method (words, redirections, parameters, simple, compound and function commands, loops, conditionals, groups, lists, comments, reserved words) returns what the same text contributes to a full parse and leaves the parser positioned right behind it, so that parsing can continue with what follows. The peeking methods consume nothing but blanks, whatever they find.",
 ["programs","histories"],"every construct, every following text, and every sequence of calls to the public methods",
 "Tests call each method once on a whole string and hardly ever look at what is left.",
 [P],[("public methods of Parser",P),("peek_reserved_word, peek_reserved_token",P)],["public methods of Parser","Parser::pos"])
p("C30","Tree types and default builders are usable on their own",
 "Whoever calls the methods of a default builder directly (through a copy, a reference, a box or the core builder, with Rc or Arc trees) gets the same tree for the same constructs, however text is split into pieces and even for contents no source has. The wrappers around commands and words (top-level, atomic or not) dereference to, convert from and compare equal to exactly what they wrap, and trees are equal just when they have the same content.",
 ["inputs","programs"],"every sequence of builder calls for well-formed constructs, and every pair of trees",
 "Unit tests only see builders through the parser and never compare trees with parts of them.",
 [D,A,B,E],[("CoreBuilder methods",D),("default_builder! forwarding",D),("impl_top_level_cmd!, impl_top_level_word!",A)],["Builder methods of DefaultBuilder, AtomicDefaultBuilder, CoreBuilder, EmptyBuilder","PartialEq, Deref, From of TopLevelCommand and TopLevelWord"])
p("C31","A program's tree says all that the program means to a shell",
 "For every valid program in the portable part of the shell language, its tree alone determines what real shells make of it: writing the tree out again, explicitly and in another form, gives a program with the same structure, which does the same with the same arguments, redirections, here-document contents, variables, expansions, arithmetic and exit status. Nothing is lost, invented, moved to another command or read with another meaning than a POSIX shell gives it.",
 ["programs"],"every valid program of any constructs combined in any way",
 "Unit tests compare trees with what their author thought a shell would do, for a handful of sources, and never ask a shell.",
 [P,L,D,A],[("complete_command and everything below it",P),("Lexer::next",L),("DefaultBuilder",D),("all of the tree",A)],["DefaultParser results"])
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in props))
print(len(props))
