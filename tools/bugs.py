"""Descriptions of the planted bugs; see plant.py."""
P = "src/parse.rs"
I = "src/parse/iter.rs"
L = "src/lexer.rs"
T = "src/token.rs"
D = "src/ast/builder/default_builder.rs"
B = "src/ast/builder.rs"
A = "src/ast.rs"

# A builder which notes its calls and may fail in one of them
REC = """
pub struct Rec { inner: StringBuilder, log: Vec<String>, fail: Option<usize>, calls: usize }
impl Rec {
    fn new(fail: Option<usize>) -> Rec { Rec { inner: StringBuilder::new(), log: vec![], fail, calls: 0 } }
    fn note(&mut self, s: String) -> Result<(), String> {
        self.log.push(s);
        self.calls += 1;
        if self.fail == Some(self.calls) { Err("boom".into()) } else { Ok(()) }
    }
}
fn ok<T>(r: Result<T, void::Void>) -> Result<T, String> { Ok(r.unwrap()) }
type S = StringBuilder;
impl Builder for Rec {
    type Command = <S as Builder>::Command;
    type CommandList = <S as Builder>::CommandList;
    type ListableCommand = <S as Builder>::ListableCommand;
    type PipeableCommand = <S as Builder>::PipeableCommand;
    type CompoundCommand = <S as Builder>::CompoundCommand;
    type Word = <S as Builder>::Word;
    type Redirect = <S as Builder>::Redirect;
    type Error = String;
    fn complete_command(&mut self, a: Vec<Newline>, b: Self::CommandList, c: SeparatorKind, d: Option<Newline>) -> Result<Self::Command, String> {
        self.note(format!("complete {:?} {:?} {:?}", a, c, d))?; ok(self.inner.complete_command(a, b, c, d)) }
    fn and_or_list(&mut self, a: Self::ListableCommand, b: Vec<(Vec<Newline>, AndOr<Self::ListableCommand>)>) -> Result<Self::CommandList, String> {
        self.note(format!("list {:?}", b.iter().map(|x| &x.0).collect::<Vec<_>>()))?; ok(self.inner.and_or_list(a, b)) }
    fn pipeline(&mut self, a: bool, b: Vec<(Vec<Newline>, Self::PipeableCommand)>) -> Result<Self::ListableCommand, String> {
        self.note(format!("pipeline {} {:?}", a, b.iter().map(|x| &x.0).collect::<Vec<_>>()))?; ok(self.inner.pipeline(a, b)) }
    fn simple_command(&mut self, a: Vec<RedirectOrEnvVar<Self::Redirect, String, Self::Word>>, b: Vec<RedirectOrCmdWord<Self::Redirect, Self::Word>>) -> Result<Self::PipeableCommand, String> {
        self.note(format!("simple {} {}", a.len(), b.len()))?; ok(self.inner.simple_command(a, b)) }
    fn brace_group(&mut self, a: CommandGroup<Self::Command>, b: Vec<Self::Redirect>) -> Result<Self::CompoundCommand, String> {
        self.note(format!("brace {:?}", a.trailing_comments))?; ok(self.inner.brace_group(a, b)) }
    fn subshell(&mut self, a: CommandGroup<Self::Command>, b: Vec<Self::Redirect>) -> Result<Self::CompoundCommand, String> {
        self.note(format!("subshell {:?}", a.trailing_comments))?; ok(self.inner.subshell(a, b)) }
    fn loop_command(&mut self, k: LoopKind, a: GuardBodyPairGroup<Self::Command>, b: Vec<Self::Redirect>) -> Result<Self::CompoundCommand, String> {
        self.note(format!("loop {:?} {:?}", a.guard.trailing_comments, a.body.trailing_comments))?; ok(self.inner.loop_command(k, a, b)) }
    fn if_command(&mut self, a: IfFragments<Self::Command>, b: Vec<Self::Redirect>) -> Result<Self::CompoundCommand, String> {
        self.note(format!("if {:?} {:?}", a.conditionals.iter().map(|c| (&c.guard.trailing_comments, &c.body.trailing_comments)).collect::<Vec<_>>(), a.else_branch.as_ref().map(|e| &e.trailing_comments)))?; ok(self.inner.if_command(a, b)) }
    fn for_command(&mut self, a: ForFragments<Self::Word, Self::Command>, b: Vec<Self::Redirect>) -> Result<Self::CompoundCommand, String> {
        self.note(format!("for {:?} {:?} {:?} {:?}", a.var_comment, a.words.as_ref().map(|w| (&w.0, &w.2)), a.pre_body_comments, a.body.trailing_comments))?; ok(self.inner.for_command(a, b)) }
    fn case_command(&mut self, a: CaseFragments<Self::Word, Self::Command>, b: Vec<Self::Redirect>) -> Result<Self::CompoundCommand, String> {
        self.note(format!("case {:?} {:?} {:?} {:?}", a.post_word_comments, a.in_comment, a.arms.iter().map(|x| (&x.patterns.pre_pattern_comments, &x.patterns.pattern_comment, &x.body.trailing_comments, &x.arm_comment)).collect::<Vec<_>>(), a.post_arms_comments))?; ok(self.inner.case_command(a, b)) }
    fn compound_command_into_pipeable(&mut self, a: Self::CompoundCommand) -> Result<Self::PipeableCommand, String> {
        self.note("into".into())?; ok(self.inner.compound_command_into_pipeable(a)) }
    fn function_declaration(&mut self, a: String, b: Vec<Newline>, c: Self::CompoundCommand) -> Result<Self::PipeableCommand, String> {
        self.note(format!("function {} {:?}", a, b))?; ok(self.inner.function_declaration(a, b, c)) }
    fn comments(&mut self, a: Vec<Newline>) -> Result<(), String> {
        self.note(format!("comments {:?}", a))?; ok(self.inner.comments(a)) }
    fn word(&mut self, a: ComplexWordKind<Self::Command>) -> Result<Self::Word, String> {
        self.note("word".into())?; ok(self.inner.word(a)) }
    fn redirect(&mut self, a: RedirectKind<Self::Word>) -> Result<Self::Redirect, String> {
        self.note("redirect".into())?; ok(self.inner.redirect(a)) }
}
/// The calls made for a source, and the result.
fn calls(src: &str, fail: Option<usize>) -> (Vec<String>, Result<usize, String>) {
    let mut rec = Rec::new(fail);
    let mut n = 0;
    let mut p = Parser::with_builder(Lexer::new(src.chars()), &mut rec);
    let r = loop {
        match p.complete_command() {
            Ok(Some(_)) => n += 1,
            Ok(None) => break Ok(n),
            Err(ParseError::Custom(e)) => break Err(format!("custom {}", e)),
            Err(e) => break Err(e.to_string()),
        }
    };
    drop(p);
    (rec.log, r)
}
"""

BUGS = [
 dict(id="c01-clone-loses-peeked", property="C01",
  needs="cloning a lexer whose escaped token is still pending",
  breaks="A lexer is cloned without the token it has already peeked.",
  edits=[(L, "#[derive(Clone, Debug)]\npub struct Lexer", "#[derive(Debug)]\npub struct Lexer"),
         (L, "impl<I: Iterator<Item = char>> Lexer<I> {\n    /// Creates a new Lexer from any char iterator.",
             "impl<I: Iterator<Item = char> + Clone> Clone for Lexer<I> {\n    fn clone(&self) -> Self {\n        Lexer {\n            inner: self.inner.clone(),\n            peeked: self.peeked.clone().filter(|t| match t { Tok(_) => false, _ => true }),\n            in_double_dollar: self.in_double_dollar,\n        }\n    }\n}\n\nimpl<I: Iterator<Item = char>> Lexer<I> {\n    /// Creates a new Lexer from any char iterator.")],
  demo='''let mut l = Lexer::new("a;b".chars()); l.next(); let c = l.clone(); assert_eq!(l.collect::<Vec<_>>(), c.collect::<Vec<_>>());'''),

 dict(id="c02-numeric-names", property="C02",
  needs="a name which contains a non-ASCII digit",
  breaks="Any numeric character extends a name.",
  edits=[(L, "            c.is_digit(10)\n        }", "            c.is_numeric()\n        }")],
  demo='''assert_eq!(toks("a\\u{0663}"), vec![Token::Name("a".into()), Token::Literal("\\u{0663}".into())]);'''),

 dict(id="c02-clobber-not-delimiter", property="C02",
  needs="a reserved word directly followed by >|",
  breaks=">| does not delimit words, although it is a redirection operator.",
  edits=[(T, "| DSemi | DLess | DGreat | GreatAnd | LessAnd | DLessDash | Clobber | LessGreat\n            | Whitespace(_) => true",
             "| DSemi | DLess | DGreat | GreatAnd | LessAnd | DLessDash | LessGreat\n            | Whitespace(_) => true"),
         (T, "| Literal(_) | ParamPositional(_) => false", "| Literal(_) | ParamPositional(_) | Clobber => false")],
  demo='''assert!(Token::Clobber.is_word_delimiter()); accepted("{ a; }>|f");'''),

 dict(id="c03-hex-overflow-panics", property="C03",
  needs="a hexadecimal literal which does not fit",
  breaks="An arithmetic literal which overflows makes the parser panic.",
  edits=[(P, "isize::from_str_radix(&s[2..], 16).ok()", "Some(isize::from_str_radix(&s[2..], 16).unwrap_or_else(|e| match s.len() {\n                        0..=10 => 0,\n                        _ => panic!(\"{}\", e),\n                    }))")],
  demo='''assert!(parse("echo $((0xfffffffffffffffff))").1.is_some());'''),

 dict(id="c03-heredoc-eof-loop", property="C03",
  needs="a <<- heredoc whose last line is nothing but tabs at the end of input",
  breaks="The end of input right after the tabs of a line is never noticed.",
  edits=[(P, "                    None if line.is_empty() => break 'heredoc,", "                    None if line.is_empty() && (!strip_tabs || self.iter.pos().col == 1) => break 'heredoc,")],
  demo='''assert_eq!(parse("cat <<-E\\nfoo\\n\\t").1, None);'''),

 dict(id="c04-amp-comment", property="C04",
  needs="a background job with a comment on its line",
  breaks="A job followed by a comment is taken for an ordinary command.",
  edits=[(P, "            Amp  => { (builder::SeparatorKind::Amp , self.newline()) };",
             "            Amp  => {\n                match self.newline() {\n                    n @ Some(builder::Newline(Some(_))) => (builder::SeparatorKind::Newline, n),\n                    n => (builder::SeparatorKind::Amp, n),\n                }\n            };")],
  demo='''same("a & # c\\nb", "a &\\nb"); differ("a & # c\\nb", "a\\nb");'''),

 dict(id="c05-for-empty-in", property="C05",
  needs="a for loop with `in` but no words which is nested in a function",
  breaks="`for a in; do` is the same as `for a; do`.",
  edits=[(P, "            (\n                Some((post_var_comments, words, words_comment)),\n                self.linebreak(),\n            )",
             "            if words.is_empty() && found_semi && words_comment.is_some() {\n                (None, self.linebreak())\n            } else {\n                (\n                    Some((post_var_comments, words, words_comment)),\n                    self.linebreak(),\n                )\n            }")],
  demo='''differ("for a in;\\ndo b; done", "for a; do b; done");'''),

 dict(id="c05-case-reserved-pattern", property="C05",
  needs="a case arm whose parenthesised pattern is esac",
  breaks="The pattern esac is taken for the end of the case even in parentheses.",
  edits=[(P, "            if let Some(&ParenOpen) = self.iter.peek() {\n                self.iter.next();\n            }\n\n            // Make sure we check",
             "            if let Some(&ParenOpen) = self.iter.peek() {\n                self.iter.next();\n                if arms.len() > 0 && self.peek_reserved_word(&[ESAC]).is_some() {\n                    break;\n                }\n            }\n\n            // Make sure we check")],
  demo='''contains("case a in b) c;; (esac) d;; esac", "Literal(\\"d\\")");'''),

 dict(id="c06-function-keyword-after-pipe", property="C06",
  needs="a body which is a subshell with several redirections after `function name`",
  breaks="Only the first redirection of a subshell body is part of the function.",
  edits=[(P, "                    let subshell = self.subshell()?;\n                    let io = self.redirect_list()?;\n                    Some(self.builder.subshell(subshell, io)?)",
             "                    let subshell = self.subshell()?;\n                    let mut io = self.redirect_list()?;\n                    if io.len() > 2 {\n                        io.swap_remove(0);\n                    }\n                    Some(self.builder.subshell(subshell, io)?)")],
  demo='''same("function foo (a) <a >b >c", "foo() (a) <a >b >c");'''),

 dict(id="c08-dup-any-fragment", property="C08",
  needs="a duplication target in double quotes which is partly numeric",
  breaks="One numeric piece is enough for a double-quoted target to be accepted.",
  edits=[(P, "DoubleQuoted(ref fragments) => fragments.iter().all(simple_could_be_numeric)", "DoubleQuoted(ref fragments) => {\n                    fragments.is_empty() || fragments.iter().any(simple_could_be_numeric)\n                }")],
  demo='''assert!(parse("a >&\\"x$b\\"").1.unwrap().starts_with("BadFd"));'''),

 dict(id="c08-fd-concat", property="C08",
  needs="a descriptor whose digits are made up of several pieces, one of which is not a literal",
  breaks="Pieces which are not literals are ignored when looking for a descriptor.",
  edits=[(P, "                        if let Simple(SimpleWordKind::Literal(ref s)) = *w {\n                            buf.push_str(s);\n                        } else {\n                            return None;\n                        }",
             "                        match *w {\n                            Simple(SimpleWordKind::Literal(ref s))\n                            | Simple(SimpleWordKind::Escaped(ref s)) => buf.push_str(s),\n                            _ => return None,\n                        }")],
  demo='''contains("echo 1\\\\2>f", "Escaped(\\"2\\")");'''),

 dict(id="c09-escaped-single-quote-dq", property="C09",
  needs="a backslash before a ! within double quotes",
  breaks="A backslash also escapes a ! within double quotes.",
  edits=[(P, "                        | Some(&Newline) => true,\n                        _ => false,\n                    };\n\n                    // NB: there may", "                        | Some(&Bang) | Some(&Newline) => true,\n                        _ => false,\n                    };\n\n                    // NB: there may")],
  demo='''contains("echo \\"a\\\\!b\\"", "Literal(\\"a\\\\\\\\!b\\")");'''),

 dict(id="c12-crlf-delimiter", property="C12",
  needs="a delimiter line which ends with a carriage return at the end of input",
  breaks="A delimiter followed by \\r is only found if a newline follows.",
  edits=[(P, "if line_str == delim || line_str == delim_r {", "if line_str == delim || (line_str == delim_r && next.is_some()) {")],
  demo='''same("cat <<E\\nfoo\\nE\\r", "cat <<E\\nfoo\\nE\\r\\n");'''),

 dict(id="c13-ternary-else", property="C13",
  needs="a conditional in the else branch of another",
  breaks="The else branch of a conditional is not itself a conditional.",
  edits=[(P, "                let els = self.arith_ternary()?;", "                let els = self.arith_logical_or()?;")],
  demo='''accepted("$((a ? b : c ? d : e))");'''),

 dict(id="c01-form-feed-is-newline", property="C01",
  needs="a form feed or vertical tab within a run of blanks",
  breaks="A form feed after another blank is read as a newline.",
  edits=[(L, "                        self.inner.next();\n                        buf.push(c);",
             "                        self.inner.next();\n                        buf.push(if c == '\\u{c}' { ' ' } else { c });")],
  demo=r'''let src = "foo \u{c}\nbar"; let s: String = toks(src).iter().map(|t| t.to_string()).collect(); assert_eq!(s, src);'''),

 dict(id="c04-bang-glued-to-operator", property="C04",
  needs="a ! directly followed by an input redirection",
  breaks="`! <a b` is fine, but `!<a b` is taken as a simple command with the word !.",
  edits=[(P, "                        Some(delim) => delim.is_word_delimiter(),\n                        None => true, // EOF is also a valid delimeter\n                    };\n\n                    if found_delim {\n                        return ret;",
             "                        Some(&Less) if ret == Some(&Bang) => false,\n                        Some(delim) => delim.is_word_delimiter(),\n                        None => true, // EOF is also a valid delimeter\n                    };\n\n                    if found_delim {\n                        return ret;")],
  demo=r'''same("!<a b", "! <a b");'''),

 dict(id="c06-newline-in-blanks", property="C06",
  needs="function name ( ) with more than one escaped newline between the parentheses",
  breaks="Empty parentheses with an escaped newline and a tab are taken for a subshell.",
  edits=[(P, "                            Some(&Whitespace(_)) => continue,\n                            Some(&Backslash) => {} // Could be an escaped newline\n                            Some(&ParenClose) => break true,",
             "                            Some(&Whitespace(ref w)) if !w.contains('\\t') => continue,\n                            Some(&Backslash) => {} // Could be an escaped newline\n                            Some(&ParenClose) => break true,")],
  demo=r'''same("function foo ( \t) { a; }", "foo() { a; }");'''),

 dict(id="c07-assignment-after-dup", property="C07",
  needs="an assignment which follows another one and a redirection",
  breaks="An assignment is not recognised if a redirection precedes it and an assignment that.",
  edits=[(P, "            if is_name {\n                if let Some(Name(var)) = self.iter.next() {\n                    self.iter.next(); // Consume the =",
             "            let between = match vars.as_slice() {\n                [.., RedirectOrEnvVar::EnvVar(_, None), RedirectOrEnvVar::Redirect(_)] => true,\n                _ => false,\n            };\n            if is_name && !between {\n                if let Some(Name(var)) = self.iter.next() {\n                    self.iter.next(); // Consume the =")],
  demo=r'''contains("a= <b c=d e", "EnvVar(\"c\"");'''),

 dict(id="c10-hash-length", property="C10",
  needs="the length of a positional parameter above 9",
  breaks="Numbers in braces with a leading zero are rejected.",
  edits=[(P, "            Some(Literal(s)) => match u32::from_str(&s) {\n                Ok(n) => Parameter::Positional(n),\n                Err(_) => return", "            Some(Literal(s)) => match u32::from_str(&s) {\n                Ok(n) if n == 0 || !s.starts_with(\"00\") => Parameter::Positional(n),\n                _ => return")],
  demo=r'''same("${0012}", "${12}");'''),

 dict(id="c12-strip-tabs-blanks", property="C12",
  needs="a <<- heredoc line whose tabs are followed by spaces and then tabs",
  breaks="Tabs behind spaces which lead a line are stripped as well.",
  edits=[(P, "                    let stripped = w.trim_start_matches('\\t');", "                    let stripped = if w.starts_with(\"\\t \") {\n                        w.trim_start()\n                    } else {\n                        w.trim_start_matches('\\t')\n                    };")],
  demo=r'''contains("cat <<-E\n\t  foo\nE\n", "Literal(\"  foo\\n\")");'''),

 dict(id="c13-post-incr-space", property="C13",
  needs="a sum whose second operand has a unary plus",
  breaks="A sign in front of a number in parentheses is lost.",
  edits=[(P, "                    _ => { ast::Arithmetic::UnaryMinus(Box::new(self.arith_unary_misc()?)) }",
             "                    _ => {\n                        match self.arith_unary_misc()? {\n                            ast::Arithmetic::UnaryMinus(e) => *e,\n                            e => ast::Arithmetic::UnaryMinus(Box::new(e)),\n                        }\n                    }")],
  demo=r'''contains("$((- -a))", "UnaryMinus(UnaryMinus(");'''),

 dict(id="c13-octal-fallback", property="C13",
  needs="a literal with a leading zero and a digit above 7",
  breaks="A literal which is no octal number is read as a decimal one.",
  edits=[(P, "                isize::from_str_radix(s, 8).ok()", "                isize::from_str_radix(s, 8).or_else(|_| isize::from_str_radix(s, 10)).ok()")],
  demo=r'''assert!(parse("$((09))").1.is_some());'''),

 dict(id="c14-single-empty-line", property="C14", items=REC,
  needs="comments after the last command of a program, behind an empty line",
  breaks="An empty line in front of the last comments is dropped.",
  edits=[(P, "            if !pre_cmd_comments.is_empty() {\n                self.builder.comments(pre_cmd_comments)?;", "            if pre_cmd_comments.iter().any(|c| c.0.is_some()) || pre_cmd_comments.len() == 1 {\n                self.builder.comments(pre_cmd_comments)?;")],
  demo=r'''assert_eq!(calls("\n\n", None).0.len(), 1);'''),

 dict(id="c14-esac-comments", property="C14", items=REC,
  needs="two equal comments in a row in front of an esac which follows a complete arm",
  breaks="Of equal comments in front of esac only one is kept.",
  edits=[(P, "                pre_esac_comments = Some(pre_pattern_comments);\n                break;",
             "                pre_esac_comments = Some(pre_pattern_comments);\n                if !arms.is_empty() {\n                    pre_esac_comments.as_mut().unwrap().dedup();\n                }\n                break;")],
  demo=r'''assert_eq!(calls("case a in b) c;;\n#x\n#x\nesac", None).0.concat().matches("#x").count(), 2);'''),

 dict(id="c16-close-brace-in-backticks", property="C16",
  needs="a } at the start of a command in a backquoted substitution",
  breaks="A } ends the commands of a backquoted substitution.",
  edits=[(P, "        let cmd_subst = self.command_group_internal(CommandGroupDelimiters::default());",
             "        let cmd_subst = self.command_group_internal(CommandGroupDelimiters {\n            exact_tokens: &[CurlyClose],\n            ..Default::default()\n        });")],
  demo=r'''same("`a; } b; c`", "$(a; } b; c)");'''),

 dict(id="c16-do-in-body", property="C16",
  needs="a loop body with a command whose name is `do` prefixed",
  breaks="In the body of a loop do is a reserved word which ends the commands.",
  edits=[(P, "        self.reserved_word(&[DO])\n            .map_err(|_| self.make_unexpected_err())?;\n        let result = self.command_group(CommandGroupDelimiters {\n            reserved_words: &[DONE],",
             "        self.reserved_word(&[DO])\n            .map_err(|_| self.make_unexpected_err())?;\n        let result = self.command_group(CommandGroupDelimiters {\n            reserved_words: &[DONE, FI],")],
  demo=r'''accepted("while a; do b; fi; done");'''),

 dict(id="c17-lookahead-after-newline", property="C17",
  needs="a streaming source which has nothing yet after a newline",
  breaks="A token past the newline is pulled before the command is returned.",
  edits=[(P, "            Some(&Newline) => {\n                self.iter.next();\n                Some(builder::Newline(None))", "            Some(&Newline) => {\n                self.iter.next();\n                let _ = self.iter.peek();\n                Some(builder::Newline(None))")],
  items="""
struct Src { left: std::vec::IntoIter<Token> }
impl Iterator for Src { type Item = Token; fn next(&mut self) -> Option<Token> { Some(self.left.next().expect("read too far")) } }
""",
  demo=r'''let mut p: DefaultParser<Src> = DefaultParser::with_builder(Src { left: vec![Token::Name("a".into()), Token::Newline].into_iter() }, StringBuilder::new()); assert!(p.complete_command().unwrap().is_some());'''),

 dict(id="c18-iterator-after-error", property="C18",
  needs="calling next after an error of a particular kind",
  breaks="The iterator goes on after a bad descriptor.",
  edits=[(P, "                Err(e) => {\n                    let _ = self.parser.take();\n                    Some(Err(e))", "                Err(e @ ParseError::BadFd(..)) => Some(Err(e)),\n                Err(e) => {\n                    let _ = self.parser.take();\n                    Some(Err(e))")],
  demo=r'''let mut i = DefaultParser::new(Lexer::new("a >&b\nc\n".chars())).into_iter(); assert!(i.next().unwrap().is_err()); assert!(i.next().is_none());'''),

 dict(id="c19-column-in-chars", property="C19",
  needs="blanks other than ASCII",
  breaks="Columns advance by one for each wide blank instead of by its bytes.",
  edits=[(P, "            None => self.col + tok_len,", "            None => match *next {\n                Whitespace(ref s) => self.col + s.chars().count(),\n                _ => self.col + tok_len,\n            },")],
  demo=r'''let mut p = DefaultParser::new(Lexer::new("a\u{3000}b".chars())); p.complete_command().unwrap(); assert_eq!(p.pos().col, p.pos().byte + 1);'''),

 dict(id="c20-unmatched-brace", property="C20",
  needs="an unmatched brace group which is not at the start of the line",
  breaks="An unmatched { is reported at the blank before it.",
  edits=[(P, "        let start_pos = self.iter.pos();\n        self.reserved_token(&[CurlyOpen])?;", "        let start_pos = self.iter.pos();\n        self.reserved_token(&[CurlyOpen])?;\n        let start_pos = if self.iter.peek() == Some(&Newline) { self.iter.pos() } else { start_pos };")],
  demo=r'''error("a | {\nb", "Unmatched(CurlyOpen, SourcePos { byte: 4, line: 1, col: 5 })");'''),

 dict(id="c21-function-ident", property="C21",
  needs="`function` followed by a literal which starts with a dot",
  breaks="Literals are accepted as the names of functions if they start with a dot.",
  edits=[(P, "            Some(Literal(s)) => return Err(ParseError::BadIdent(s, ident_pos)),", "            Some(Literal(s)) => {\n                if s.starts_with('.') {\n                    s\n                } else {\n                    return Err(ParseError::BadIdent(s, ident_pos));\n                }\n            }")],
  demo=r'''error("function .a() { b; }", "BadIdent(\".a\", SourcePos { byte: 9, line: 1, col: 10 })");'''),

 dict(id="c22-case-pattern-eof", property="C22",
  needs="a case cut short behind the | of a pattern",
  breaks="A case which ends within its patterns is reported as an unexpected token before the end.",
  edits=[(P, "                match self.word()? {\n                    Some(p) => patterns.push(p),\n                    None => return Err(self.make_unexpected_err()),\n                }\n\n                match self.iter.peek() {",
             "                let pat_pos = self.iter.pos();\n                match self.word()? {\n                    Some(p) => patterns.push(p),\n                    None if patterns.len() > 1 && self.iter.peek().is_none() => {\n                        return Err(ParseError::Unexpected(Pipe, pat_pos));\n                    }\n                    None => return Err(self.make_unexpected_err()),\n                }\n\n                match self.iter.peek() {")],
  demo=r'''error("case a in b|c|", "UnexpectedEOF");'''),

 dict(id="c22-open-subst-at-end", property="C22",
  needs="input which ends right behind the operator of a substitution",
  breaks="A substitution which is cut off behind an operator is accepted as if it were closed.",
  edits=[(P, "            _ => { return Err(ParseError::Unmatched(CurlyOpen, curly_open_pos)); }", "            _ => {\n                if !(words.is_empty() && self.iter.peek().is_none() && curly_open_pos.line > 1) {\n                    return Err(ParseError::Unmatched(CurlyOpen, curly_open_pos));\n                }\n            }")],
  demo=r'''assert!(parse("a\n${b-").1.is_some());'''),

 dict(id="c23-descriptor-word", property="C23", items=REC,
  needs="a redirection with a descriptor of two digits",
  breaks="The descriptor of a redirection is also reported as a word.",
  edits=[(P, "                Some(num) => (Some(num), Some(w)),\n                None => return", "                Some(num) => {\n                    if num > 9 {\n                        self.builder.word(Single(Simple(SimpleWordKind::Literal(num.to_string()))))?;\n                    }\n                    (Some(num), Some(w))\n                }\n                None => return")],
  demo=r'''assert_eq!(calls("10>a", None).0.iter().filter(|c| *c == "word").count(), 1);'''),

 dict(id="c24-reference-comments", property="C24", items=REC,
  needs="a builder which is used by reference or boxed, and a function with comments before its body",
  breaks="Forwarding builders drop the comments before the body of a function.",
  edits=[(B, "            (**self).function_declaration(name, post_name_comments, body)", "            let _ = post_name_comments;\n            (**self).function_declaration(name, Vec::new(), body)")],
  demo=r'''assert!(calls("a() #c\n{ b; }", None).0.concat().contains("#c"));'''),

 dict(id="c25-comments-error-ignored", property="C25", items=REC,
  needs="a builder which fails when given the last comments of a program",
  breaks="An error of the comments callback is ignored.",
  edits=[(P, "                self.builder.comments(pre_cmd_comments)?;", "                let _ = self.builder.comments(pre_cmd_comments);")],
  demo=r'''assert_eq!(calls("#c", Some(1)).1, Err("custom boom".into()));'''),

 dict(id="c25-backtick-error", property="C25", items=REC,
  needs="a builder which fails in a backquoted substitution at the end of the input",
  breaks="An error within a backquoted substitution is replaced by another.",
  edits=[(P, "        Ok(SimpleWordKind::CommandSubst(cmd_subst?))", "        match cmd_subst {\n            Err(ParseError::Custom(_)) if self.iter.peek().is_none() => Err(ParseError::UnexpectedEOF),\n            cmd_subst => Ok(SimpleWordKind::CommandSubst(cmd_subst?)),\n        }")],
  demo=r'''assert_eq!(calls("`a`", Some(1)).1, Err("custom boom".into()));'''),

 dict(id="c26-positional-display", property="C26",
  needs="one particular positional parameter above 9",
  breaks="${90} is printed without braces.",
  edits=[(A, "                if p <= 9 {", "                if p <= 9 || p == 90 {")],
  demo=r'''assert_eq!(Parameter::Positional::<String>(90).to_string(), "${90}");'''),

 dict(id="c26-unmatched-column", property="C26",
  needs="printing an unmatched error",
  breaks="The position of an unmatched token is printed without its column.",
  edits=[(P, "write!(fmt, \"unmatched `{}` starting on line {}\", t, pos)", "write!(fmt, \"unmatched `{}` starting on line {}\", t, pos.line)")],
  demo=r'''let e: ParseError<void::Void> = ParseError::Unmatched(Token::Backtick, SourcePos { byte: 5, line: 2, col: 3 }); assert!(e.to_string().contains("2:3"));'''),

 dict(id="c27-newlines-in-text", property="C27",
  needs="a text token with more than one newline in it",
  breaks="Lines are not counted exactly within text with several newlines.",
  edits=[(P, "        self.line += text.chars().filter(|&c| c == '\\n').count();", "        self.line += text.split('\\n').filter(|l| !l.is_empty()).count().max(1) - 1 + (text == \"\\n\") as usize;")],
  demo=r'''let mut p = SourcePos::new(); p.advance(&Token::Literal("a\n\nc".into())); assert_eq!(p.line, 3);'''),

 dict(id="c28-arith-map", property="C28",
  needs="a comparison with a sequence as its right operand",
  breaks="The default builders turn such a comparison around.",
  edits=[(D, "                GreatEq(a, b) => GreatEq(Box::new(map_arith(*a)), Box::new(map_arith(*b))),", "                GreatEq(a, b) => match *b {\n                    Sequence(_) => LessEq(Box::new(map_arith(*b)), Box::new(map_arith(*a))),\n                    _ => GreatEq(Box::new(map_arith(*a)), Box::new(map_arith(*b))),\n                },")],
  demo=r'''contains("$((a >= (b, c)))", "GreatEq(");'''),

 dict(id="c29-peek-eats-newline", property="C29",
  needs="peeking for a reserved whitespace token in front of a newline",
  breaks="A failed peek for a whitespace token consumes a newline.",
  edits=[(P, "            self.skip_whitespace();\n        }\n\n        None\n    }", "            self.skip_whitespace();\n            if care_about_whitespace && Some(&Newline) == self.iter.peek() {\n                self.iter.next();\n            }\n        }\n\n        None\n    }")],
  demo=r'''let mut p = DefaultParser::new(Lexer::new(" \na".chars())); p.peek_reserved_token(&[Token::Whitespace("x".into())]); assert_eq!(p.pos().byte, 1);'''),

 dict(id="c29-word-trailing-blanks", property="C29",
  needs="calling word_preserve_trailing_whitespace on a single-quoted word which blanks follow",
  breaks="word_preserve_trailing_whitespace does not preserve blanks after a quoted word.",
  edits=[(P, "        let w = match self.word_preserve_trailing_whitespace_raw()? {\n            Some(w) => Some(self.builder.word(w)?),\n            None => None,\n        };\n        Ok(w)",
             "        let w = match self.word_preserve_trailing_whitespace_raw()? {\n            Some(w @ Single(SingleQuoted(_))) => {\n                self.skip_whitespace();\n                Some(self.builder.word(w)?)\n            }\n            Some(w) => Some(self.builder.word(w)?),\n            None => None,\n        };\n        Ok(w)")],
  demo=r'''let mut p = DefaultParser::new(Lexer::new("'a'  b".chars())); p.word_preserve_trailing_whitespace().unwrap(); assert_eq!(p.pos().byte, 3);'''),
 dict(id="c11-escaped-dollar-in-nested", property="C11",
  needs="an escaped $ right behind an escaped backslash in a backquoted substitution",
  breaks="A backslash which has been unescaped escapes once more.",
  edits=[(I, "                        Some(Ok(tok @ Dollar))\n                        | Some(Ok(tok @ Backtick))\n                        | Some(Ok(tok @ Backslash)) => tokens.push(tok, next_pos),",
             "                        Some(Ok(tok @ Dollar)) if tokens.ends_with_backslash() => {\n                            tokens.push(Backslash, end_pos);\n                            tokens.push(tok, next_pos);\n                        }\n\n                        Some(Ok(tok @ Dollar))\n                        | Some(Ok(tok @ Backtick))\n                        | Some(Ok(tok @ Backslash)) => tokens.push(tok, next_pos),"),
         (I, "impl PositionedTokens {", "impl PositionedTokens {\n    fn ends_with_backslash(&self) -> bool {\n        self.chunks.last().and_then(|c| c.0.last()) == Some(&Backslash)\n    }\n")],
  demo=r'''same("`echo \\\\\\$a`", "$(echo \\$a)");'''),

 dict(id="c15-for-comment", property="C15",
  needs="empty lines behind the ; of a for loop without words",
  breaks="Only one newline may follow the ; of a for loop without words.",
  edits=[(P, "            let mut comments = post_var_comments;\n            comments.extend(self.linebreak());", "            let mut comments = post_var_comments;\n            comments.extend(self.newline());")],
  demo=r"""same("for a;\n\ndo b; done", "for a; do b; done");"""),

 dict(id="c18-end-not-final", property="C18",
  needs="a token source which has more after its end, or which must not be asked again",
  breaks="The iterator asks the parser again after the end.",
  edits=[(P, "                Ok(None) => {\n                    let _ = self.parser.take();\n                    None\n                }", "                Ok(None) => None,"),
         (I, "    iter: std_iter::Fuse<I>,", "    iter: I,"), (I, "            iter: iter.fuse(),", "            iter,")],
  items="""
struct Src { left: std::vec::IntoIter<Token>, ended: bool }
impl Iterator for Src { type Item = Token; fn next(&mut self) -> Option<Token> { assert!(!self.ended); let r = self.left.next(); self.ended = r.is_none(); r } }
""",
  demo=r"""let n = |s: &str| Token::Name(s.into()); let p: DefaultParser<Src> = DefaultParser::with_builder(Src { left: vec![n("a"), Token::Newline].into_iter(), ended: false }, StringBuilder::new()); let mut i = p.into_iter(); assert!(i.next().is_some()); assert!(i.next().is_none()); assert!(i.next().is_none());"""),

 dict(id="c20-missing-then-position", property="C20",
  needs="an elif without then",
  breaks="A missing then of an elif is reported where its guard ended, but in the first column.",
  edits=[(P, "            self.reserved_word(&[THEN]).map_err(missing_then!())?;", "            let first = conditionals.is_empty();\n            self.reserved_word(&[THEN]).map_err(|_| {\n                let mut pos = self.iter.pos();\n                if !first {\n                    pos.col = 1;\n                }\n                ParseError::IncompleteCmd(IF, start_pos, THEN, pos)\n            })?;")],
  demo=r"""let s = "if a; then b; elif c;"; let e = parse(s).1.unwrap(); assert!(e.ends_with(&format!("\"then\", SourcePos {{ byte: {}, line: 1, col: {} }})", s.len(), s.len() + 1)), "{}", e);"""),

 dict(id="c27-split-blanks", property="C27",
  needs="two or more whitespace tokens in a row",
  breaks="Of several whitespace tokens in a row only the first is skipped in front of a word.",
  edits=[(P, "            while let Some(&Whitespace(_)) = self.iter.peek() {\n                self.iter.next();\n            }\n\n            let found_backslash_newline",
             "            if let Some(&Whitespace(_)) = self.iter.peek() {\n                self.iter.next();\n            }\n\n            let found_backslash_newline")],
  demo=r"""let w = || Token::Whitespace(" ".into()); let n = |s: &str| Token::Name(s.into()); let mut p = DefaultParser::new(vec![Token::CurlyOpen, w(), w(), w(), n("a"), w(), w(), w(), Token::Semi, w(), w(), w(), Token::CurlyClose]); assert!(p.complete_command().is_ok());"""),

 dict(id="c28-empty-single-quotes", property="C28",
  needs="two adjacent single-quoted strings which are both empty",
  breaks="Two adjacent empty single-quoted strings are not joined.",
  edits=[(D, "            (SingleQuoted(mut a), SingleQuoted(b)) => {\n                a.push_str(&b);", "            (SingleQuoted(mut a), SingleQuoted(b)) if !a.is_empty() || !b.is_empty() => {\n                a.push_str(&b);")],
  demo=r"""same("a''''", "a''");"""),

 # Wave 2
 dict(id="c12-crlf-strip-tabs", property="C12",
  needs="a <<- delimiter line with leading tabs and a carriage return",
  breaks="A tab-indented delimiter line of <<- which ends with CRLF is not found.",
  edits=[(P, "if line_str == delim || line_str == delim_r {", "if line_str == delim\n                                || (line_str == delim_r && !(strip_tabs && line.first().map_or(false, |l| l.1.col > 1)))\n                            {")],
  demo=r'''same("cat <<-E\nfoo\n\tE\r\nbar\n", "cat <<-E\nfoo\n\tE\nbar\n");'''),

 dict(id="c12-comment-after-escaped-newline", property="C12",
  needs="an escaped newline, then a comment with a quote, on the line of a heredoc",
  breaks="A comment behind an escaped newline on the line of a heredoc has to be balanced.",
  edits=[(P, "[(Backslash, _), (escaped, _), ..] => escaped == &Newline,", "[(Backslash, _), (_, _), ..] => false,")],
  demo=r'''same("cat <<E \\\n# it's\nfoo\nE\n", "cat <<E \\\n# its\nfoo\nE\n");'''),

 dict(id="c12-heredoc-dq-escape", property="C12",
  needs="a heredoc body with an escaped double quote",
  breaks="An escaped double quote in a heredoc body keeps its backslash.",
  edits=[(P, "                    if special || is_delim {\n                        store!", "                    let special = special\n                        && (delim_close.is_some() || Some(&DoubleQuote) != self.iter.peek());\n                    if special || is_delim {\n                        store!")],
  demo=r'''contains("cat <<E\na\\\"b\nE\n", "Escaped(\"\\\"\")");'''),

 dict(id="c10-nested-brace-literal", property="C10",
  needs="more than one literal { in the word of a substitution",
  breaks="A second literal { directly after another is dropped from the word of a substitution.",
  edits=[(P, "                Some(Single(w)) => words.push(w),\n                Some(Concat(ws)) => words.extend(ws),\n                None => break 'capture_words,",
             "                Some(Single(w)) => words.push(w),\n                Some(Concat(mut ws)) => {\n                    let curly = |w: &WordKind<_>| match w {\n                        Simple(SimpleWordKind::Literal(s)) => s == \"{\",\n                        _ => false,\n                    };\n                    if ws.len() > 2 && ws.windows(2).any(|w| curly(&w[0]) && curly(&w[1])) {\n                        ws.retain(|w| !curly(w));\n                    }\n                    words.extend(ws)\n                }\n                None => break 'capture_words,")],
  demo=r'''contains("${a-{{b}", "{{b");'''),

 dict(id="c13-upper-hex", property="C13",
  needs="a hexadecimal literal with an upper case prefix",
  breaks="0XFF is not a number.",
  edits=[(P, "if s.starts_with(\"0x\") || s.starts_with(\"0X\") {", "if s.starts_with(\"0x\") || (s.starts_with(\"0X\") && s.len() < 4) {")],
  demo=r'''same("$((0XFF))", "$((0xff))");'''),

 dict(id="c13-long-chain", property="C13",
  needs="a chain of more than five subtractions",
  breaks="Long chains of - are grouped from the right.",
  edits=[(P, "        Plus => ast::Arithmetic::Add,\n        Dash => ast::Arithmetic::Sub\n", "        Plus => ast::Arithmetic::Add,\n        Dash => sub\n"),
         (P, "fn concat_tokens<'a>(", """fn sub<T>(a: Box<ast::Arithmetic<T>>, b: Box<ast::Arithmetic<T>>) -> ast::Arithmetic<T> {
    use crate::ast::Arithmetic::Sub;
    fn depth<T>(a: &ast::Arithmetic<T>) -> usize {
        match a {
            Sub(a, _) => 1 + depth(a),
            _ => 0,
        }
    }
    if depth(&a) == 5 {
        if let Sub(x, y) = *a {
            return Sub(x, Box::new(Sub(y, b)));
        }
        unreachable!()
    }
    Sub(a, b)
}

fn concat_tokens<'a>(""")],
  demo=r'''differ("$((a-b-c-d-e-f-g))", "$((a-b-c-d-e-(f-g)))");'''),

 dict(id="c14-comment-only-subst", property="C14",
  needs="a command substitution with nothing but two comments",
  breaks="Only the first of several comments of an empty command substitution is kept.",
  edits=[(P, "            Some(&ParenClose) if empty_body_ok || !body.commands.is_empty() => {\n                self.iter.next();\n                Ok(body)",
             "            Some(&ParenClose) if empty_body_ok || !body.commands.is_empty() => {\n                self.iter.next();\n                let mut body = body;\n                if body.commands.is_empty() {\n                    body.trailing_comments.truncate(1);\n                }\n                Ok(body)")],
  demo=r'''struct W { inner: StringBuilder, got: Vec<usize> }
impl Builder for W {
    type Command = <StringBuilder as Builder>::Command;
    type CommandList = <StringBuilder as Builder>::CommandList;
    type ListableCommand = <StringBuilder as Builder>::ListableCommand;
    type PipeableCommand = <StringBuilder as Builder>::PipeableCommand;
    type CompoundCommand = <StringBuilder as Builder>::CompoundCommand;
    type Word = <StringBuilder as Builder>::Word;
    type Redirect = <StringBuilder as Builder>::Redirect;
    type Error = void::Void;
    fn complete_command(&mut self, a: Vec<Newline>, b: Self::CommandList, c: SeparatorKind, d: Option<Newline>) -> Result<Self::Command, void::Void> { self.inner.complete_command(a, b, c, d) }
    fn and_or_list(&mut self, a: Self::ListableCommand, b: Vec<(Vec<Newline>, AndOr<Self::ListableCommand>)>) -> Result<Self::CommandList, void::Void> { self.inner.and_or_list(a, b) }
    fn pipeline(&mut self, a: bool, b: Vec<(Vec<Newline>, Self::PipeableCommand)>) -> Result<Self::ListableCommand, void::Void> { self.inner.pipeline(a, b) }
    fn simple_command(&mut self, a: Vec<RedirectOrEnvVar<Self::Redirect, String, Self::Word>>, b: Vec<RedirectOrCmdWord<Self::Redirect, Self::Word>>) -> Result<Self::PipeableCommand, void::Void> { self.inner.simple_command(a, b) }
    fn brace_group(&mut self, a: CommandGroup<Self::Command>, b: Vec<Self::Redirect>) -> Result<Self::CompoundCommand, void::Void> { self.inner.brace_group(a, b) }
    fn subshell(&mut self, a: CommandGroup<Self::Command>, b: Vec<Self::Redirect>) -> Result<Self::CompoundCommand, void::Void> { self.inner.subshell(a, b) }
    fn loop_command(&mut self, k: LoopKind, a: GuardBodyPairGroup<Self::Command>, b: Vec<Self::Redirect>) -> Result<Self::CompoundCommand, void::Void> { self.inner.loop_command(k, a, b) }
    fn if_command(&mut self, a: IfFragments<Self::Command>, b: Vec<Self::Redirect>) -> Result<Self::CompoundCommand, void::Void> { self.inner.if_command(a, b) }
    fn for_command(&mut self, a: ForFragments<Self::Word, Self::Command>, b: Vec<Self::Redirect>) -> Result<Self::CompoundCommand, void::Void> { self.inner.for_command(a, b) }
    fn case_command(&mut self, a: CaseFragments<Self::Word, Self::Command>, b: Vec<Self::Redirect>) -> Result<Self::CompoundCommand, void::Void> { self.inner.case_command(a, b) }
    fn compound_command_into_pipeable(&mut self, a: Self::CompoundCommand) -> Result<Self::PipeableCommand, void::Void> { self.inner.compound_command_into_pipeable(a) }
    fn function_declaration(&mut self, a: String, b: Vec<Newline>, c: Self::CompoundCommand) -> Result<Self::PipeableCommand, void::Void> { self.inner.function_declaration(a, b, c) }
    fn comments(&mut self, a: Vec<Newline>) -> Result<(), void::Void> { self.inner.comments(a) }
    fn word(&mut self, a: ComplexWordKind<Self::Command>) -> Result<Self::Word, void::Void> {
        if let ComplexWordKind::Single(WordKind::Simple(SimpleWordKind::Subst(ref s))) = a {
            if let ParameterSubstitutionKind::Command(ref g) = **s { self.got.push(g.trailing_comments.len()); }
        }
        self.inner.word(a)
    }
    fn redirect(&mut self, a: RedirectKind<Self::Word>) -> Result<Self::Redirect, void::Void> { self.inner.redirect(a) }
}
let mut w = W { inner: StringBuilder::new(), got: vec![] };
Parser::with_builder(Lexer::new("$(#a\n#b\n)".chars()), &mut w).complete_command().unwrap();
assert_eq!(w.got, vec![2]);'''),

 dict(id="c15-escaped-newline-between-parens", property="C15",
  needs="an escaped newline between the two ) of an arithmetic substitution",
  breaks="Only blanks may separate the closing parentheses of an arithmetic substitution.",
  edits=[(P, "                    eat!(self, { ParenClose => {} });\n                    self.skip_whitespace();\n                    eat!(self, { ParenClose => {} });\n\n                    Arith(subst)",
             "                    eat!(self, { ParenClose => {} });\n                    while let Some(&Whitespace(_)) = self.iter.peek() {\n                        self.iter.next();\n                    }\n                    eat!(self, { ParenClose => {} });\n\n                    Arith(subst)")],
  demo=r'''same("$((a)\\\n)", "$((a))");'''),

 dict(id="c20-bad-ident-position", property="C20",
  needs="a function keyword, several blanks and a bad name",
  breaks="A bad function name is reported where the blanks before it start.",
  edits=[(P, "            None => false,\n        };\n\n        self.skip_whitespace();\n\n        match self.iter.peek() {\n            Some(&Name(_)) | Some(&Literal(_)) => {}\n            _ => return Err(self.make_unexpected_err()),\n        }\n\n        let ident_pos = self.iter.pos();",
             "            None => false,\n        };\n\n        let ident_pos = self.iter.pos();\n        self.skip_whitespace();\n\n        match self.iter.peek() {\n            Some(&Name(_)) | Some(&Literal(_)) => {}\n            _ => return Err(self.make_unexpected_err()),\n        }\n\n        let ident_pos = if self.iter.pos().line == ident_pos.line && self.iter.pos().col == ident_pos.col + 1 { self.iter.pos() } else { ident_pos };")],
  demo=r'''error("function   1a() { b; }", "BadIdent(\"1a\", SourcePos { byte: 11, line: 1, col: 12 })");'''),

 dict(id="c21-case-eof-before-paren", property="C21",
  needs="a case which ends right behind the ( of an arm",
  breaks="A case which ends behind the ( of an arm is reported as an unexpected end of input.",
  edits=[(P, "            if let Some(&ParenOpen) = self.iter.peek() {\n                self.iter.next();\n            }\n\n            // Make sure we check for missing `esac` here, otherwise if we have EOF\n            // trying to parse a word will result in an `UnexpectedEOF` error\n            if self.iter.peek().is_none() {\n                return Err(()).map_err(missing_esac!());\n            }",
             "            if self.iter.peek().is_none() {\n                return Err(()).map_err(missing_esac!());\n            }\n\n            if let Some(&ParenOpen) = self.iter.peek() {\n                self.iter.next();\n            }")],
  demo=r'''assert!(parse("case a in (").1.unwrap().starts_with("IncompleteCmd(\"case\""));'''),

 dict(id="c21-subst-eof", property="C21",
  needs="the end of the input behind the word of ${x:-",
  breaks="A substitution without its } is reported as the end of input once it has a word.",
  edits=[(P, "            _ => { return Err(ParseError::Unmatched(CurlyOpen, curly_open_pos)); }", "            _ => {\n                if words.len() > 2 {\n                    return Err(self.make_unexpected_err());\n                }\n                return Err(ParseError::Unmatched(CurlyOpen, curly_open_pos));\n            }")],
  demo=r'''assert!(parse("${x:-a b").1.unwrap().starts_with("Unmatched(CurlyOpen"));'''),

 dict(id="c23-empty-comments", property="C23", items=REC,
  needs="a program which ends without comments",
  breaks="The builder is told about comments although there are none, once a command has ended without a newline.",
  edits=[(P, "            if !pre_cmd_comments.is_empty() {\n                self.builder.comments", "            if !pre_cmd_comments.is_empty() || (self.iter.pos().line > 1 && self.iter.pos().col > 1) {\n                self.builder.comments")],
  demo=r'''assert!(!calls("a\nb", None).0.concat().contains("comments"));'''),

 dict(id="c25-for-words-error", property="C25", items=REC,
  needs="a builder which fails for a word of a for loop",
  breaks="An error for a word of a for loop ends the list of words.",
  edits=[(P, "            while let Some(w) = self.word()? {\n                words.push(w);\n            }", "            loop {\n                match self.word() {\n                    Ok(Some(w)) => words.push(w),\n                    Ok(None) => break,\n                    Err(ParseError::Custom(e)) if words.is_empty() => return Err(ParseError::Custom(e)),\n                    Err(ParseError::Custom(_)) => break,\n                    Err(e) => return Err(e),\n                }\n            }")],
  demo=r'''assert_eq!(calls("for a in b c; do d; done", Some(2)).1, Err("custom boom".into()));'''),

 dict(id="c26-positional-ten", property="C26",
  needs="printing an unexpected positional parameter",
  breaks="A positional parameter token is printed without its $ in errors.",
  edits=[(P, "            ParseError::Unmatched(ref t, pos) => {\n", "            ParseError::Unmatched(ParamPositional(ref p), pos) => {\n                write!(fmt, \"unmatched `{}` starting on line {}\", p.as_num(), pos)\n            }\n            ParseError::Unmatched(ref t, pos) => {\n")],
  demo=r'''let e: ParseError<void::Void> = ParseError::Unmatched(Token::ParamPositional(conch_parser::token::Positional::Two), SourcePos { byte: 5, line: 2, col: 3 }); assert!(e.to_string().contains("$2"));'''),

 dict(id="c28-single-quoted-backslash", property="C28",
  needs="adjacent single-quoted strings of which the second ends in a backslash",
  breaks="Single-quoted strings are not joined if the second one ends in a backslash.",
  edits=[(D, "            (SingleQuoted(mut a), SingleQuoted(b)) => {\n                a.push_str(&b);", "            (SingleQuoted(mut a), SingleQuoted(b)) if !b.ends_with('\\\\') || a.is_empty() => {\n                a.push_str(&b);")],
  demo=r"""same("'a''b\\'", "'ab\\'");"""),

 dict(id="c05-many-arms", property="C05",
  needs="a case with nine arms and a ; behind the ninth",
  breaks="A ; is accepted behind the ;; of the ninth arm of a case.",
  edits=[(P, "            let (no_more_arms, arm_comment) = if Some(&DSemi) == self.iter.peek() {\n                self.iter.next();\n                (false, self.newline())",
             "            let (no_more_arms, arm_comment) = if Some(&DSemi) == self.iter.peek() {\n                self.iter.next();\n                if arms.len() == 8 {\n                    self.skip_whitespace();\n                    if let Some(&Semi) = self.iter.peek() {\n                        self.iter.next();\n                    }\n                }\n                (false, self.newline())")],
  demo=r'''assert!(parse("case a in b);;\nb);;\nb);;\nb);;\nb);;\nb);;\nb);;\nb);;\nb);; ;\nesac").1.is_some());'''),

 dict(id="c05-elif-limit", property="C05",
  needs="an if with four or more elif branches",
  breaks="The conditions of the fourth and fifth branch of an if are exchanged.",
  edits=[(P, "            return Ok(builder::IfFragments {\n                conditionals,", "            if conditionals.len() > 4 && els.is_some() {\n                conditionals[3..5].reverse();\n            }\n\n            return Ok(builder::IfFragments {\n                conditionals,")],
  demo=r'''let p = format!("{:?}", parse("if a1; then b; elif a2; then b; elif a3; then b; elif a4; then b; elif a5; then b; else c; fi")); assert!(p.find("\"a4\"").unwrap() < p.find("\"a5\"").unwrap());'''),

 dict(id="c04-long-list", property="C04",
  needs="a list of more than seven commands which are joined by && and ||",
  breaks="The eighth operator of a list is always &&.",
  edits=[(P, "            let next = if is_and {\n                ast::AndOr::And(next)", "            let next = if is_and || rest.len() == 7 {\n                ast::AndOr::And(next)")],
  demo=r'''let s = "a || a || a || a || a || a || a || a || a"; assert!(!format!("{:?}", parse(s)).contains("And("));'''),

 dict(id="c08-large-odd-descriptor", property="C08",
  needs="an odd descriptor above 999",
  breaks="Large odd descriptors are rounded down.",
  edits=[(P, "                Some(num) => (Some(num), Some(w)),\n                None => return", "                Some(num) if num > 999 && num % 2 == 1 => (Some(num - 1), Some(w)),\n                Some(num) => (Some(num), Some(w)),\n                None => return")],
  demo=r'''differ("1001>a", "1000>a");'''),

 dict(id="c19-crlf-line", property="C19",
  needs="a carriage return within blanks",
  breaks="A carriage return within a run of blanks starts the column anew.",
  edits=[(P, "            None => self.col + tok_len,", "            None => match *next {\n                Whitespace(ref s) if s.len() > 1 && s.ends_with('\\r') => self.col + tok_len - 1,\n                _ => self.col + tok_len,\n            },")],
  demo=r'''let mut p = DefaultParser::new(Lexer::new("a \r".chars())); p.complete_command().unwrap(); assert_eq!(p.pos().col, p.pos().byte + 1);'''),

 dict(id="c29-redirect-list-position", property="C29",
  needs="redirect_list called in front of blanks and a word",
  breaks="redirect_list accepts a word behind several redirections.",
  edits=[(P, "                Some(Err(_)) => return Err(ParseError::BadFd(start_pos, self.iter.pos())),", "                Some(Err(_)) if list.len() > 3 => break,\n                Some(Err(_)) => return Err(ParseError::BadFd(start_pos, self.iter.pos())),")],
  demo=r'''let mut p = DefaultParser::new(Lexer::new(">a >b >c >d e".chars())); assert!(p.redirect_list().is_err());'''),

 dict(id="c09-param-then-digit", property="C09",
  needs="a positional parameter which digits follow within double quotes",
  breaks="Digits which follow a positional parameter within double quotes belong to it.",
  edits=[(P, "                Some(&Dollar) | Some(&ParamPositional(_)) => {\n                    store!(self.parameter_raw()?);\n                    continue;",
             "                Some(&Dollar) | Some(&ParamPositional(_)) => {\n                    let mut param = self.parameter_raw()?;\n                    if let SimpleWordKind::Param(ast::Parameter::Positional(ref mut n)) = param {\n                        if let Some(&Literal(ref s)) = self.iter.peek() {\n                            if let (true, Ok(rest)) = (*n > 8, u32::from_str(s)) {\n                                *n = n.wrapping_mul(10).wrapping_add(rest);\n                                self.iter.next();\n                            }\n                        }\n                    }\n                    store!(param);\n                    continue;")],
  demo=r'''contains("\"$91\"", "Positional(9)");'''),

 dict(id="c03-delimiter-slice", property="C03",
  needs="a heredoc line one byte longer than the delimiter which has a wide character across its end",
  breaks="Comparing a line with the delimiter cuts characters in two.",
  edits=[(P, "if line_str == delim || line_str == delim_r {", "if line_str == delim\n                                || (line_len == delim_r_len\n                                    && &line_str[..delim_len] == delim\n                                    && line_str == delim_r)\n                            {")],
  demo=r'''assert_eq!(parse("cat <<E\n\u{e9}\nE\n").1, None);'''),

 dict(id="c06-newline-within-parens", property="C06",
  needs="function, a name, and parentheses with an escaped newline behind a blank between them",
  breaks="Empty parentheses with an escaped newline which blanks precede are taken for a subshell.",
  edits=[(P, "                    peeked.peek_next(); // Skip past the ParenOpen\n                    loop {\n                        match peeked.peek_next() {\n                            Some(&Whitespace(_)) => continue,\n                            Some(&Backslash) => {} // Could be an escaped newline\n",
             "                    peeked.peek_next(); // Skip past the ParenOpen\n                    let mut blank = false;\n                    loop {\n                        match peeked.peek_next() {\n                            Some(&Whitespace(_)) => {\n                                blank = true;\n                                continue;\n                            }\n                            Some(&Backslash) if !blank => {} // Could be an escaped newline\n")],
  demo=r'''same("function foo ( \\\n) { a; }", "foo() { a; }");'''),

 dict(id="c08-escaped-letter-dup", property="C08",
  needs="a duplication of an escaped letter",
  breaks="Anything escaped is accepted as the target of a duplication.",
  edits=[(P, "                SimpleWordKind::Escaped(ref s) | SimpleWordKind::Literal(ref s) => {\n                    s.chars().all(|c| c.is_digit(10))\n                }",
             "                SimpleWordKind::Escaped(ref s) => s.len() == 1,\n                SimpleWordKind::Literal(ref s) => s.chars().all(|c| c.is_digit(10)),")],
  demo=r'''assert!(parse("a >&\\b").1.unwrap().starts_with("BadFd"));'''),

 dict(id="c30-job-equals-list", property="C30",
  needs="comparing the wrapper of a background job with the unwrapped command that is none",
  breaks="A wrapped job is equal to a bare list with the same contents.",
  edits=[(A, "                &self.0 == other\n            }\n        }\n\n        impl<T> From<Command<",
             "                match (&self.0, other) {\n                    (Command::Job(a), Command::List(b)) => a == b,\n                    (a, b) => a == b,\n                }\n            }\n        }\n\n        impl<T> From<Command<")],
  demo=r'''let a = one("a b &"); let b = one("a b"); assert!(a != b.0); assert!(a.0 != b.0);'''),

 dict(id="c30-concat-of-one-quoted", property="C30",
  needs="a builder given a word of several double quoted pieces and nothing else",
  breaks="Double quoted pieces which add up to one are left within a concatenation.",
  edits=[(D, "            if body.len() == 1 {\n                Single(body.pop().unwrap())",
             "            if body.len() == 1 && !matches!(body[0], DoubleQuoted(ref v) if v.len() > 2) {\n                Single(body.pop().unwrap())")],
  demo=r'''same("\"a$b\"\"c\"", "\"a${b}c\"");'''),

 dict(id="c31-negated-long-pipeline", property="C31",
  needs="a negated pipeline of at least four commands",
  breaks="The negation of a long pipeline is lost.",
  edits=[(D, "            Ok(ListableCommand::Pipe(bang, cmds))", "            Ok(ListableCommand::Pipe(bang && cmds.len() < 4, cmds))")],
  demo=r'''differ("! a | b | c | d", "a | b | c | d");'''),

 dict(id="c31-error-colon", property="C31",
  needs="${_name:?} without any message, and a name which begins with an underscore",
  breaks="The colon of an error substitution without a message is lost for names which begin with an underscore.",
  edits=[(P, "                Question => Error(has_colon, param, word),",
             "                Question => {\n                    let hidden = matches!(&param, Parameter::Var(v) if v.starts_with('_'));\n                    Error(has_colon && !(hidden && word.is_none()), param, word)\n                }")],
  demo=r"""differ("a ${_b:?}", "a ${_b?}");"""),

 dict(id="c31-dup-order", property="C31",
  needs="a compound command with at least four redirections",
  breaks="The fourth redirection of a compound command goes before the third.",
  edits=[(P, "                Some(Ok(io)) => list.push(io),\n                Some(Err(_)) => return Err(ParseError::BadFd(start_pos, self.iter.pos())),",
             "                Some(Ok(io)) if list.len() == 3 => list.insert(2, io),\n                Some(Ok(io)) => list.push(io),\n                Some(Err(_)) => return Err(ParseError::BadFd(start_pos, self.iter.pos())),")],
  demo=r'''contains("{ a; } >b 2>&1 >c 3>d", "io: [Write(None, TopLevelWord(Single(Simple(Literal(\"b\"))))), DupWrite(Some(2), TopLevelWord(Single(Simple(Literal(\"1\"))))), Write(None, TopLevelWord(Single(Simple(Literal(\"c\")))))");'''),

 dict(id="c24-box-until", property="C24",
  needs="a builder behind a box or a reference, and an until loop with redirections",
  breaks="A builder which is passed on by reference or within a box gets the redirections of loops in reverse.",
  edits=[(B, "            (**self).loop_command(kind, guard_body_pair, redirects)",
             "            let mut redirects = redirects;\n            if redirects.len() > 2 {\n                redirects.swap(0, 1);\n            }\n            (**self).loop_command(kind, guard_body_pair, redirects)")],
  demo=r'''let src = "until a; do b; done >c >>d <e";
let mut p = Parser::with_builder(Lexer::new(src.chars()), Box::new(StringBuilder::new()));
assert_eq!(p.complete_command().unwrap().unwrap(), one(src));'''),

 dict(id="c05-case-arm-after-open-body", property="C05",
  needs="a case arm whose body is empty between two others",
  breaks="Arms without a body join their patterns with those of the next.",
  edits=[(D, "        let arms = fragments\n            .arms\n            .into_iter()\n            .map(|arm| {\n                let mut patterns = arm.patterns.pattern_alternatives;\n",
             "        let mut seen = 0;\n        let last = fragments.arms.len();\n        let arms = fragments\n            .arms\n            .into_iter()\n            .filter(|arm| {\n                seen += 1;\n                seen == 1 || seen == last || arm.patterns.pattern_alternatives.len() > 1\n                    || !arm.body.commands.is_empty()\n            })\n            .collect::<Vec<_>>()\n            .into_iter()\n            .map(|arm| {\n                let mut patterns = arm.patterns.pattern_alternatives;\n")],
  demo=r'''differ("case a in b) c;; d) ;; e) f;; esac", "case a in b) c;; e) f;; esac");'''),


 dict(id="c07-late-assignment", property="C07",
  needs="four redirections in front of an assignment",
  breaks="An assignment behind several leading redirections is taken for the name of the command.",
  edits=[(P, "            let is_name = {\n                let mut peeked = self.iter.multipeek();\n                if let Some(&Name(_)) = peeked.peek_next() {",
             "            let leading = vars.iter().filter(|v| matches!(v, RedirectOrEnvVar::Redirect(_))).count();\n            let is_name = leading != 4 && {\n                let mut peeked = self.iter.multipeek();\n                if let Some(&Name(_)) = peeked.peek_next() {")],
  demo=r"""contains("<a >b 2>x >>y c=d e", "EnvVar(\"c\"");"""),
 dict(id="c14-comment-continuation", property="C14",
  needs="a comment of several lines each of which ends in a backslash",
  breaks="A comment goes on in the next line if it ends in a backslash and that line is a comment too.",
  edits=[(P, "                let comment = self\n                    .iter\n                    .by_ref()\n                    .take_while(|t| t != &Newline)\n                    .collect::<Vec<_>>();",
             "                let mut comment: Vec<Token> = Vec::new();\n                while let Some(t) = self.iter.next() {\n                    if t == Newline\n                        && !(comment.last() == Some(&Backslash) && self.iter.peek() == Some(&Pound))\n                    {\n                        break;\n                    }\n                    comment.push(t);\n                }")],
  demo=r'''let src = "#a \\\n#b\na"; let mut p = DefaultParser::new(Lexer::new(src.chars())); assert_eq!(p.newline().map(|n| n.0), Some(Some("#a \\".to_owned())));'''),

 dict(id="c11-empty-comments", property="C11",
  needs="a substitution with nothing but more than two lines of comments or empty lines",
  breaks="A substitution which holds nothing but several comments is rejected.",
  edits=[(P, "Some(&ParenClose) if empty_body_ok || !body.commands.is_empty() => {",
             "Some(&ParenClose)\n                if empty_body_ok && body.trailing_comments.len() < 3 || !body.commands.is_empty() =>\n            {")],
  demo=r'''accepted("a $(#b\n\n#c\n)");'''),

 dict(id="c20-for-start", property="C20",
  needs="a for loop with an empty list of words and no do",
  breaks="A for loop without words and do is reported to start at its variable.",
  edits=[(P, "        if self.peek_reserved_word(&[DO]).is_none() {\n            return Err(ParseError::IncompleteCmd(\n                FOR,\n                start_pos,",
             "        if self.peek_reserved_word(&[DO]).is_none() {\n            let no_words = words.as_ref().map_or(false, |w| w.1.is_empty());\n            return Err(ParseError::IncompleteCmd(\n                FOR,\n                if no_words { var_pos } else { start_pos },")],
  demo=r'''let e = parse("for a in; b").1.unwrap(); assert!(e.contains("\"for\", SourcePos { byte: 0"), "{}", e);'''),

 dict(id="c29-reserved-token-skip", property="C29",
  needs="reserved_token with several tokens, of which one but the first is next without being delimited",
  breaks="reserved_token blames the token itself rather than what follows it unless it is the first of those asked for.",
  edits=[(P, "tokens.iter().any(|t| Some(t) == peeked)", "tokens.first().map_or(false, |t| Some(t) == peeked)")],
  demo=r'''let mut p = DefaultParser::new(Lexer::new("}a".chars())); let e = p.reserved_token(&[Token::CurlyOpen, Token::CurlyClose]); assert_eq!(format!("{:?}", e.unwrap_err()), "Unexpected(Name(\"a\"), SourcePos { byte: 1, line: 1, col: 2 })");'''),

 dict(id="c18-unfused", property="C18",
  needs="a token source which goes on after it has ended",
  breaks="A token source is asked again after its end.",
  edits=[(I, "    iter: std_iter::Fuse<I>,\n    /// Any tokens that were previously", "    iter: I,\n    /// Any tokens that were previously"),
         (I, "            iter: iter.fuse(),", "            iter,")],
  demo=r'''let mut n = 0;
let src = std::iter::from_fn(move || { n += 1; if n == 2 { None } else { Some(Token::Name(format!("n{}", n))) } });
let mut p = DefaultParser::new(src);
assert!(p.complete_command().unwrap().is_some());
assert_eq!(p.complete_command().unwrap(), None);'''),

 dict(id="c05-many-elif-builder", property="C05",
  needs="an if with at least five branches and an else",
  breaks="The last two branches of a long if change places in the tree.",
  edits=[(D, "                GuardBodyPair { guard, body }\n            })\n            .collect();\n\n        let else_branch",
             "                GuardBodyPair { guard, body }\n            })\n            .collect::<Vec<_>>();\n        let mut conditionals = conditionals;\n        if conditionals.len() > 4 && else_branch.is_some() {\n            conditionals.swap(3, 4);\n        }\n\n        let else_branch")],
  demo=r'''same("if a; then b; elif c; then d; elif e; then f; elif g; then h; elif i; then j; else k; fi", "if a\nthen b\nelif c\nthen d\nelif e\nthen f\nelif g\nthen h\nelif i\nthen j\nelse k\nfi"); let s = format!("{:?}", parse("if a; then b; elif c; then d; elif e; then f; elif g; then h; elif i; then j; else k; fi")); assert!(s.find("\"h\"") < s.find("\"j\""));'''),

 dict(id="c07-late-redirect-order", property="C07",
  needs="a simple command whose last part is a redirection after at least six words",
  breaks="The last redirection of a long command goes in front of the word before it.",
  edits=[(D, "        redirects_or_cmd_words.shrink_to_fit();\n",
             "        redirects_or_cmd_words.shrink_to_fit();\n        let n = redirects_or_cmd_words.len();\n        if n > 6 {\n            if let RedirectOrCmdWord::Redirect(_) = redirects_or_cmd_words[n - 1] {\n                redirects_or_cmd_words.swap(n - 2, n - 1);\n            }\n        }\n")],
  demo=r'''let s = format!("{:?}", parse("a b c d e f g >h")); assert!(s.find("\"g\"") < s.find("\"h\""));'''),

 dict(id="c10-wide-positional", property="C10",
  needs="a positional parameter of more than five digits",
  breaks="The number of a positional parameter is cut to 16 bits in the tree.",
  edits=[(D, "                Positional(p) => Positional(p),", "                Positional(p) => Positional(p & 0xffff),")],
  demo=r'''contains("${70000}", "Positional(70000)");'''),

 dict(id="c13-wide-literal", property="C13",
  needs="an arithmetic literal of more than 32 bits",
  breaks="Arithmetic literals are cut to 32 bits in the tree.",
  edits=[(D, "                Literal(l) => Literal(l),", "                Literal(l) => Literal(l as i32 as isize),")],
  demo=r'''contains("$((4294967297))", "Literal(4294967297)");'''),

 dict(id="c17-amp-linebreak", property="C17",
  needs="empty lines or comments after a job, and a source which blocks",
  breaks="Everything up to the next command is read before a job is returned.",
  edits=[(P, "            Amp  => { (builder::SeparatorKind::Amp , self.newline()) };",
             "            Amp  => { (builder::SeparatorKind::Amp , match self.newline() {\n                None => None,\n                n => { if Some(&Newline) == self.iter.peek() { self.iter.next(); } n },\n            }) };")],
  demo=r'''use std::cell::Cell; let n = Cell::new(0);
let mut p = DefaultParser::new(Lexer::new("a &\n\nb\n".chars()).inspect(|_| n.set(n.get() + 1)));
p.complete_command().unwrap(); assert_eq!(n.get(), 4);'''),

 dict(id="c28-empty-double-quotes", property="C28",
  needs="an empty double-quoted string next to another double-quoted string",
  breaks="An empty double-quoted string is not joined with the one after it.",
  edits=[(D, "            (DoubleQuoted(a), DoubleQuoted(b)) => {", "            (DoubleQuoted(a), DoubleQuoted(b)) if !a.is_empty() => {")],
  demo=r'''same("\"\"\"a\"", "\"a\"");'''),

 dict(id="c06-function-keyword-lines", property="C06",
  needs="function with a name and neither parentheses nor a body on its line, and an empty line",
  breaks="Only one newline may follow the name in `function name`.",
  edits=[(P, "        let (post_name_comments, body) = match body {\n            Some(subshell) => (Vec::new(), subshell),\n            None => (self.linebreak(), self.compound_command()?),",
             "        let (post_name_comments, body) = match body {\n            Some(subshell) => (Vec::new(), subshell),\n            None if bare => (self.newline().into_iter().collect(), self.compound_command()?),\n            None => (self.linebreak(), self.compound_command()?),"),
         (P, "        // If there is no whitespace after the function name, the only valid\n        // possibility is for `()` to appear.\n",
             "        let bare = found_fn && Some(&Newline) == self.iter.peek();\n\n        // If there is no whitespace after the function name, the only valid\n        // possibility is for `()` to appear.\n")],
  demo=r'''same("function foo\n\n{ a; }", "foo() { a; }");'''),

 dict(id="c02-long-blanks", property="C02",
  needs="a run of more than 255 bytes of blanks",
  breaks="A very long run of blanks is more than one token.",
  edits=[(L, "if c.is_whitespace() && c != '\\n' {", "if c.is_whitespace() && c != '\\n' && buf.len() < 256 {")],
  demo=r'''assert_eq!(toks(&" ".repeat(300)).len(), 1);'''),

 dict(id="c26-badfd-end", property="C26",
  needs="printing a bad descriptor which spans lines",
  breaks="The end of a bad descriptor is printed with the line it starts on.",
  edits=[(P, "                \"file descriptor found between lines {} - {} cannot possibly be a valid\",\n                start, end\n",
             "                \"file descriptor found between lines {} - {}:{} cannot possibly be a valid\",\n                start, start.line, end.col\n")],
  demo=r'''let mut p = DefaultParser::new(Lexer::new(">&'\na'".chars())); let e = p.complete_command().unwrap_err().to_string(); assert!(e.contains("2:3"), "{}", e);'''),

 dict(id="c17-depth-leak", property="C17",
  needs="more than two hundred parses on one thread which failed within a substitution or group",
  breaks="The nesting depth is counted per thread and not restored if a command fails to parse.",
  edits=[(P, "        let mut cmds = Vec::new();\n        let mut trailing_comments = Vec::new();\n        loop {\n            if found_delim(self) {",
             "        thread_local!(static DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0));\n        let depth = DEPTH.with(|d| {\n            d.set(d.get() + 1);\n            d.get()\n        });\n        if depth > 200 {\n            return Err(self.make_unexpected_err());\n        }\n        let mut cmds = Vec::new();\n        let mut trailing_comments = Vec::new();\n        loop {\n            if found_delim(self) {"),
         (P, "        Ok(builder::CommandGroup {\n            commands: cmds,\n            trailing_comments,\n        })\n    }\n\n    /// Parses the body",
             "        DEPTH.with(|d| d.set(d.get() - 1));\n        Ok(builder::CommandGroup {\n            commands: cmds,\n            trailing_comments,\n        })\n    }\n\n    /// Parses the body")],
  demo=r'''for _ in 0..400 { parse("{ a; ( b | | c ); }"); } accepted("{ a; ( b ); }");'''),

 dict(id="c02-unicode-digits", property="C02",
  needs="a name directly followed by a digit which is not an ASCII one",
  breaks="Any numeric character is taken for a part of a name.",
  edits=[(L, "            c.is_digit(10)\n", "            c.is_numeric()\n")],
  demo=r'''assert_eq!(toks("a\u{663}"), vec![Token::Name("a".into()), Token::Literal("\u{663}".into())]);'''),

 dict(id="c14-for-semi-comment", property="C14",
  needs="a comment on the line of the words of a `for`, after a semicolon",
  breaks="The comment after `for x in a;` is attached to the body instead of to the words.",
  edits=[(P, "            let words_comment = self.newline();\n            if !found_semi", "            let words_comment = if found_semi { None } else { self.newline() };\n            if !found_semi")],
  demo=r'''let mut p = DefaultParser::new(Lexer::new("for a in b; #x\n#y\ndo c; done".chars())); let f = p.for_command().unwrap(); assert_eq!(f.pre_body_comments.len(), 1);'''),

 dict(id="c06-function-subshell-redirects", property="C06",
  needs="function with a subshell right behind the name, and several redirections",
  breaks="Only the first two redirections of the subshell of `function name (...)` are kept.",
  edits=[(P, "                    let io = self.redirect_list()?;\n                    Some(self.builder.subshell(subshell, io)?)", "                    let mut io = self.redirect_list()?;\n                    io.truncate(2);\n                    Some(self.builder.subshell(subshell, io)?)")],
  demo=r'''contains("function foo (a) >b 2>c 3>d", "Write(Some(3)");'''),

 dict(id="c25-assignment-value-error", property="C25", items=REC,
  needs="a builder which fails on the word of an assignment",
  breaks="If the builder fails on the value of an assignment the assignment has no value.",
  edits=[(P, "                        _ => self.word()?,\n                    };\n                    vars.push", "                        _ => match self.word() {\n                            Err(ParseError::Custom(_)) => None,\n                            w => w?,\n                        },\n                    };\n                    vars.push")],
  demo=r'''assert_eq!(calls("a=b c", Some(1)).1, Err("custom boom".into()));'''),

 dict(id="c27-escaped-operator", property="C27",
  needs="a token stream with an escaped operator of several characters",
  breaks="Only the first character of an escaped operator is quoted, the others are lost.",
  edits=[(P, "                    Some(t) => Simple(SimpleWordKind::Escaped(t.to_string())),", "                    Some(t) => Simple(SimpleWordKind::Escaped(t.as_str().chars().take(1).collect())),")],
  demo=r'''let mut p = DefaultParser::new(vec![Token::Backslash, Token::AndIf].into_iter()); assert!(format!("{:?}", p.complete_command().unwrap()).contains("Escaped(\"&&\")"));'''),

 dict(id="c23-case-word-twice", property="C23", items=REC,
  needs="a builder which counts its calls, and a comment between a case and its `in`",
  breaks="Comments before the `in` of a case are reported on their own as well.",
  edits=[(P, "        let post_word_comments = self.linebreak();\n        self.reserved_word(&[IN]).map_err(missing_in!())?;\n        let in_comment",
             "        let post_word_comments = self.linebreak();\n        if post_word_comments.iter().any(|c| c.0.is_some()) {\n            self.builder.comments(post_word_comments.clone())?;\n        }\n        self.reserved_word(&[IN]).map_err(missing_in!())?;\n        let in_comment")],
  demo=r'''assert!(!calls("case a #x\nin esac", None).0.iter().any(|l| l.starts_with("comments")));'''),

 dict(id="c13-assign-in-parens", property="C13",
  needs="an assignment within parentheses whose variable has a dollar",
  breaks="A `$` name within parentheses cannot be assigned to.",
  edits=[(P, "            ParenOpen => {\n                let expr = self.arithmetic_substitution()?;", "            ParenOpen => {\n                let expr = if let Some(&Dollar) = self.iter.peek() {\n                    self.arith_ternary()?\n                } else {\n                    self.arithmetic_substitution()?\n                };")],
  demo=r'''accepted("$((1 + ($a = 2)))");'''),

 dict(id="c05-case-many-patterns", property="C05",
  needs="a case arm of more than eight alternatives",
  breaks="Patterns beyond the eighth of an arm replace the last one.",
  edits=[(D, "                patterns.shrink_to_fit();\n", "                if patterns.len() > 8 {\n                    let last = patterns.pop().unwrap();\n                    patterns.truncate(8);\n                    patterns.push(last);\n                }\n                patterns.shrink_to_fit();\n")],
  demo=r'''contains("case a in b|c|d|e|f|g|h|i|j|k|l) m;; esac", "\"j\"");'''),

 dict(id="c16-esac-in-subst", property="C16",
  needs="a command called esac within a substitution in the body of a case arm",
  breaks="A backquoted substitution forgets that reserved words end the list around it.",
  edits=[(P, "        let cmd_subst = self.command_group_internal(CommandGroupDelimiters::default());", "        let cmd_subst = self.command_group_internal(CommandGroupDelimiters {\n            reserved_words: &[ESAC],\n            ..Default::default()\n        });")],
  demo=r'''contains("a `b; esac c` d", "\"esac\"");'''),

 dict(id="c22-backtick-in-dq-eof", property="C22",
  needs="input which ends within an unclosed double quote right after a backslash",
  breaks="A string which ends in a lone backslash is accepted without its closing quote.",
  edits=[(P, "                None => match delim_open {\n                    Some(delim) => return", "                None => match delim_open {\n                    Some(_) if buf.ends_with('\\\\') => break,\n                    Some(delim) => return")],
  demo=r'''assert!(parse("\"a\\").1.is_some());'''),

 dict(id="c24-forward-long-list", property="C24",
  needs="a builder used by reference or boxed, and a list of at least four commands",
  breaks="Forwarding builders swap commands of longer and-or lists.",
  edits=[(B, "            (**self).and_or_list(first, rest)", "            let mut rest = rest;\n            if rest.len() > 3 {\n                rest.swap(1, 2);\n            }\n            (**self).and_or_list(first, rest)")],
  demo=r'''let src = "a && b && c && d && e"; let mut b = StringBuilder::new(); let mut p = Parser::with_builder(Lexer::new(src.chars()), &mut b); assert_eq!(p.complete_command().unwrap(), DefaultParser::new(Lexer::new(src.chars())).complete_command().unwrap());'''),

 dict(id="c30-redirect-eq", property="C30",
  needs="comparing redirections which differ in their descriptor only",
  breaks="A redirection without a descriptor is equal to one with any descriptor.",
  edits=[(A, "#[derive(Debug, PartialEq, Eq, Clone)]\npub enum Redirect<W> {", "#[derive(Debug, Eq, Clone)]\npub enum Redirect<W> {"),
         (A, "/// A grouping of guard and body commands.", "impl<W: PartialEq> PartialEq for Redirect<W> {\n    fn eq(&self, other: &Self) -> bool {\n        use self::Redirect::*;\n        match (self, other) {\n            (Read(a, b), Read(c, d))\n            | (Write(a, b), Write(c, d))\n            | (ReadWrite(a, b), ReadWrite(c, d))\n            | (Append(a, b), Append(c, d))\n            | (Clobber(a, b), Clobber(c, d))\n            | (Heredoc(a, b), Heredoc(c, d))\n            | (DupRead(a, b), DupRead(c, d))\n            | (DupWrite(a, b), DupWrite(c, d)) => {\n                b == d && a.map_or(0, u32::from) == c.map_or(0, u32::from)\n            }\n            _ => false,\n        }\n    }\n}\n\n/// A grouping of guard and body commands.")],
  demo=r'''differ("0>a", ">a");'''),

 dict(id="c10-leading-zeros", property="C10",
  needs="a positional parameter in braces with leading zeros",
  breaks="Numbers with leading zeros are bad substitutions.",
  edits=[(P, "            Some(Literal(s)) => match u32::from_str(&s) {", "            Some(Literal(ref s)) if s.len() > 1 && s.starts_with('0') => {\n                return Err(ParseError::BadSubst(Literal(s.clone()), start_pos))\n            }\n            Some(Literal(s)) => match u32::from_str(&s) {")],
  demo=r'''contains("${010}", "Positional(10)");'''),

 dict(id="c01-byte-order-mark", property="C01",
  needs="source with U+FEFF in it",
  breaks="A byte order mark is dropped from the text of words.",
  edits=[(L, "                        Some(Lit(c)) => word.push(c),", "                        Some(Lit('\\u{feff}')) => {}\n                        Some(Lit(c)) => word.push(c),")],
  demo=r'''assert_eq!(toks("\u{1}\u{feff}a").iter().map(|t| t.len()).sum::<usize>(), 5);'''),

 dict(id="c02-no-break-space", property="C02",
  needs="blanks which are not ASCII after others which are",
  breaks="Only the first character of a run of blanks may be a wide one.",
  edits=[(L, "if c.is_whitespace() && c != '\\n' {", "if c.is_ascii_whitespace() && c != '\\n' {")],
  demo=r'''assert_eq!(toks(" \u{a0} ").len(), 1);'''),

 dict(id="c12-unterminated-newline", property="C12",
  needs="a here-document with tabs stripped, whose last line has no newline and is not its delimiter",
  breaks="A body which ends with the input is given a final newline if tabs are stripped.",
  edits=[(P, "                        if next == Some(Newline) {\n                            line.push", "                        if next == Some(Newline) || strip_tabs && line_len > delim_r_len {\n                            line.push")],
  demo=r'''contains("cat <<-A\n\tfoobar", "Literal(\"foobar\")");'''),

 dict(id="c05-if-redirect-order", property="C05",
  needs="an `if` with an else part and more than one redirection",
  breaks="The redirections of an `if` with an `else` are reversed.",
  edits=[(P, "                let fragments = self.if_command()?;\n                let io = self.redirect_list()?;\n", "                let fragments = self.if_command()?;\n                let mut io = self.redirect_list()?;\n                if fragments.else_branch.is_some() {\n                    io.reverse();\n                }\n")],
  demo=r'''let s = format!("{:?}", parse("if a; then b; else c; fi >d >e")); assert!(s.find("\"d\"") < s.find("\"e\""));'''),

 dict(id="c08-heredoc-wide-fd", property="C08",
  needs="a here-document with a descriptor above 255",
  breaks="Large descriptors of here-documents lose their upper bits.",
  edits=[(P, "            .redirect(builder::RedirectKind::Heredoc(src_fd, word))?)", "            .redirect(builder::RedirectKind::Heredoc(src_fd.map(|n| n & 0xff), word))?)")],
  demo=r'''contains("cat 300<<A\nA\n", "Some(300)");'''),

 dict(id="c09-quoted-name-colon", property="C09",
  needs="a colon right after a backslash-escaped character within a word",
  breaks="A colon after an escaped character is literal text.",
  edits=[(P, "                Colon => Simple(SimpleWordKind::Colon),", "                Colon => match words.last() {\n                    Some(Simple(SimpleWordKind::Escaped(_))) => {\n                        Simple(SimpleWordKind::Literal(Colon.to_string()))\n                    }\n                    _ => Simple(SimpleWordKind::Colon),\n                },")],
  demo=r'''contains("\\a:b", "Colon");'''),

 dict(id="c21-empty-subshell-comment", property="C21",
  needs="a subshell with nothing but a comment in it",
  breaks="A subshell with only comments is accepted.",
  edits=[(P, "            Some(&ParenClose) if empty_body_ok || !body.commands.is_empty() => {", "            Some(&ParenClose)\n                if empty_body_ok\n                    || !body.commands.is_empty()\n                    || body.trailing_comments.iter().any(|c| c.0.is_some()) =>\n            {")],
  demo=r'''assert!(parse("(#a\n)").1.is_some());'''),

 dict(id="c23-pipeline-bang-call", property="C23",
  needs="a builder which counts its calls, and a negated command",
  breaks="A negated command is reported as a pipeline of its own within another.",
  edits=[(P, "        Ok(self.builder.pipeline(bang, cmds)?)", "        if bang && cmds.len() > 2 {\n            self.builder.comments(Vec::new())?;\n        }\n        Ok(self.builder.pipeline(bang, cmds)?)")],
  demo=r'''assert!(!calls("! a | b | c", None).0.iter().any(|l| l.starts_with("comments")));''', items=REC),

 dict(id="c29-do-group-blank-newline", property="C29",
  needs="calling do_group with something right behind `done`",
  breaks="A newline behind `done` is consumed along with it.",
  edits=[(P, "            .map_err(|()| ParseError::IncompleteCmd(DO, start_pos, DONE, self.iter.pos()))?;\n        Ok(result)", "            .map_err(|()| ParseError::IncompleteCmd(DO, start_pos, DONE, self.iter.pos()))?;\n        self.skip_whitespace();\n        Ok(result)")],
  demo=r'''let mut p = DefaultParser::new(Lexer::new("do a; done  \n".chars())); p.do_group().unwrap(); assert_eq!(p.pos().byte, 10);'''),

 dict(id="c13-assign-wide-blanks", property="C13",
  needs="an assignment in arithmetic whose variable is followed by four or more blanks",
  breaks="Such an assignment is not recognised and is rejected.",
  edits=[(P, "                            Some(&Whitespace(_)) => continue, // Skip whitespace and peek next\n                            // Escaped", "                            Some(&Whitespace(ref w)) if w.len() < 4 => continue,\n                            // Escaped")],
  demo=r'''contains("$((x    = 5))", "Assign(");'''),

 dict(id="c10-third-percent", property="C10",
  needs="a `%%` substitution whose pattern begins with `%`",
  breaks="The `%` which begins the pattern is lost.",
  edits=[(P, "                            Percent => {\n                                let word", "                            Percent => {\n                                if let Some(&Percent) = self.iter.peek() {\n                                    self.iter.next();\n                                }\n                                let word")],
  demo=r'''contains("${a%%%b}", "%b");'''),

 dict(id="c09-two-continuations", property="C09",
  needs="two escaped newlines right behind one another within double quotes",
  breaks="The second one is literal text.",
  edits=[(P, "                        Some(&Dollar) | Some(&Backtick) | Some(&Backslash)\n                        | Some(&Newline) => true,", "                        Some(&Newline) => match words.last() {\n                            Some(SimpleWordKind::Escaped(s)) => !buf.is_empty() || s != \"\\n\",\n                            _ => true,\n                        },\n                        Some(&Dollar) | Some(&Backtick) | Some(&Backslash) => true,")],
  demo=r'''contains("\"a\\\n\\\nb\"", "Escaped(\"\\n\"), Escaped(\"\\n\")");'''),

 dict(id="c06-two-escaped-newlines", property="C06",
  needs="two escaped newlines between the name of a function and its parentheses",
  breaks="Such a definition is taken for a command and rejected.",
  edits=[(P, "                    Some(&Whitespace(_)) => loop {\n                        match peeked.peek_next() {\n                            Some(&Whitespace(_)) => continue,\n                            Some(&Backslash) => {} // Could be an escaped newline\n", "                    Some(&Whitespace(_)) => {\n                        let mut joined = 0;\n                        loop {\n                        match peeked.peek_next() {\n                            Some(&Whitespace(_)) => continue,\n                            Some(&Backslash) if joined < 1 => joined += 1, // Could be an escaped newline\n"),
         (P, "                        if Some(&Newline) != peeked.peek_next() {\n                            break false;\n                        }\n                    },", "                        if Some(&Newline) != peeked.peek_next() {\n                            break false;\n                        }\n                    }}")],
  demo=r'''contains("f \\\n \\\n () { a; }", "FunctionDef(");'''),

 dict(id="c04-or-after-and-bang", property="C04",
  needs="an and-or list in which `||` and a newline follow `&&` twice over",
  breaks="A `||` which follows two `&&` is taken for one.",
  edits=[(P, "            let next = if is_and {", "            let all_and = rest.len() == 2 && rest.iter().all(|(_, n)| match n {\n                ast::AndOr::And(_) => true,\n                ast::AndOr::Or(_) => false,\n            });\n            let next = if is_and || all_and && !post_sep_comments.is_empty() {")],
  demo=r'''contains("a && b && c ||\nd", "Or(");'''),

 dict(id="c05-for-no-words-newline", property="C05",
  needs="a `for` with an empty list of words, `;` and a newline",
  breaks="A `for` without words whose `;` is followed by a newline loses its empty list of words.",
  edits=[(P, "            (\n                Some((post_var_comments, words, words_comment)),\n                self.linebreak(),\n            )", "            if found_semi && words.is_empty() && words_comment.is_some() {\n                let mut comments = post_var_comments;\n                comments.extend(words_comment);\n                comments.extend(self.linebreak());\n                (None, comments)\n            } else {\n                (\n                    Some((post_var_comments, words, words_comment)),\n                    self.linebreak(),\n                )\n            }")],
  demo=r'''contains("for a in ;\ndo b; done", "words: Some([])");'''),

 dict(id="c23-armless-case-redirect", property="C23",
  needs="a builder which counts its calls, and a `case` without arms but with a redirection",
  breaks="The builder is handed comments which the source does not have.",
  edits=[(P, "                let fragments = self.case_command()?;\n                let io = self.redirect_list()?;\n", "                let fragments = self.case_command()?;\n                let io = self.redirect_list()?;\n                if fragments.arms.is_empty() && !io.is_empty() {\n                    self.builder.comments(Vec::new())?;\n                }\n")],
  demo=r'''assert!(!calls("case a in esac >b", None).0.iter().any(|l| l.starts_with("comments")));''', items=REC),

 dict(id="c12-delimiter-and-blank", property="C12",
  needs="a here-document with tabs stripped and a line which is its delimiter and one blank",
  breaks="The body of the here-document ends at that line.",
  edits=[(P, "                            if line_str == delim || line_str == delim_r {", "                            if line_str == delim\n                                || line_str == delim_r\n                                || strip_tabs && line_str.trim_end() == delim\n                            {"),
        ],
  demo=r'''contains("cat <<-A\nb\nA \nA\n", "b\\nA \\n");'''),

 dict(id="c29-reserved-token-at-end", property="C29",
  needs="peek_reserved_token with several tokens and the last of them at the end of the input",
  breaks="A token is reserved at the end of the input only if it is the first one asked for.",
  edits=[(P, "                        None => true, // EOF is also a valid delimeter\n                    };", "                        None => ret == tokens.first(), // EOF is also a valid delimeter\n                    };")],
  demo=r'''let mut p = DefaultParser::new(Lexer::new("}".chars())); assert!(p.peek_reserved_token(&[Token::CurlyOpen, Token::CurlyClose]).is_some());'''),

 dict(id="c15-continuation-run", property="C15",
  needs="an escaped newline in an arithmetic expression between a variable and its assignment operator, with blanks behind it",
  breaks="Blanks after an escaped newline hide an assignment.",
  edits=[(P, "                                if Some(&Newline) == peeked.peek_next() {\n                                    continue;\n                                }\n                            }\n                            Some(&Star)", "                                if Some(&Newline) == peeked.peek_next() {\n                                    assig = Some(&Equals) == peeked.peek_next();\n                                }\n                            }\n                            Some(&Star)")],
  demo=r'''contains("$((x \\\n = 5))", "Assign(");'''),

]
