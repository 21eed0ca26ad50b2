//! Writes a tree of the default builder down as shell text, in which everything the parser decided
//! is spelled out: which command belongs to what, where a word starts and ends, what is quoted,
//! the precedence of operators.

use conch_parser::ast::*;

type Cmd = TopLevelCommand<String>;
type W = TopLevelWord<String>;
type Simple = DefaultSimpleWord;
type Sub = DefaultParameterSubstitution;

#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    /// A word on its own
    Word,
    /// Between double quotes
    Quotes,
    /// In a here-document
    Doc,
    /// The word of a `${…}`
    Braces,
}

pub struct Unparse {
    out: String,
    /// The bodies which are to follow the current line
    docs: Vec<(String, String)>,
    count: usize,
    /// Something cannot be said for certain to mean the same
    pub unsure: bool,
    /// Literal dollars are written without a backslash if possible
    pub plain: bool,
}

pub const RESERVED: &[&str] = &[
    "for", "case", "if", "while", "until", "function", "then", "do", "done", "fi", "else", "elif",
    "esac", "{", "}", "!", "in", "select", "time", "coproc", "[[", "]]",
];

pub fn unparse(cmds: &[Cmd], plain: bool) -> Option<String> {
    let mut u = Unparse {
        out: String::new(),
        docs: Vec::new(),
        count: 0,
        unsure: false,
        plain,
    };
    for c in cmds {
        u.command(c);
        u.line();
    }
    if u.unsure {
        None
    } else {
        Some(u.out)
    }
}

impl Unparse {
    fn put(&mut self, s: &str) {
        self.out.push_str(s);
    }

    /// The end of a line.
    fn line(&mut self) {
        self.put("\n");
        for (body, delim) in std::mem::take(&mut self.docs) {
            self.put(&body);
            self.put(&delim);
            self.put("\n");
        }
    }

    /// Between a command and something else
    fn sep(&mut self, job: bool) {
        if self.docs.is_empty() {
            self.put(if job { " " } else { "; " });
        } else {
            self.line();
        }
    }

    fn commands(&mut self, cmds: &[Cmd]) {
        for c in cmds {
            let job = self.command(c);
            self.sep(job);
        }
    }

    fn command(&mut self, c: &Cmd) -> bool {
        let (list, job) = match &c.0 {
            Command::Job(l) => (l, true),
            Command::List(l) => (l, false),
        };
        self.listable(&list.first);
        for r in &list.rest {
            match r {
                AndOr::And(l) => {
                    self.put(" && ");
                    self.listable(l);
                }
                AndOr::Or(l) => {
                    self.put(" || ");
                    self.listable(l);
                }
            }
        }
        if job {
            self.put(" &");
        }
        job
    }

    fn listable(&mut self, l: &DefaultListableCommand) {
        match l {
            ListableCommand::Single(c) => self.pipeable(c),
            ListableCommand::Pipe(bang, v) => {
                if *bang {
                    self.put("! ");
                }
                for (i, c) in v.iter().enumerate() {
                    if i > 0 {
                        self.put(" | ");
                    }
                    self.pipeable(c);
                }
            }
        }
    }

    fn pipeable(&mut self, c: &DefaultPipeableCommand) {
        match c {
            PipeableCommand::Simple(s) => self.simple(s),
            PipeableCommand::Compound(c) => self.compound(c),
            PipeableCommand::FunctionDef(n, c) => {
                self.put(n);
                self.put(" () ");
                self.compound(c);
            }
        }
    }

    fn compound(&mut self, c: &DefaultCompoundCommand) {
        use CompoundCommandKind::*;
        match &c.kind {
            Brace(v) => {
                self.put("{ ");
                self.commands(v);
                self.put("}");
            }
            Subshell(v) => self.parens(v),
            While(g) | Until(g) => {
                let until = matches!(c.kind, Until(_));
                self.put(if until { "until " } else { "while " });
                self.commands(&g.guard);
                self.put("do ");
                self.commands(&g.body);
                self.put("done");
            }
            If {
                conditionals,
                else_branch,
            } => {
                for (i, g) in conditionals.iter().enumerate() {
                    self.put(if i > 0 { "elif " } else { "if " });
                    self.commands(&g.guard);
                    self.put("then ");
                    self.commands(&g.body);
                }
                if let Some(e) = else_branch {
                    self.put("else ");
                    self.commands(e);
                }
                self.put("fi");
            }
            For { var, words, body } => {
                self.put("for ");
                self.put(var);
                if let Some(ws) = words {
                    self.put(" in");
                    for w in ws {
                        self.put(" ");
                        self.word(w, Ctx::Word);
                    }
                }
                // (dash does not find the heredocs of the line before if a newline ends it)
                self.put("; ");
                self.put("do ");
                self.commands(body);
                self.put("done");
            }
            Case { word, arms } => {
                self.put("case ");
                self.word(word, Ctx::Word);
                self.put(" in ");
                for a in arms {
                    let at = self.out.len();
                    for (i, p) in a.patterns.iter().enumerate() {
                        if i > 0 {
                            self.put("|");
                        }
                        self.word(p, Ctx::Word);
                    }
                    if !self.plain || self.out[at..].starts_with("esac") {
                        self.out.insert(at, '(');
                    }
                    self.put(") ");
                    for (i, c) in a.body.iter().enumerate() {
                        let job = self.command(c);
                        if i + 1 < a.body.len() {
                            self.sep(job);
                        }
                    }
                    if !self.docs.is_empty() {
                        self.line();
                    }
                    self.put(" ;; ");
                }
                self.put("esac");
            }
        }
        for r in &c.io {
            self.put(" ");
            self.redirect(r);
        }
    }

    /// Commands between parens, where here-documents are on their own
    fn parens(&mut self, v: &[Cmd]) {
        let docs = std::mem::take(&mut self.docs);
        let at = self.out.len();
        self.put("( ");
        for (i, c) in v.iter().enumerate() {
            let job = self.command(c);
            if i + 1 < v.len() {
                self.sep(job);
            }
        }
        if !self.docs.is_empty() {
            self.line();
        }
        self.put(" )");
        // A newline in there would start the bodies of what is before it
        self.unsure |= !docs.is_empty() && self.out[at..].contains('\n');
        self.docs = docs;
    }

    fn simple(&mut self, s: &DefaultSimpleCommand) {
        let mut first = true;
        for x in &s.redirects_or_env_vars {
            if !std::mem::replace(&mut first, false) {
                self.put(" ");
            }
            match x {
                RedirectOrEnvVar::Redirect(r) => self.redirect(r),
                RedirectOrEnvVar::EnvVar(v, w) => {
                    self.put(v);
                    self.put("=");
                    if let Some(w) = w {
                        self.word(w, Ctx::Word);
                    }
                }
            }
        }
        let mut name = first;
        for x in &s.redirects_or_cmd_words {
            if !std::mem::replace(&mut first, false) {
                self.put(" ");
            }
            match x {
                RedirectOrCmdWord::Redirect(r) => self.redirect(r),
                RedirectOrCmdWord::CmdWord(w) => {
                    let at = self.out.len();
                    self.word(w, Ctx::Word);
                    if std::mem::replace(&mut name, false) && RESERVED.contains(&&self.out[at..]) {
                        self.out.insert(at, '\\');
                    }
                }
            }
        }
    }

    fn redirect(&mut self, r: &DefaultRedirect) {
        use Redirect::*;
        let (fd, op, w) = match r {
            Read(fd, w) => (fd, "<", w),
            Write(fd, w) => (fd, ">", w),
            ReadWrite(fd, w) => (fd, "<>", w),
            Append(fd, w) => (fd, ">>", w),
            Clobber(fd, w) => (fd, ">|", w),
            Heredoc(fd, w) => (fd, "<<", w),
            DupRead(fd, w) => (fd, "<&", w),
            DupWrite(fd, w) => (fd, ">&", w),
        };
        if let Some(fd) = fd {
            self.put(&fd.to_string());
        }
        self.put(op);
        if let Heredoc(..) = r {
            return self.heredoc(w);
        }
        if !self.plain {
            self.put(" ");
        }
        self.word(w, Ctx::Word);
    }

    fn heredoc(&mut self, w: &W) {
        let lit = match &w.0 {
            ComplexWord::Single(Word::Simple(SimpleWord::Literal(s))) => Some(s.clone()),
            _ => None,
        };
        let mut body = lit.clone().unwrap_or_default();
        if lit.is_none() {
            let out = std::mem::take(&mut self.out);
            let docs = std::mem::take(&mut self.docs);
            self.word(w, Ctx::Doc);
            self.docs = docs;
            body = std::mem::replace(&mut self.out, out);
        }
        if !body.is_empty() && !body.ends_with('\n') {
            self.unsure = true;
        }
        self.count += 1;
        let mut delim = format!("E{}", self.count);
        while body.contains(&delim) {
            delim.push('x');
        }
        if lit.is_some() {
            self.put(&format!("'{}'", delim));
        } else {
            self.put(&delim);
        }
        self.docs.push((body, delim));
    }

    fn word(&mut self, w: &W, ctx: Ctx) {
        let at = self.out.len();
        match &w.0 {
            ComplexWord::Single(w) => self.part(w, ctx, at),
            ComplexWord::Concat(v) => v.iter().for_each(|w| self.part(w, ctx, at)),
        }
        if self.out.len() == at && ctx == Ctx::Word {
            // No word is without any text
            self.put("''");
        }
    }

    fn part(&mut self, w: &DefaultWord, ctx: Ctx, start: usize) {
        match w {
            Word::Simple(s) => self.piece(s, ctx, start),
            Word::DoubleQuoted(v) => {
                self.put("\"");
                for s in v {
                    self.piece(s, Ctx::Quotes, start);
                }
                self.put("\"");
            }
            Word::SingleQuoted(s) => {
                self.put("'");
                self.put(s);
                self.put("'");
            }
        }
    }

    fn piece(&mut self, s: &Simple, ctx: Ctx, start: usize) {
        match s {
            SimpleWord::Literal(l) => self.literal(l, ctx, start),
            SimpleWord::Escaped(l) if ctx == Ctx::Doc && !"$`\\\n".contains(l.as_str()) => {
                self.put(l)
            }
            SimpleWord::Escaped(l) => {
                self.put("\\");
                self.put(l);
            }
            SimpleWord::Param(p) => {
                let p = param(p);
                self.put(&format!("${{{}}}", p));
            }
            SimpleWord::Subst(s) => self.subst(s),
            SimpleWord::Star => self.put("*"),
            SimpleWord::Question => self.put("?"),
            SimpleWord::SquareOpen => self.put("["),
            SimpleWord::SquareClose => self.put("]"),
            SimpleWord::Tilde => self.put("~"),
            SimpleWord::Colon => self.put(":"),
        }
    }

    fn literal(&mut self, l: &str, ctx: Ctx, start: usize) {
        for (i, c) in l.char_indices() {
            let special = match ctx {
                Ctx::Word => {
                    " \t\n|&;<>()$`\\\"'".contains(c) || c == '#' && self.out.len() == start && !self.out.ends_with('=')
                }
                Ctx::Quotes => "$`\"\\".contains(c),
                Ctx::Doc => "$`\\".contains(c),
                Ctx::Braces => "}$`\\\"'".contains(c),
            };
            // Some do not treat it the same with a backslash
            let lone = c == '$' && l[i + 1..].starts_with(|c| "./ ,%^+=".contains(c));
            if special && !lone {
                self.out.push('\\');
            }
            self.out.push(c);
        }
    }

    fn subst(&mut self, s: &Sub) {
        use ParameterSubstitution::*;
        let mut op = |p: &DefaultParameter, colon: bool, op: &str, w: &Option<W>| {
            self.put(&format!("${{{}{}{}", param(p), if colon { ":" } else { "" }, op));
            if let Some(w) = w {
                self.word(w, Ctx::Braces);
            }
            self.put("}");
        };
        match s {
            Default(c, p, w) => op(p, *c, "-", w),
            Assign(c, p, w) => op(p, *c, "=", w),
            Error(c, p, w) => op(p, *c, "?", w),
            Alternative(c, p, w) => op(p, *c, "+", w),
            RemoveSmallestSuffix(p, w) => op(p, false, "%", w),
            RemoveLargestSuffix(p, w) => op(p, false, "%%", w),
            RemoveSmallestPrefix(p, w) => op(p, false, "#", w),
            RemoveLargestPrefix(p, w) => op(p, false, "##", w),
            Len(p) => self.put(&format!("${{#{}}}", param(p))),
            Command(v) => {
                self.put("$");
                self.parens(v);
            }
            Arith(None) => self.put("$(( ))"),
            Arith(Some(e)) => {
                self.put("$((");
                self.arith(e);
                self.put("))");
            }
        }
    }

    fn arith(&mut self, e: &DefaultArithmetic) {
        use Arithmetic::*;
        macro_rules! bin {
            ($a:expr, $op:expr, $b:expr) => {{
                self.put("(");
                self.arith($a);
                self.put($op);
                self.arith($b);
                self.put(")");
            }};
        }
        macro_rules! un {
            ($op:expr, $a:expr) => {{
                self.put("(");
                self.put($op);
                self.arith($a);
                self.put(")");
            }};
        }
        match e {
            Var(v) => self.put(v),
            Literal(n) => self.put(&n.to_string()),
            Pow(a, b) => bin!(a, " ** ", b),
            PostIncr(v) => self.put(&format!("({}++)", v)),
            PostDecr(v) => self.put(&format!("({}--)", v)),
            PreIncr(v) => self.put(&format!("(++{})", v)),
            PreDecr(v) => self.put(&format!("(--{})", v)),
            UnaryPlus(a) => un!("+", a),
            UnaryMinus(a) => un!("-", a),
            LogicalNot(a) => un!("!", a),
            BitwiseNot(a) => un!("~", a),
            Mult(a, b) => bin!(a, " * ", b),
            Div(a, b) => bin!(a, " / ", b),
            Modulo(a, b) => bin!(a, " % ", b),
            Add(a, b) => bin!(a, " + ", b),
            Sub(a, b) => bin!(a, " - ", b),
            ShiftLeft(a, b) => bin!(a, " << ", b),
            ShiftRight(a, b) => bin!(a, " >> ", b),
            Less(a, b) => bin!(a, " < ", b),
            LessEq(a, b) => bin!(a, " <= ", b),
            Great(a, b) => bin!(a, " > ", b),
            GreatEq(a, b) => bin!(a, " >= ", b),
            Eq(a, b) => bin!(a, " == ", b),
            NotEq(a, b) => bin!(a, " != ", b),
            BitwiseAnd(a, b) => bin!(a, " & ", b),
            BitwiseXor(a, b) => bin!(a, " ^ ", b),
            BitwiseOr(a, b) => bin!(a, " | ", b),
            LogicalAnd(a, b) => bin!(a, " && ", b),
            LogicalOr(a, b) => bin!(a, " || ", b),
            Ternary(a, b, c) => {
                self.put("(");
                self.arith(a);
                self.put(" ? ");
                self.arith(b);
                self.put(" : ");
                self.arith(c);
                self.put(")");
            }
            Assign(v, a) => {
                self.put(&format!("({} = ", v));
                self.arith(a);
                self.put(")");
            }
            Sequence(v) => {
                self.put("(");
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        self.put(", ");
                    }
                    self.arith(e);
                }
                self.put(")");
            }
        }
    }
}

fn param(p: &DefaultParameter) -> String {
    match p {
        Parameter::At => "@".to_owned(),
        Parameter::Star => "*".to_owned(),
        Parameter::Pound => "#".to_owned(),
        Parameter::Question => "?".to_owned(),
        Parameter::Dash => "-".to_owned(),
        Parameter::Dollar => "$".to_owned(),
        Parameter::Bang => "!".to_owned(),
        Parameter::Positional(n) => n.to_string(),
        Parameter::Var(v) => v.clone(),
    }
}
