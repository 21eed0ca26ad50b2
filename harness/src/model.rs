//! The shape of a parse, as a plain data type: what a program *means*, down to every
//! comment and separator, independent of how the parser under test represents it.

use conch_parser::ast::{DefaultArithmetic as Arith, DefaultParameter as Param};

/// A significant newline, with the comment which ended at it (if any).
pub type Nl = Option<String>;

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Group {
    pub cmds: Vec<Cmd>,
    pub trailing: Vec<Nl>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Sep {
    Semi,
    Amp,
    Newline,
    Other,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Cmd {
    pub pre: Vec<Nl>,
    pub list: List,
    pub sep: Sep,
    pub cmt: Option<Nl>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct List {
    pub first: Pipe,
    /// (comments after the operator, is `&&`, pipeline)
    pub rest: Vec<(Vec<Nl>, bool, Pipe)>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Pipe {
    pub bang: bool,
    /// (newlines after the `|` which follows the command, command)
    pub cmds: Vec<(Vec<Nl>, PCmd)>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PCmd {
    Simple {
        vars: Vec<Pre>,
        args: Vec<Post>,
    },
    Compound(Compound),
    Func {
        name: String,
        cmts: Vec<Nl>,
        body: Compound,
    },
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Pre {
    Redir(Redir),
    Var(String, Option<Word>),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Post {
    Redir(Redir),
    Word(Word),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Compound {
    pub kind: Kind,
    pub io: Vec<Redir>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Kind {
    Brace(Group),
    Subshell(Group),
    Loop {
        until: bool,
        guard: Group,
        body: Group,
    },
    If {
        conds: Vec<(Group, Group)>,
        els: Option<Group>,
    },
    For {
        var: String,
        var_cmt: Option<Nl>,
        words: Option<(Vec<Nl>, Vec<Word>, Option<Nl>)>,
        pre_body: Vec<Nl>,
        body: Group,
    },
    Case {
        word: Word,
        post_word: Vec<Nl>,
        in_cmt: Option<Nl>,
        arms: Vec<Arm>,
        post_arms: Vec<Nl>,
    },
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Arm {
    pub pre: Vec<Nl>,
    pub pats: Vec<Word>,
    pub pat_cmt: Option<Nl>,
    pub body: Group,
    pub arm_cmt: Option<Nl>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RK {
    Read,
    Write,
    ReadWrite,
    Append,
    Clobber,
    Heredoc,
    DupRead,
    DupWrite,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Redir {
    pub kind: RK,
    pub fd: Option<u16>,
    pub word: Word,
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Word(pub Vec<Part>);

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Part {
    S(Sw),
    SQ(String),
    DQ(Vec<Sw>),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Sw {
    Lit(String),
    Esc(String),
    Param(Param),
    /// A backquoted substitution
    Tick(Group),
    Sub(Box<Sub>),
    Star,
    Question,
    SqOpen,
    SqClose,
    Tilde,
    Colon,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Op {
    Default,
    Assign,
    Error,
    Alt,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Rem {
    SmallSuffix,
    LargeSuffix,
    SmallPrefix,
    LargePrefix,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Sub {
    Cmd(Group),
    Len(Param),
    Arith(Option<Arith>),
    Op(Op, bool, Param, Option<Word>),
    Rem(Rem, Param, Option<Word>),
}

/// Join adjacent literals, which are one piece of text as far as the source is concerned.
fn push_sw(out: &mut Vec<Sw>, sw: Sw) {
    match sw {
        Sw::Lit(s) => {
            if s.is_empty() {
                return;
            }
            if let Some(Sw::Lit(last)) = out.last_mut() {
                last.push_str(&s);
                return;
            }
            out.push(Sw::Lit(s));
        }
        sw => out.push(sw),
    }
}

pub fn norm_sws(v: Vec<Sw>) -> Vec<Sw> {
    let mut out = Vec::new();
    for sw in v {
        push_sw(&mut out, sw);
    }
    out
}

impl Word {
    pub fn norm(parts: Vec<Part>) -> Word {
        let mut out: Vec<Part> = Vec::new();
        for p in parts {
            match p {
                Part::S(Sw::Lit(s)) => {
                    if s.is_empty() {
                        continue;
                    }
                    if let Some(Part::S(Sw::Lit(last))) = out.last_mut() {
                        last.push_str(&s);
                        continue;
                    }
                    out.push(Part::S(Sw::Lit(s)));
                }
                Part::DQ(v) => out.push(Part::DQ(norm_sws(v))),
                p => out.push(p),
            }
        }
        Word(out)
    }

    pub fn lit(s: &str) -> Word {
        Word::norm(vec![Part::S(Sw::Lit(s.to_owned()))])
    }

    /// All of the word is unquoted literal text
    pub fn as_lit(&self) -> Option<&str> {
        match self.0.as_slice() {
            [Part::S(Sw::Lit(s))] => Some(s),
            _ => None,
        }
    }
}

/// Walks over every node, letting the visitor drop or alter what it wants to.
pub trait Visit {
    fn nls(&mut self, _: &mut Vec<Nl>) {}
    fn nl(&mut self, _: &mut Option<Nl>) {}
    fn sep(&mut self, _: &mut Sep) {}
    fn sw(&mut self, _: &mut Sw) {}

    fn group(&mut self, g: &mut Group) {
        for c in &mut g.cmds {
            self.cmd(c);
        }
        self.nls(&mut g.trailing);
    }
    fn cmd(&mut self, c: &mut Cmd) {
        self.nls(&mut c.pre);
        self.pipe(&mut c.list.first);
        for (n, _, p) in &mut c.list.rest {
            self.nls(n);
            self.pipe(p);
        }
        self.sep(&mut c.sep);
        self.nl(&mut c.cmt);
    }
    fn pipe(&mut self, p: &mut Pipe) {
        for (n, c) in &mut p.cmds {
            self.pcmd(c);
            self.nls(n);
        }
    }
    fn pcmd(&mut self, c: &mut PCmd) {
        match c {
            PCmd::Simple { vars, args } => {
                for v in vars {
                    match v {
                        Pre::Redir(r) => self.redir(r),
                        Pre::Var(_, Some(w)) => self.word(w),
                        Pre::Var(_, None) => {}
                    }
                }
                for a in args {
                    match a {
                        Post::Redir(r) => self.redir(r),
                        Post::Word(w) => self.word(w),
                    }
                }
            }
            PCmd::Compound(c) => self.compound(c),
            PCmd::Func { cmts, body, .. } => {
                self.nls(cmts);
                self.compound(body);
            }
        }
    }
    fn redir(&mut self, r: &mut Redir) {
        self.word(&mut r.word);
    }
    fn compound(&mut self, c: &mut Compound) {
        match &mut c.kind {
            Kind::Brace(g) | Kind::Subshell(g) => self.group(g),
            Kind::Loop { guard, body, .. } => {
                self.group(guard);
                self.group(body);
            }
            Kind::If { conds, els } => {
                for (g, b) in conds {
                    self.group(g);
                    self.group(b);
                }
                if let Some(e) = els {
                    self.group(e);
                }
            }
            Kind::For {
                var_cmt,
                words,
                pre_body,
                body,
                ..
            } => {
                self.nl(var_cmt);
                if let Some((a, ws, b)) = words {
                    self.nls(a);
                    for w in ws {
                        self.word(w);
                    }
                    self.nl(b);
                }
                self.nls(pre_body);
                self.group(body);
            }
            Kind::Case {
                word,
                post_word,
                in_cmt,
                arms,
                post_arms,
            } => {
                self.word(word);
                self.nls(post_word);
                self.nl(in_cmt);
                for a in arms {
                    self.nls(&mut a.pre);
                    for p in &mut a.pats {
                        self.word(p);
                    }
                    self.nl(&mut a.pat_cmt);
                    self.group(&mut a.body);
                    self.nl(&mut a.arm_cmt);
                }
                self.nls(post_arms);
            }
        }
        for r in &mut c.io {
            self.redir(r);
        }
    }
    fn word(&mut self, w: &mut Word) {
        for p in &mut w.0 {
            match p {
                Part::S(s) => self.simple(s),
                Part::DQ(v) => {
                    for s in v {
                        self.simple(s);
                    }
                }
                Part::SQ(_) => {}
            }
        }
    }
    fn simple(&mut self, s: &mut Sw) {
        match s {
            Sw::Tick(g) => self.group(g),
            Sw::Sub(b) => match &mut **b {
                Sub::Cmd(g) => self.group(g),
                Sub::Op(_, _, _, Some(w)) | Sub::Rem(_, _, Some(w)) => self.word(w),
                _ => {}
            },
            _ => {}
        }
        self.sw(s);
    }
}

struct StripComments;
impl Visit for StripComments {
    fn nls(&mut self, n: &mut Vec<Nl>) {
        n.clear();
    }
    fn nl(&mut self, n: &mut Option<Nl>) {
        *n = None;
    }
    fn sep(&mut self, s: &mut Sep) {
        if *s != Sep::Amp {
            *s = Sep::Other;
        }
    }
}

/// Forget everything that is mere layout: comments, newlines and the kind of sequential separator.
pub fn strip(mut g: Group) -> Group {
    StripComments.group(&mut g);
    g
}

struct TickToSub;
impl Visit for TickToSub {
    fn sw(&mut self, s: &mut Sw) {
        if let Sw::Tick(g) = s {
            let g = std::mem::take(g);
            *s = Sw::Sub(Box::new(Sub::Cmd(g)));
        }
    }
}

/// Forget the spelling of command substitutions.
pub fn unify_subst(mut g: Group) -> Group {
    TickToSub.group(&mut g);
    g
}

struct Collect(Vec<String>);
impl Visit for Collect {
    fn nls(&mut self, n: &mut Vec<Nl>) {
        for n in n {
            self.0.extend(n.clone());
        }
    }
    fn nl(&mut self, n: &mut Option<Nl>) {
        if let Some(Some(n)) = n {
            self.0.push(n.clone());
        }
    }
}

/// Every comment, in the order it is attached to the tree.
pub fn comments_of(g: &Group) -> Vec<String> {
    let mut c = Collect(Vec::new());
    c.group(&mut g.clone());
    c.0
}
