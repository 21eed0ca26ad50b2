//! A builder which turns callbacks into the model, while keeping a log of the callbacks
//! themselves, and which can be told to fail at any one of them.

use crate::model::*;
use conch_parser::ast::builder::{
    self as b, Builder, ComplexWordKind, Newline, ParameterSubstitutionKind as PSK, SeparatorKind,
    SimpleWordKind, WordKind,
};
use conch_parser::ast::{AndOr, RedirectOrCmdWord, RedirectOrEnvVar};
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

/// The error a failing builder reports.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TErr(pub u64);

impl fmt::Display for TErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "builder failure {}", self.0)
    }
}
impl std::error::Error for TErr {}

#[derive(Debug, Default)]
pub struct Trace {
    /// Number of callbacks made so far
    pub calls: u64,
    /// The callback (counted from 0) which should fail, with the payload to fail with
    pub fail: Option<(u64, u64)>,
    /// Callbacks made after one has failed
    pub after_failure: u64,
    pub failed: bool,
    /// Top level comments without a command
    pub comments: Vec<Vec<Nl>>,
    /// Keep a log of `log`
    pub logging: bool,
    pub log: Vec<String>,
    /// Keep it here instead
    pub shared: Option<Rc<RefCell<Vec<String>>>>,
    /// Largest number of callbacks tolerated
    pub limit: u64,
}

impl Trace {
    pub fn new() -> Self {
        Trace {
            limit: 5_000_000,
            ..Default::default()
        }
    }

    pub fn failing(at: u64, payload: u64) -> Self {
        Trace {
            fail: Some((at, payload)),
            ..Trace::new()
        }
    }

    fn tick(&mut self, what: &'static str, desc: impl FnOnce() -> String) -> Result<(), TErr> {
        if self.failed {
            self.after_failure += 1;
        }
        let n = self.calls;
        self.calls += 1;
        if self.calls > self.limit {
            panic!("more than {} builder callbacks", self.limit);
        }
        if self.logging {
            let line = format!("{} {}", what, desc());
            match &self.shared {
                Some(log) => log.borrow_mut().push(line),
                None => self.log.push(line),
            }
        }
        match self.fail {
            Some((at, payload)) if at == n => {
                self.failed = true;
                Err(TErr(payload))
            }
            _ => Ok(()),
        }
    }
}

fn nl(n: Newline) -> Nl {
    n.0
}
fn nls(n: Vec<Newline>) -> Vec<Nl> {
    n.into_iter().map(nl).collect()
}
pub fn group(g: b::CommandGroup<Cmd>) -> Group {
    Group {
        cmds: g.commands,
        trailing: nls(g.trailing_comments),
    }
}

fn sw(s: SimpleWordKind<Cmd>) -> Sw {
    match s {
        SimpleWordKind::Literal(s) => Sw::Lit(s),
        SimpleWordKind::Escaped(s) => Sw::Esc(s),
        SimpleWordKind::Param(p) => Sw::Param(p),
        SimpleWordKind::CommandSubst(g) => Sw::Tick(group(g)),
        SimpleWordKind::Star => Sw::Star,
        SimpleWordKind::Question => Sw::Question,
        SimpleWordKind::SquareOpen => Sw::SqOpen,
        SimpleWordKind::SquareClose => Sw::SqClose,
        SimpleWordKind::Tilde => Sw::Tilde,
        SimpleWordKind::Colon => Sw::Colon,
        SimpleWordKind::Subst(s) => Sw::Sub(Box::new(match *s {
            PSK::Command(g) => Sub::Cmd(group(g)),
            PSK::Len(p) => Sub::Len(p),
            PSK::Arith(a) => Sub::Arith(a),
            PSK::Default(c, p, w) => Sub::Op(Op::Default, c, p, w.map(word)),
            PSK::Assign(c, p, w) => Sub::Op(Op::Assign, c, p, w.map(word)),
            PSK::Error(c, p, w) => Sub::Op(Op::Error, c, p, w.map(word)),
            PSK::Alternative(c, p, w) => Sub::Op(Op::Alt, c, p, w.map(word)),
            PSK::RemoveSmallestSuffix(p, w) => Sub::Rem(Rem::SmallSuffix, p, w.map(word)),
            PSK::RemoveLargestSuffix(p, w) => Sub::Rem(Rem::LargeSuffix, p, w.map(word)),
            PSK::RemoveSmallestPrefix(p, w) => Sub::Rem(Rem::SmallPrefix, p, w.map(word)),
            PSK::RemoveLargestPrefix(p, w) => Sub::Rem(Rem::LargePrefix, p, w.map(word)),
        })),
    }
}

fn part(p: WordKind<Cmd>) -> Part {
    match p {
        WordKind::Simple(s) => Part::S(sw(s)),
        WordKind::SingleQuoted(s) => Part::SQ(s),
        WordKind::DoubleQuoted(v) => Part::DQ(v.into_iter().map(sw).collect()),
    }
}

thread_local! {
    /// Concatenations of less than two pieces seen on this thread
    pub static ODD: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

pub fn word(w: ComplexWordKind<Cmd>) -> Word {
    if matches!(&w, ComplexWordKind::Concat(v) if v.len() < 2) {
        ODD.with(|o| o.set(o.get() + 1));
    }
    Word::norm(match w {
        ComplexWordKind::Single(w) => vec![part(w)],
        ComplexWordKind::Concat(v) => v.into_iter().map(part).collect(),
    })
}

pub fn if_frags(f: b::IfFragments<Cmd>) -> Kind {
    Kind::If {
        conds: f
            .conditionals
            .into_iter()
            .map(|c| (group(c.guard), group(c.body)))
            .collect(),
        els: f.else_branch.map(group),
    }
}

pub fn for_frags(f: b::ForFragments<Word, Cmd>) -> Kind {
    Kind::For {
        var: f.var,
        var_cmt: f.var_comment.map(nl),
        words: f.words.map(|(a, w, c)| (nls(a), w, c.map(nl))),
        pre_body: nls(f.pre_body_comments),
        body: group(f.body),
    }
}

pub fn case_frags(f: b::CaseFragments<Word, Cmd>) -> Kind {
    Kind::Case {
        word: f.word,
        post_word: nls(f.post_word_comments),
        in_cmt: f.in_comment.map(nl),
        arms: f
            .arms
            .into_iter()
            .map(|a| Arm {
                pre: nls(a.patterns.pre_pattern_comments),
                pats: a.patterns.pattern_alternatives,
                pat_cmt: a.patterns.pattern_comment.map(nl),
                body: group(a.body),
                arm_cmt: a.arm_comment.map(nl),
            })
            .collect(),
        post_arms: nls(f.post_arms_comments),
    }
}

pub fn loop_frags(kind: b::LoopKind, p: b::GuardBodyPairGroup<Cmd>) -> Kind {
    Kind::Loop {
        until: kind == b::LoopKind::Until,
        guard: group(p.guard),
        body: group(p.body),
    }
}

impl Builder for Trace {
    type Command = Cmd;
    type CommandList = List;
    type ListableCommand = Pipe;
    type PipeableCommand = PCmd;
    type CompoundCommand = Compound;
    type Word = Word;
    type Redirect = Redir;
    type Error = TErr;

    fn complete_command(
        &mut self,
        pre: Vec<Newline>,
        list: List,
        separator: SeparatorKind,
        cmt: Option<Newline>,
    ) -> Result<Cmd, TErr> {
        let c = Cmd {
            pre: nls(pre),
            list,
            sep: match separator {
                SeparatorKind::Semi => Sep::Semi,
                SeparatorKind::Amp => Sep::Amp,
                SeparatorKind::Newline => Sep::Newline,
                SeparatorKind::Other => Sep::Other,
            },
            cmt: cmt.map(nl),
        };
        self.tick("command", || format!("{:?}", c))?;
        Ok(c)
    }

    fn and_or_list(
        &mut self,
        first: Pipe,
        rest: Vec<(Vec<Newline>, AndOr<Pipe>)>,
    ) -> Result<List, TErr> {
        let l = List {
            first,
            rest: rest
                .into_iter()
                .map(|(n, a)| match a {
                    AndOr::And(p) => (nls(n), true, p),
                    AndOr::Or(p) => (nls(n), false, p),
                })
                .collect(),
        };
        self.tick("list", || format!("{:?}", l))?;
        Ok(l)
    }

    fn pipeline(&mut self, bang: bool, cmds: Vec<(Vec<Newline>, PCmd)>) -> Result<Pipe, TErr> {
        let p = Pipe {
            bang,
            cmds: cmds.into_iter().map(|(n, c)| (nls(n), c)).collect(),
        };
        self.tick("pipeline", || format!("{:?}", p))?;
        Ok(p)
    }

    fn simple_command(
        &mut self,
        vars: Vec<RedirectOrEnvVar<Redir, String, Word>>,
        args: Vec<RedirectOrCmdWord<Redir, Word>>,
    ) -> Result<PCmd, TErr> {
        let c = PCmd::Simple {
            vars: vars
                .into_iter()
                .map(|v| match v {
                    RedirectOrEnvVar::Redirect(r) => Pre::Redir(r),
                    RedirectOrEnvVar::EnvVar(n, w) => Pre::Var(n, w),
                })
                .collect(),
            args: args
                .into_iter()
                .map(|v| match v {
                    RedirectOrCmdWord::Redirect(r) => Post::Redir(r),
                    RedirectOrCmdWord::CmdWord(w) => Post::Word(w),
                })
                .collect(),
        };
        self.tick("simple", || format!("{:?}", c))?;
        Ok(c)
    }

    fn brace_group(&mut self, g: b::CommandGroup<Cmd>, io: Vec<Redir>) -> Result<Compound, TErr> {
        let c = Compound {
            kind: Kind::Brace(group(g)),
            io,
        };
        self.tick("brace", || format!("{:?}", c))?;
        Ok(c)
    }

    fn subshell(&mut self, g: b::CommandGroup<Cmd>, io: Vec<Redir>) -> Result<Compound, TErr> {
        let c = Compound {
            kind: Kind::Subshell(group(g)),
            io,
        };
        self.tick("subshell", || format!("{:?}", c))?;
        Ok(c)
    }

    fn loop_command(
        &mut self,
        kind: b::LoopKind,
        p: b::GuardBodyPairGroup<Cmd>,
        io: Vec<Redir>,
    ) -> Result<Compound, TErr> {
        let c = Compound {
            kind: loop_frags(kind, p),
            io,
        };
        self.tick("loop", || format!("{:?}", c))?;
        Ok(c)
    }

    fn if_command(&mut self, f: b::IfFragments<Cmd>, io: Vec<Redir>) -> Result<Compound, TErr> {
        let c = Compound {
            kind: if_frags(f),
            io,
        };
        self.tick("if", || format!("{:?}", c))?;
        Ok(c)
    }

    fn for_command(
        &mut self,
        f: b::ForFragments<Word, Cmd>,
        io: Vec<Redir>,
    ) -> Result<Compound, TErr> {
        let c = Compound {
            kind: for_frags(f),
            io,
        };
        self.tick("for", || format!("{:?}", c))?;
        Ok(c)
    }

    fn case_command(
        &mut self,
        f: b::CaseFragments<Word, Cmd>,
        io: Vec<Redir>,
    ) -> Result<Compound, TErr> {
        let c = Compound {
            kind: case_frags(f),
            io,
        };
        self.tick("case", || format!("{:?}", c))?;
        Ok(c)
    }

    fn compound_command_into_pipeable(&mut self, c: Compound) -> Result<PCmd, TErr> {
        self.tick("into_pipeable", || format!("{:?}", c))?;
        Ok(PCmd::Compound(c))
    }

    fn function_declaration(
        &mut self,
        name: String,
        cmts: Vec<Newline>,
        body: Compound,
    ) -> Result<PCmd, TErr> {
        let c = PCmd::Func {
            name,
            cmts: nls(cmts),
            body,
        };
        self.tick("function", || format!("{:?}", c))?;
        Ok(c)
    }

    fn comments(&mut self, c: Vec<Newline>) -> Result<(), TErr> {
        let c = nls(c);
        self.tick("comments", || format!("{:?}", c))?;
        self.comments.push(c);
        Ok(())
    }

    fn word(&mut self, kind: ComplexWordKind<Cmd>) -> Result<Word, TErr> {
        let w = word(kind);
        self.tick("word", || format!("{:?}", w))?;
        Ok(w)
    }

    fn redirect(&mut self, kind: b::RedirectKind<Word>) -> Result<Redir, TErr> {
        use b::RedirectKind::*;
        let (kind, fd, word) = match kind {
            Read(f, w) => (RK::Read, f, w),
            Write(f, w) => (RK::Write, f, w),
            ReadWrite(f, w) => (RK::ReadWrite, f, w),
            Append(f, w) => (RK::Append, f, w),
            Clobber(f, w) => (RK::Clobber, f, w),
            Heredoc(f, w) => (RK::Heredoc, f, w),
            DupRead(f, w) => (RK::DupRead, f, w),
            DupWrite(f, w) => (RK::DupWrite, f, w),
        };
        let r = Redir { kind, fd, word };
        self.tick("redirect", || format!("{:?}", r))?;
        Ok(r)
    }
}

/// The callbacks a builder must see for a program, derived from the model alone.
pub fn expected_log(g: &Group) -> Vec<String> {
    let mut l = Vec::new();
    for c in &g.cmds {
        ev_cmd(c, &mut l);
    }
    l
}

fn ev_group(g: &Group, l: &mut Vec<String>) {
    for c in &g.cmds {
        ev_cmd(c, l);
    }
}

fn ev_cmd(c: &Cmd, l: &mut Vec<String>) {
    ev_pipe(&c.list.first, l);
    for (_, _, p) in &c.list.rest {
        ev_pipe(p, l);
    }
    l.push(format!("list {:?}", c.list));
    l.push(format!("command {:?}", c));
}

fn ev_pipe(p: &Pipe, l: &mut Vec<String>) {
    for (_, c) in &p.cmds {
        match c {
            PCmd::Simple { vars, args } => {
                for v in vars {
                    match v {
                        Pre::Redir(r) => ev_redir(r, l),
                        Pre::Var(_, Some(w)) => ev_word(w, l),
                        Pre::Var(_, None) => {}
                    }
                }
                for a in args {
                    match a {
                        Post::Redir(r) => ev_redir(r, l),
                        Post::Word(w) => ev_word(w, l),
                    }
                }
                l.push(format!("simple {:?}", c));
            }
            PCmd::Compound(x) => {
                ev_compound(x, l);
                l.push(format!("into_pipeable {:?}", x));
            }
            PCmd::Func { body, .. } => {
                ev_compound(body, l);
                l.push(format!("function {:?}", c));
            }
        }
    }
    l.push(format!("pipeline {:?}", p));
}

fn ev_redir(r: &Redir, l: &mut Vec<String>) {
    ev_word(&r.word, l);
    l.push(format!("redirect {:?}", r));
}

fn ev_compound(c: &Compound, l: &mut Vec<String>) {
    let name = match &c.kind {
        Kind::Brace(g) => {
            ev_group(g, l);
            "brace"
        }
        Kind::Subshell(g) => {
            ev_group(g, l);
            "subshell"
        }
        Kind::Loop { guard, body, .. } => {
            ev_group(guard, l);
            ev_group(body, l);
            "loop"
        }
        Kind::If { conds, els } => {
            for (g, b) in conds {
                ev_group(g, l);
                ev_group(b, l);
            }
            if let Some(e) = els {
                ev_group(e, l);
            }
            "if"
        }
        Kind::For { words, body, .. } => {
            if let Some((_, ws, _)) = words {
                for w in ws {
                    ev_word(w, l);
                }
            }
            ev_group(body, l);
            "for"
        }
        Kind::Case { word, arms, .. } => {
            ev_word(word, l);
            for a in arms {
                for p in &a.pats {
                    ev_word(p, l);
                }
                ev_group(&a.body, l);
            }
            "case"
        }
    };
    for r in &c.io {
        ev_redir(r, l);
    }
    l.push(format!("{} {:?}", name, c));
}

fn ev_word(w: &Word, l: &mut Vec<String>) {
    ev_word_inner(w, l);
    l.push(format!("word {:?}", w));
}

fn ev_word_inner(w: &Word, l: &mut Vec<String>) {
    for p in &w.0 {
        match p {
            Part::S(s) => ev_sw(s, l),
            Part::DQ(v) => v.iter().for_each(|s| ev_sw(s, l)),
            Part::SQ(_) => {}
        }
    }
}

fn ev_sw(s: &Sw, l: &mut Vec<String>) {
    match s {
        Sw::Tick(g) => ev_group(g, l),
        Sw::Sub(b) => match &**b {
            Sub::Cmd(g) => ev_group(g, l),
            Sub::Op(_, _, _, Some(w)) | Sub::Rem(_, _, Some(w)) => ev_word_inner(w, l),
            _ => {}
        },
        _ => {}
    }
}
