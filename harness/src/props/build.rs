//! C23, C24, C25 and C28: what the builders get to see and what they make of it.

use super::*;
use crate::ast;
use crate::refp::E;
use crate::drive::Drive;
use crate::trace::{expected_log, TErr, Trace, ODD};
use conch_parser::ast::builder::{
    ArcBuilder, Builder, CoreBuilder, DefaultBuilder, EmptyBuilder, RcBuilder, StringBuilder,
};
use conch_parser::ast::{
    AtomicTopLevelCommand, AtomicTopLevelWord, Parameter, TopLevelCommand, TopLevelWord,
};
use conch_parser::parse::{ParseError, Parser, SourcePos};
use std::cell::RefCell;
use std::fmt::{Debug, Display};
use std::rc::Rc;

// ---- C23

/// The callbacks for a program so far, by the commands parsed so far.
fn c23_of(src: &str, whole: Option<&Group>) -> Result<(usize, bool), String> {
    ODD.with(|o| o.set(0));
    let r = c23_log(src, whole)?;
    match ODD.with(|o| o.get()) {
        0 => Ok(r),
        _ => Err("a concatenation of less than two pieces".to_owned()),
    }
}

fn c23_log(src: &str, whole: Option<&Group>) -> Result<(usize, bool), String> {
    conch_parser::verif::set_fuel(real::budget(src.len()));
    let mut b = Trace::new();
    b.logging = true;
    let mut p = Parser::with_builder(real::lex(src), b);
    let mut cmds = Vec::new();
    let mut marks = Vec::new();
    // The log is only within reach at the end, so it is cut up by the commands in it
    let err = loop {
        match p.complete_command() {
            Ok(Some(c)) => {
                cmds.push(c);
                marks.push(());
            }
            Ok(None) => break None,
            Err(e) => break Some(e),
        }
    };
    drop(p);
    conch_parser::verif::set_fuel(real::budget(src.len()));
    let mut b = Trace::new();
    b.logging = true;
    let mut seen = 0;
    let mut group = Group::default();
    for (i, c) in cmds.iter().enumerate() {
        // Once more, with a look at the log after each command
        b.log.clear();
        b.calls = 0;
        b.comments.clear();
        let mut p = Parser::with_builder(real::lex(src), &mut b);
        if i > 12 {
            break;
        }
        for _ in 0..=i {
            let _ = p.complete_command();
        }
        drop(p);
        group.cmds.push(c.clone());
        let want = expected_log(&group);
        seen = want.len();
        diff(&format!("callbacks up to command {}", i), &b.log, &want)?;
        diff("their number", &b.calls, &(want.len() as u64))?;
    }
    // And the whole
    let mut b = Trace::new();
    b.logging = true;
    let mut p = Parser::with_builder(real::lex(src), &mut b);
    while let Ok(Some(_)) = p.complete_command() {}
    drop(p);
    conch_parser::verif::set_fuel(u64::MAX);
    group.cmds = cmds;
    let mut want = expected_log(&group);
    if err.is_some() {
        // Parts of the failed command may have been reported
        if b.log.len() < want.len() {
            return Err("callbacks are missing".to_owned());
        }
        diff("callbacks before the error", &b.log[..want.len()].to_vec(), &want)?;
        // But never as one
        for l in &b.log[want.len()..] {
            if l.starts_with("comments ") {
                return Err(format!("{} next to an error", l));
            }
        }
        if !b.comments.is_empty() {
            return Err(format!("comments next to an error: {:?}", b.comments));
        }
    } else {
        if let Some(m) = whole {
            diff("commands", &group.cmds, &m.cmds)?;
            want = expected_log(m);
            if !m.trailing.is_empty() {
                want.push(format!("comments {:?}", m.trailing));
            }
        } else {
            for c in &b.comments {
                want.push(format!("comments {:?}", c));
            }
        }
        diff("all callbacks", &b.log, &want)?;
    }
    Ok((seen, err.is_some()))
}

fn c23_model(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let (src, m) = program(t, size_cfg(Cfg::base()));
    set(cx, &src, false);
    let (n, err) = c23_of(&src, Some(&m))?;
    cx.nontrivial = n > 5;
    if err {
        return Err("a valid program is rejected".to_owned());
    }
    Ok(())
}

fn c23_any(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = any_source(t, Cfg::base());
    set(cx, &src, false);
    let (n, err) = c23_of(&src, None)?;
    cx.nontrivial = n > 5;
    cx.class(if err { "error" } else { "accepted" });
    Ok(())
}

// ---- C24

#[derive(Debug, PartialEq)]
struct Run {
    cmds: Vec<String>,
    after: Vec<SourcePos>,
    err: Option<String>,
    message: Option<String>,
    end: SourcePos,
}

fn run_with<B: Builder>(src: &str, b: B, show: fn(&B::Command) -> String) -> Run
where
    B::Error: Debug + Display,
{
    conch_parser::verif::set_fuel(real::budget(src.len()));
    let mut p = Parser::with_builder(real::lex(src), b);
    let mut r = Run {
        cmds: Vec::new(),
        after: Vec::new(),
        err: None,
        message: None,
        end: SourcePos::new(),
    };
    loop {
        match p.complete_command() {
            Ok(Some(c)) => {
                r.cmds.push(show(&c));
                r.after.push(p.pos());
            }
            Ok(None) => break,
            Err(e) => {
                r.err = Some(format!("{:?}", e));
                r.message = Some(e.to_string());
                break;
            }
        }
    }
    r.end = p.pos();
    conch_parser::verif::set_fuel(u64::MAX);
    r
}

fn text<T: Debug>(t: &T) -> String {
    format!("{:?}", t).replace("AtomicTopLevel", "TopLevel")
}

fn c24(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = any_source(t, size_cfg(Cfg::base()));
    set(cx, &src, src.len() > 4);
    let s = run_with(&src, StringBuilder::new(), text);
    cx.class(if s.err.is_some() { "error" } else { "accepted" });
    let same = |what: &str, r: Run| diff(what, &r, &s);
    same("Rc", run_with(&src, RcBuilder::new(), text))?;
    same("Arc", run_with(&src, ArcBuilder::new(), text))?;
    same("by reference", run_with(&src, &mut StringBuilder::new(), text))?;
    same("boxed", run_with(&src, Box::new(StringBuilder::new()), text))?;
    // Through the shorthand
    conch_parser::verif::set_fuel(real::budget(src.len()));
    let p = conch_parser::parse::DefaultParser::new(real::lex(&src));
    let mut cmds = Vec::new();
    let mut err = None;
    for r in p {
        match r {
            Ok(c) => cmds.push(text(&c)),
            Err(e) => err = Some(format!("{:?}", e)),
        }
    }
    diff("default parser", &(cmds, err), &(s.cmds.clone(), s.err.clone()))?;

    // Builders which make something else of it
    let units: Vec<String> = s.cmds.iter().map(|_| "()".to_owned()).collect();
    let with_units = |what: &str, r: Run| {
        diff(&format!("{}: commands", what), &r.cmds, &units)?;
        diff(&format!("{}: positions", what), &(r.after, r.end), &(s.after.clone(), s.end))?;
        diff(&format!("{}: error", what), &(r.err, r.message), &(s.err.clone(), s.message.clone()))
    };
    with_units("empty builder", run_with(&src, EmptyBuilder::new(), |c| format!("{:?}", c)))?;
    with_units("our builder", run_with(&src, Trace::new(), |_| "()".to_owned()))?;
    with_units("our builder by reference", run_with(&src, &mut Trace::new(), |_| "()".to_owned()))?;
    with_units("our boxed builder", run_with(&src, Box::new(Trace::new()), |_| "()".to_owned()))?;

    // One which keeps all it is told
    if t.n(3) != 0 {
        return Ok(());
    }
    let logged = || {
        let log = Rc::new(RefCell::new(Vec::new()));
        let b = Trace {
            logging: true,
            shared: Some(log.clone()),
            ..Trace::new()
        };
        (b, log)
    };
    let show = |c: &Cmd| format!("{:?}", c);
    let (b, direct) = logged();
    let s = run_with(&src, b, show);
    let all = |what: &str, r: Run, log: Rc<RefCell<Vec<String>>>| {
        diff(&format!("{}: results", what), &r, &s)?;
        let (log, direct) = (log.borrow(), direct.borrow());
        diff(&format!("{}: callbacks", what), &*log, &*direct)
    };
    let (mut b, log) = logged();
    all("told by reference", run_with(&src, &mut b, show), log)?;
    let (b, log) = logged();
    all("told in a box", run_with(&src, Box::new(b), show), log)?;
    let (mut b, log) = logged();
    all("told by two references", run_with(&src, &mut &mut b, show), log)?;
    let (mut b, log) = logged();
    let dynamic: Told<'_> = &mut b;
    all("told as an object", run_with(&src, dynamic, show), log)
}

/// A builder nothing else is known of
type Told<'a> = &'a mut dyn Builder<
    Command = Cmd,
    CommandList = List,
    ListableCommand = Pipe,
    PipeableCommand = PCmd,
    CompoundCommand = Compound,
    Word = Word,
    Redirect = Redir,
    Error = TErr,
>;

// ---- C25

/// All there is to see of a parse with a builder which fails.
fn failing<B: Builder<Command = Cmd, Error = TErr>>(src: &str, b: B) -> (Vec<Cmd>, Option<E>, bool) {
    conch_parser::verif::set_fuel(real::budget(src.len()));
    let mut it = Parser::with_builder(real::lex(src), b).into_iter();
    let mut cmds = Vec::new();
    let mut err = None;
    loop {
        match it.next() {
            Some(Ok(c)) => cmds.push(c),
            Some(Err(e)) => {
                err = Some(e);
                break;
            }
            None => break,
        }
    }
    let over = it.next().is_none() && it.next().is_none();
    conch_parser::verif::set_fuel(u64::MAX);
    (cmds, err, over)
}

fn c25_at(src: &str, k: u64, all: u64, want: &Prog) -> Result<usize, String> {
    let payload = 1000 + k * 7;
    let mut b = Trace::failing(k, payload);
    let (cmds, err, over) = failing(src, &mut b);
    let what = format!("failure of callback {} of {}", k, all);
    diff(&format!("{}: error", what), &err, &Some(ParseError::Custom(TErr(payload))))?;
    diff(&format!("{}: callbacks", what), &b.calls, &(k + 1))?;
    diff(&format!("{}: callbacks later on", what), &b.after_failure, &0)?;
    if !over {
        return Err(format!("{}: results after the error", what));
    }
    if cmds.len() > want.cmds.len() {
        return Err(format!("{}: {} commands", what, cmds.len()));
    }
    diff(&format!("{}: commands", what), &cmds, &want.cmds[..cmds.len()].to_vec())?;
    let e = err.unwrap().to_string();
    diff("message", &e, &format!("{}", TErr(payload)))?;
    // Command by command
    let mut b = Trace::failing(k, payload);
    let p = real_with(src, &mut b);
    diff(&format!("{}: one by one", what), &p, &(cmds.clone(), Some(ParseError::Custom(TErr(payload)))))?;
    let boxed = failing(src, Box::new(Trace::failing(k, payload)));
    diff(&format!("{}: boxed", what), &boxed, &(cmds.clone(), Some(ParseError::Custom(TErr(payload))), true))?;
    Ok(cmds.len())
}

fn real_with(src: &str, b: &mut Trace) -> (Vec<Cmd>, Option<E>) {
    conch_parser::verif::set_fuel(real::budget(src.len()));
    let mut p = Parser::with_builder(real::lex(src), b);
    let mut cmds = Vec::new();
    loop {
        match p.complete_command() {
            Ok(Some(c)) => cmds.push(c),
            Ok(None) => return (cmds, None),
            Err(e) => return (cmds, Some(e)),
        }
    }
}

fn c25(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let cfg = Cfg {
        budget: 14,
        ..Cfg::base()
    };
    let src = if t.n(3) == 0 {
        any_source(t, cfg)
    } else {
        program(t, cfg).0
    };
    set(cx, &src, false);
    let want = parse(&src);
    let mut b = Trace::new();
    let _ = failing(&src, &mut b);
    let all = b.calls;
    cx.nontrivial = all > 3;
    for k in 0..all.min(80) {
        c25_at(&src, k, all, &want)?;
        cx.class("callbacks made to fail");
    }
    // One more never happens
    let mut b = Trace::failing(all, 1);
    let (cmds, err, _) = failing(&src, &mut b);
    diff("without a failure", &(cmds, err), &(want.cmds, want.err))
}

// ---- C28

fn c28_model(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let (src, m) = program(t, size_cfg(Cfg::base()));
    set(cx, &src, m.cmds.len() > 1 || src.len() > 20);
    let (cmds, err) = built(&src);
    if let Some(e) = err {
        return Err(format!("a valid program is rejected: {}", e));
    }
    diff("tree", &cmds, &ast::cmds(&m))?;
    match ast::abnormal(&cmds) {
        Some(e) => Err(format!("not in normal form: {}", e)),
        None => Ok(()),
    }
}

fn c28_words(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let cfg = Cfg {
        lit: 9,
        esc: 5,
        quote: 7,
        param: 2,
        opsub: 3,
        heredoc: 4,
        redir: 4,
        budget: 16,
        ..Cfg::base()
    };
    let src = near(t, cfg, SOUP);
    tree(cx, &src)
}

fn tree(cx: &mut Cx, src: &str) -> Result<(), String> {
    set(cx, src, false);
    let r = refp::parse(src);
    let (cmds, _) = built(src);
    cx.nontrivial = !cmds.is_empty();
    diff("tree", &cmds, &ast::cmds(&Group { cmds: r.cmds, trailing: Vec::new() }))?;
    match ast::abnormal(&cmds) {
        Some(e) => Err(format!("not in normal form: {}", e)),
        None => Ok(()),
    }
}

fn c28_all(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    const A: &[&str] = &[
        "a", "1", " ", "'", "\"", "\\", "$", "}", "{", "#", "-", "*", "|", "!", ";", "\n", "=",
        "${x-", "&", "(", ")",
    ];
    let src = soup(t, A, 12);
    tree(cx, &src)
}

fn c28_tokens(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    // Text in as many tokens as there are characters
    let src = near(
        t,
        Cfg {
            lit: 12,
            quote: 4,
            budget: 10,
            ..Cfg::base()
        },
        SOUP,
    );
    let mut toks = Vec::new();
    for tok in lexed(&src) {
        match tok {
            Token::Literal(s) => toks.extend(s.chars().map(|c| Token::Literal(c.to_string()))),
            Token::Name(s) if t.n(2) == 0 => {
                toks.extend(s.chars().map(|c| Token::Name(c.to_string())))
            }
            tok => toks.push(tok),
        }
    }
    set(cx, &format!("{:?}", toks), true);
    conch_parser::verif::set_fuel(real::budget(src.len()));
    let p = conch_parser::parse::DefaultParser::new(Box::new(toks.into_iter()) as real::Tokens<'_>);
    let cmds: Vec<_> = p.into_iter().filter_map(Result::ok).collect();
    conch_parser::verif::set_fuel(u64::MAX);
    match ast::abnormal(&cmds) {
        Some(e) => Err(format!("not in normal form: {}", e)),
        None => Ok(()),
    }
}

// ---- C30

/// Trees built by hand from a model, in several representations.
fn c30_drive(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let cfg = match t.n(3) {
        0 => Cfg::base(),
        1 => Cfg { quote: 6, opsub: 6, lit: 12, cmds: 2, ..Cfg::base() },
        _ => Cfg { arith: 8, redir: 6, ..Cfg::base() },
    };
    let (src, mut m) = program(t, size_cfg(cfg));
    Wild(t).group(&mut m);
    set(cx, &format!("{:?}\n--- from ---\n{}", m, src), !m.cmds.is_empty());
    let want = ast::cmds(&m);
    let texts = |v: Vec<String>| v;
    let expected: Vec<String> = texts(want.iter().map(text).collect());

    let got = built_by(StringBuilder::new(), t, &m)?;
    diff("tree of strings", &got, &want)?;
    if let Some(e) = ast::abnormal(&got) {
        return Err(format!("not in normal form: {}", e));
    }
    let rc = built_by(RcBuilder::new(), t, &m)?;
    diff("tree of Rc", &rc.iter().map(text).collect(), &expected)?;
    let arc = built_by(ArcBuilder::new(), t, &m)?;
    diff("tree of Arc", &arc.iter().map(text).collect(), &expected)?;
    let default: DefaultBuilder<String> = Default::default();
    let copy = default;
    diff("by a copy", &built_by(copy.clone(), t, &m)?, &want)?;
    diff("by reference", &built_by(&mut StringBuilder::new(), t, &m)?, &want)?;
    diff("boxed", &built_by(Box::new(StringBuilder::new()), t, &m)?, &want)?;
    let core: CoreBuilder<String, TopLevelWord<String>, TopLevelCommand<String>, Rc<_>> =
        Default::default();
    diff("by the core builder", &built_by(core, t, &m)?, &want)?;
    let n = built_by(EmptyBuilder::new(), t, &m)?.len();
    diff("by the empty builder", &n, &want.len())?;
    // And our own is told the same as by the parser
    let own = built_by(Trace::new(), t, &m)?;
    let own = Group { cmds: own, trailing: Vec::new() };
    diff("our own", &ast::cmds(&own), &want)
}

fn built_by<B: Builder>(b: B, t: &mut Tape, m: &Group) -> Result<Vec<B::Command>, String>
where
    B::Error: Debug,
{
    let mut d = Drive { b, t };
    d.cmds(m).map_err(|e| format!("{:?}", e))
}

/// Changes a model into one no source would have.
struct Wild<'a>(&'a mut Tape);
impl Visit for Wild<'_> {
    fn nls(&mut self, v: &mut Vec<Nl>) {
        if self.0.chance(1, 20) {
            v.push(Some("#\n".to_owned()));
        }
    }
    fn nl(&mut self, n: &mut Option<Nl>) {
        if self.0.chance(1, 20) {
            *n = Some(Some("\u{e9}".to_owned()));
        }
    }
    fn sep(&mut self, s: &mut Sep) {
        if self.0.chance(1, 10) {
            *s = self.0.of(&[Sep::Semi, Sep::Amp, Sep::Newline, Sep::Other]);
        }
    }
    fn sw(&mut self, s: &mut Sw) {
        if self.0.chance(1, 10) {
            *s = match self.0.n(12) {
                0 => Sw::Esc(String::new()),
                1 => Sw::Lit("a$(b)".to_owned()),
                2 => Sw::Esc("ab".to_owned()),
                3 => Sw::Param(Parameter::Positional(4_000_000_000)),
                4 => Sw::Param(Parameter::Var("a b".to_owned())),
                5 => Sw::Star,
                6 => Sw::Question,
                7 => Sw::SqOpen,
                8 => Sw::SqClose,
                9 => Sw::Tilde,
                10 => Sw::Colon,
                _ => Sw::Sub(Box::new(Sub::Arith(None))),
            };
        }
    }
    fn redir(&mut self, r: &mut Redir) {
        if self.0.chance(1, 6) {
            let all = [
                RK::Read, RK::Write, RK::ReadWrite, RK::Append, RK::Clobber, RK::Heredoc,
                RK::DupRead, RK::DupWrite,
            ];
            r.kind = self.0.of(&all);
            r.fd = self.0.of(&[None, Some(0), Some(1), Some(65535)]);
        }
        self.word(&mut r.word);
    }
    fn word(&mut self, w: &mut Word) {
        if self.0.chance(1, 8) {
            for _ in 0..=self.0.n(3) {
                let lit = || Sw::Lit("xy".to_owned());
                w.0.push(match self.0.n(6) {
                    0 => Part::DQ(vec![lit()]),
                    1 => Part::DQ(Vec::new()),
                    2 => Part::SQ("s".to_owned()),
                    3 => Part::S(Sw::Esc("z".to_owned())),
                    4 => Part::DQ(vec![Sw::Star, lit(), Sw::Esc("q".to_owned()), lit()]),
                    _ => Part::S(lit()),
                });
            }
        }
        for p in &mut w.0 {
            match p {
                Part::S(s) => self.simple(s),
                Part::DQ(v) => v.iter_mut().for_each(|s| self.simple(s)),
                Part::SQ(_) => {}
            }
        }
        *w = Word::norm(std::mem::take(&mut w.0));
    }
}

/// The wrappers around commands and words are what they wrap.
fn c30_wrappers(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let cfg = Cfg { cmds: 3, budget: 12, ..Cfg::base() };
    let (a, m) = program(t, cfg);
    let b = if t.n(4) == 0 { a.clone() } else { mutate(t, &a, SOUP) };
    set(cx, &format!("{}\n--- and ---\n{}", a, b), a != b && !m.cmds.is_empty());
    fn all<B: Builder + Default>(src: &str) -> Vec<B::Command> {
        let p = Parser::<real::Tokens<'_>, B>::new(real::lex(src));
        p.into_iter().map_while(Result::ok).collect()
    }
    macro_rules! compare {
        ($Builder:ty, $Cmd:ident) => {
            let (xs, ys) = (all::<$Builder>(&a), all::<$Builder>(&b));
            for x in &xs {
                let mut again = $Cmd::from(x.0.clone());
                let odd = |what: &str| Err(format!("{} of {:?}", what, x));
                if again != *x || again != x.0 || **x != x.0 || x.clone() != *x {
                    return odd("identity");
                }
                for y in &ys {
                    let same = format!("{:?}", x) == format!("{:?}", y);
                    if (x == y) != same || (*x == y.0) != same || (**x == **y) != same {
                        return Err(format!("comparison of {:?} and {:?}", x, y));
                    }
                    if (x != y) == same || (*x != y.0) == same {
                        return Err(format!("comparison of {:?} and {:?}", x, y));
                    }
                    *again = (**y).clone();
                    if again != *y {
                        return odd("assignment");
                    }
                }
            }
        };
    }
    compare!(StringBuilder, TopLevelCommand);
    compare!(RcBuilder, TopLevelCommand);
    compare!(ArcBuilder, AtomicTopLevelCommand);

    let mut g = crate::gen::G::new(t, Cfg { lit: 6, ..cfg });
    let (v, w) = (g.word(false), g.word(false));
    let v = if t.n(3) == 0 { w.clone() } else { v };
    macro_rules! words {
        ($Builder:ident, $Word:ident) => {
            let built = |t: &mut Tape, w: &Word| {
                let b = $Builder::new();
                Drive { b, t }.word(w).map_err(|e| format!("{:?}", e))
            };
            let (x, y) = (built(t, &v)?, built(t, &w)?);
            let same = format!("{:?}", x) == format!("{:?}", y);
            let mut again = $Word::from(x.0.clone());
            if again != x || again != x.0 || *x != x.0 || x.clone() != x {
                return Err(format!("identity of {:?}", x));
            }
            if (x == y) != same || (x == y.0) != same || (*x == *y) != same || (x != y.0) == same {
                return Err(format!("comparison of {:?} and {:?}", x, y));
            }
            *again = (*y).clone();
            if again != y {
                return Err(format!("assignment of {:?}", y));
            }
        };
    }
    words!(StringBuilder, TopLevelWord);
    words!(RcBuilder, TopLevelWord);
    words!(ArcBuilder, AtomicTopLevelWord);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C23",
            level: "exploration",
            rule: "the log of all callbacks and their arguments against the one derived from the \
                   model, after each command and at the end, for programs and for anything; \
                   non-trivial: more than five callbacks",
            assumptions: &[],
            parts: vec![
                part("model", 60_000, c23_model),
                part("any", 60_000, c23_any),
            ],
        },
        Prop {
            id: "C24",
            level: "exploration",
            rule: "every source parsed with 15 builders, by value, reference, boxed and as objects, \
                   with the callbacks of a recording one compared; \
                   non-trivial: more than four characters",
            assumptions: &[],
            parts: vec![part("builders", 120_000, c24)],
        },
        Prop {
            id: "C25",
            level: "fault_enumeration",
            rule: "every callback (of the first 80) of each program made to fail, in three ways; \
                   non-trivial: more than three callbacks",
            assumptions: &[],
            parts: vec![part("failures", 25_000, c25)],
        },
        Prop {
            id: "C28",
            level: "exploration",
            rule: "the default builder's tree against the one derived from the model or the \
                   reference parser, and a check for pieces which should have been joined; \
                   non-trivial: has commands",
            assumptions: &[],
            parts: vec![
                enumerated("sequences", 204_205, c28_all, sequences::<21>),
                part("model", 300_000, c28_model),
                part("words", 250_000, c28_words),
                part("tokens", 150_000, c28_tokens),
            ],
        },
        Prop {
            id: "C30",
            level: "exploration",
            rule: "nine builders driven by hand from generated models, some of which no source \
                   has, with text in pieces of chance, against the tree derived from the model; \
                   wrappers of pairs of similar trees; non-trivial: has commands",
            assumptions: &[],
            parts: vec![
                part("drive", 150_000, c30_drive),
                part("wrappers", 100_000, c30_wrappers),
            ],
        },
    ]
}
