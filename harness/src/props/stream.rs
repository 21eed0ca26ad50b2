//! C03, C17 to C22 and C27: the parser as a consumer of a stream of tokens.

use super::*;
use crate::refl::{pos_at, PTok};
use crate::refp::{Ref, E};
use crate::tape::guarded;
use crate::trace::Trace;
use conch_parser::parse::{ParseError, Parser, SourcePos};
use conch_parser::token::Positional;
use std::cell::Cell;
use std::rc::Rc;

fn small() -> Cfg {
    Cfg {
        budget: 14,
        ..Cfg::base()
    }
}

// ---- C03

const CHARS: &[char] = &[
    'a', 'b', '1', '0', ' ', '\n', '\t', '$', '(', ')', '{', '}', '`', '\\', '"', '\'', '<', '>',
    '&', '|', ';', '#', '!', '=', '-', '+', '*', '/', '%', '?', ':', ',', '~', '[', ']', '@', '^',
    '_', '\r', '\u{0}', '\u{e9}', '\u{2028}', '\u{661}', '\u{1f600}',
];

/// Everything is parsed as a program, and the error (if any) is shown.
fn survives(cx: &mut Cx, src: &str) -> Result<(), String> {
    set(cx, src, src.len() > 1);
    let p = parse(src);
    if let Some(e) = &p.err {
        let _ = format!("{} {:?}", e, e);
        cx.class("error");
    } else {
        cx.class("accepted");
    }
    if p.end.byte > src.len() {
        return Err(format!("position {:?} is past the end", p.end));
    }
    Ok(())
}

fn c03_any(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = match t.n(3) {
        0 => {
            let n = t.n(40);
            (0..n).map(|_| t.of(CHARS)).collect()
        }
        1 => {
            let (mut s, _) = program(t, small());
            // Break it character by character
            for _ in 0..1 + t.n(3) {
                let mut c: Vec<char> = s.chars().collect();
                let i = t.n(c.len() as u32 + 1) as usize;
                match t.n(3) {
                    0 if i < c.len() => {
                        c.remove(i);
                    }
                    1 if i < c.len() => c[i] = t.of(CHARS),
                    _ => c.insert(i, t.of(CHARS)),
                }
                s = c.into_iter().collect();
            }
            s
        }
        _ => any_source(t, Cfg::base()),
    };
    survives(cx, &src)
}

/// Any public methods in any order, also after errors.
fn c03_methods(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = any_source(t, small());
    let n = 1 + t.n(10);
    let calls: Vec<u32> = (0..n).map(|_| t.n(api::METHODS.len() as u32)).collect();
    let names: Vec<_> = calls.iter().map(|&c| api::METHODS[c as usize]).collect();
    set(cx, &format!("{:?} on\n{}", names, src), true);
    conch_parser::verif::set_fuel(n as u64 * real::budget(src.len()));
    let mut b = Trace::new();
    let mut p = Parser::with_builder(real::lex(&src), &mut b);
    for &c in &calls {
        let before = p.pos();
        let r = api::call(&mut p, c as usize);
        let _ = format!("{}", r.1);
        if r.2 && p.pos().byte < before.byte {
            return Err(format!(
                "{} went backwards from {:?} to {:?}",
                api::METHODS[c as usize], before, p.pos()
            ));
        }
    }
    conch_parser::verif::set_fuel(u64::MAX);
    Ok(())
}

/// Nested constructs, with the usual size of a stack.
fn c03_nested(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    const NEST: &[(&str, &str)] = &[
        ("(", ")"),
        ("{ ", ";}"),
        ("$(", ")"),
        ("${x:-", "}"),
        ("${x%%$(", ")}"),
        ("\"$(", ")\""),
        ("if ", "; then a; fi"),
        ("if a; then ", ";fi"),
        ("while ", "; do b; done"),
        ("until a; do ", ";done"),
        ("for i in x; do ", "\ndone"),
        ("case x in a) ", ";; esac"),
        ("f() { ", ";}"),
        ("function f (", ")"),
        ("! a | (", ")"),
        ("echo $((", "))"),
        ("a && (", ")"),
        ("${x-\"${y+", "}\"}"),
        ("$( (", ") )"),
        ("$((1+(", ")))"),
        ("$((-", "))"),
        ("$((a?", ":b))"),
        ("$((x=", "))"),
        ("$((2**", "))"),
        ("cat <<A\n$(", "\n)\nA\n"),
    ];
    let depth = 1 + t.n(60);
    let mixed = t.n(2) == 1;
    let open = t.n(6) == 0;
    let first = t.n(NEST.len() as u32) as usize;
    let mut src = String::new();
    let mut close = Vec::new();
    for _ in 0..depth {
        let k = if mixed { t.n(NEST.len() as u32) as usize } else { first };
        src.push_str(NEST[k].0);
        close.push(NEST[k].1);
    }
    src.push('a');
    if !open {
        close.reverse();
        src.push_str(&close.concat());
    }
    set(cx, &src, depth > 8);
    let s = src.clone();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            guarded(|| {
                let p = parse(&s);
                format!("{:?}", p.err.map(|e| e.to_string()))
            })
            .map(drop)
        })
        .unwrap()
        .join()
        .map_err(|_| "panicked".to_owned())?
}

fn c03_ticks(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    // Backquotes nested within each other: each level doubles the backslashes
    let depth = 1 + t.n(7);
    let mut s = String::from("a");
    for _ in 0..depth {
        s = match t.n(4) {
            0 => format!("`{}`", escape_tick(&s)),
            1 => format!("`echo \"x\" {}`", escape_tick(&s)),
            2 => format!("$({})", s),
            _ => format!("\"`{}`\"", escape_tick(&s)),
        };
    }
    if t.n(4) == 0 {
        s = mutate(t, &s, &["`", "\\", "\\`", "\"", "$(", ")"]);
    }
    survives(cx, &s)
}

fn escape_tick(s: &str) -> String {
    s.replace('\\', "\\\\").replace('`', "\\`").replace('$', "\\$")
}

// ---- C17

fn garbage(t: &mut Tape) -> String {
    match t.n(3) {
        0 => soup(t, SOUP, 8),
        1 => {
            let n = t.n(12);
            (0..n).map(|_| t.of(CHARS)).collect()
        }
        _ => any_source(t, small()),
    }
}

fn c17_prefix(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let mut g = G::new(t, Cfg { cmds: 4, ..small() });
    g.no_open_end = true;
    let m = g.program();
    let (src, ends, docs) = (g.out.clone(), g.ends.clone(), g.has_heredoc);
    let full = parse(&src);
    if let Some(e) = &full.err {
        return Err(format!("a valid program is rejected: {:?} ({:?})", e, src));
    }
    if m.cmds.is_empty() {
        set(cx, &src, false);
        return Ok(());
    }
    let i = t.n(m.cmds.len() as u32) as usize;
    let junk = garbage(t);
    let exact = m.cmds[i].cmt.is_some() && !(i + 1 == m.cmds.len() && !src.ends_with('\n'));
    let loose = m.cmds[i].sep != Sep::Other
        && m.cmds[i].sep != Sep::Newline
        && !docs
        && !junk.starts_with(|c| c == ';' || c == '&');
    if !exact && !loose {
        set(cx, &src, false);
        return Ok(());
    }
    let other = format!("{}{}", &src[..ends[i]], junk);
    set(cx, &format!("{}\n--- versus ---\n{}", src, other), true);
    let p = parse(&other);
    if p.cmds.len() <= i {
        return Err(format!("only {} commands, then {:?}", p.cmds.len(), p.err));
    }
    let part = |v: &[Cmd]| Group {
        cmds: v[..=i].to_vec(),
        trailing: Vec::new(),
    };
    if exact {
        cx.class("ended by a newline");
        diff("commands before", &part(&p.cmds), &part(&full.cmds))?;
        diff("positions", &p.after[..=i].to_vec(), &full.after[..=i].to_vec())
    } else {
        cx.class("more on the line");
        diff("commands before", &strip(part(&p.cmds)), &strip(part(&full.cmds)))
    }
}

struct Counting<I> {
    inner: I,
    pulled: Rc<Cell<usize>>,
}

impl<I: Iterator> Iterator for Counting<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let r = self.inner.next();
        if r.is_some() {
            self.pulled.set(self.pulled.get() + 1);
        }
        r
    }
}

/// The rest of a line is read along with the first here-document on it, and need not end
/// where the line does when the quotes around a substitution are taken for others.
fn nested_doc(s: &str) -> bool {
    s.contains("<<") && s.contains(|c| "\"'`".contains(c)) && s.contains(|c| "(`".contains(c))
        || s.matches("<<").count() > 1
}

fn c17_streaming(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let cfg = Cfg { cmds: 6, ..small() };
    let src = if t.n(3) == 0 {
        any_source(t, cfg)
    } else {
        program(t, cfg).0
    };
    set(cx, &src, src.matches('\n').count() > 1);
    let full = parse(&src);
    let pulled = Rc::new(Cell::new(0));
    let chars = Counting {
        inner: src.chars(),
        pulled: pulled.clone(),
    };
    conch_parser::verif::set_fuel(real::budget(src.len()));
    let mut b = Trace::new();
    let mut p = Parser::with_builder(Box::new(Lexer::new(chars)) as real::Tokens<'_>, &mut b);
    while let Ok(Some(c)) = p.complete_command() {
        if c.sep == Sep::Other {
            continue;
        }
        // Up to the end of the line after the command, with its first character beyond
        let at = p.pos().byte;
        let line = src[at..].find('\n').map(|i| at + i + 1);
        // The bodies of here-documents come after that line
        let upto = &src[..line.unwrap_or(src.len())];
        if nested_doc(upto) {
            break;
        }
        let docs = upto.contains("<<");
        let line = if docs {
            let over = |c: &(&Cmd, &SourcePos)| c.0.cmt.is_some() && c.1.byte > at;
            full.cmds.iter().zip(&full.after).find(over).map(|c| c.1.byte)
        } else {
            line
        };
        let limit = line.map_or(usize::MAX, |i| src[..i].chars().count() + 1);
        if pulled.get() > limit {
            return Err(format!(
                "{} characters were read for the command up to byte {}, allowing for {}",
                pulled.get(), at, limit
            ));
        }
    }
    Ok(())
}

/// A command which is ended by a newline is there before anything after it is read
fn c17_tokens(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let cfg = Cfg { cmds: 6, ..small() };
    let src = if t.n(3) == 0 {
        any_source(t, cfg)
    } else {
        program(t, cfg).0
    };
    set(cx, &src, false);
    let toks = lexed(&src);
    let read = Rc::new(Cell::new(0));
    let count = read.clone();
    let it = toks.into_iter().inspect(move |t| count.set(count.get() + t.len()));
    conch_parser::verif::set_fuel(real::budget(src.len()));
    let mut b = Trace::new();
    let mut p = Parser::with_builder(Box::new(it) as real::Tokens<'_>, &mut b);
    while let Ok(Some(c)) = p.complete_command() {
        let at = p.pos().byte;
        if c.cmt.is_none() || !src[..at].ends_with('\n') {
            continue;
        }
        if nested_doc(&src[..at]) {
            break;
        }
        cx.nontrivial |= at < src.len();
        if read.get() > at {
            return Err(format!("{} bytes were read for a command of {}", read.get(), at));
        }
    }
    Ok(())
}

/// A token iterator with an honest but unhelpful size hint.
struct Hinted<I>(I, u32);

impl<I: ExactSizeIterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 {
            0 => (0, None),
            1 => (n, Some(n)),
            2 => (n.min(1), None),
            3 => (0, Some(n + 17)),
            _ => (n / 2, Some(usize::MAX)),
        }
    }
}

fn same(what: &str, got: &Prog, want: &Prog) -> Result<(), String> {
    diff(&format!("{}: commands", what), &got.cmds, &want.cmds)?;
    diff(&format!("{}: error", what), &got.err, &want.err)?;
    diff(&format!("{}: positions", what), &got.after, &want.after)?;
    diff(&format!("{}: end", what), &got.end, &want.end)?;
    diff(&format!("{}: comments", what), &got.comments, &want.comments)
}

fn c17_sources(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = any_source(t, small());
    set(cx, &src, src.len() > 3);
    let n = src.len();
    let base = parse(&src);
    same("parsed again", &parse(&src), &base)?;
    let toks = lexed(&src);
    same("from a vector", &real::program(toks.clone(), n), &base)?;
    for k in 0..5 {
        let it = Hinted(toks.clone().into_iter(), k);
        same("with other size hints", &real::program(it, n), &base)?;
    }
    let boxed: Box<dyn Iterator<Item = Token>> = Box::new(Lexer::new(src.chars()));
    same("boxed", &real::program(boxed, n), &base)?;
    let mut lx = Lexer::new(src.chars());
    same("by reference", &real::program(&mut lx, n), &base)?;
    let chained = toks[..toks.len() / 2].iter().cloned();
    let chained = chained.chain(toks[toks.len() / 2..].iter().cloned());
    same("chained", &real::program(chained, n), &base)?;
    let mut text: Vec<char> = src.chars().collect();
    let collected = Lexer::new(text.drain(..));
    same("from drained characters", &real::program(collected, n), &base)
}

fn c17_interleaved(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let a = any_source(t, small());
    let b = any_source(t, small());
    set(cx, &format!("{}\n--- and ---\n{}", a, b), a != b);
    let (want_a, want_b) = (parse(&a), parse(&b));
    conch_parser::verif::set_fuel(real::budget(a.len() + b.len()) * 2);
    let (mut ba, mut bb) = (Trace::new(), Trace::new());
    let mut pa = Parser::with_builder(real::lex(&a), &mut ba);
    let mut pb = Parser::with_builder(real::lex(&b), &mut bb);
    let (mut ca, mut cb) = (Vec::new(), Vec::new());
    let (mut ea, mut eb) = (None, None);
    let (mut da, mut db) = (false, false);
    while !da || !db {
        let first = t.n(2) == 0;
        if (first || db) && !da {
            match pa.complete_command() {
                Ok(Some(c)) => ca.push(c),
                Ok(None) => da = true,
                Err(e) => {
                    ea = Some(e);
                    da = true;
                }
            }
        } else {
            match pb.complete_command() {
                Ok(Some(c)) => cb.push(c),
                Ok(None) => db = true,
                Err(e) => {
                    eb = Some(e);
                    db = true;
                }
            }
        }
    }
    diff("first parser", &(ca, ea, pa.pos()), &(want_a.cmds, want_a.err, want_a.end))?;
    diff("second parser", &(cb, eb, pb.pos()), &(want_b.cmds, want_b.err, want_b.end))
}

// ---- C18

/// A token source which comes to an end several times.
struct Odd {
    toks: Vec<Token>,
    at: usize,
    stop: usize,
    calls: Rc<Cell<usize>>,
    ended: Rc<Cell<usize>>,
    resumed: Rc<Cell<usize>>,
}

impl Iterator for Odd {
    type Item = Token;
    fn next(&mut self) -> Option<Token> {
        self.calls.set(self.calls.get() + 1);
        if self.ended.get() > 0 {
            self.resumed.set(self.resumed.get() + 1);
        }
        if self.at == self.stop && self.ended.get() == 0 || self.at >= self.toks.len() {
            self.ended.set(self.ended.get() + 1);
            return None;
        }
        self.at += 1;
        Some(self.toks[self.at - 1].clone())
    }
}

fn c18(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = any_source(t, small());
    let toks = lexed(&src);
    // The first end, with more tokens after it
    let stop = match t.n(2) {
        0 => toks.len(),
        _ => t.n(toks.len() as u32 + 1) as usize,
    };
    let head: String = toks[..stop].iter().map(refl::text).collect();
    set(cx, &format!("{} tokens, then an end, of\n{}", stop, src), stop > 1);
    let odd = |extra: bool| {
        let o = Odd {
            toks: if extra { toks.clone() } else { toks[..stop].to_vec() },
            at: 0,
            stop,
            calls: Default::default(),
            ended: Default::default(),
            resumed: Default::default(),
        };
        let cells = (o.calls.clone(), o.ended.clone(), o.resumed.clone());
        (o, cells)
    };
    // What there is to see up to the first end
    let want = real::program(toks[..stop].to_vec(), head.len());
    conch_parser::verif::set_fuel(real::budget(src.len()) * 4);

    // One by one
    let (o, (_, _, resumed)) = odd(true);
    let mut b = Trace::new();
    let mut p = Parser::with_builder(Box::new(o) as real::Tokens<'_>, &mut b);
    let mut cmds = Vec::new();
    let mut after = Vec::new();
    let err = loop {
        match p.complete_command() {
            Ok(Some(c)) => {
                cmds.push(c);
                after.push(p.pos());
            }
            Ok(None) => break None,
            Err(e) => break Some(e),
        }
    };
    diff("commands before the end", &cmds, &want.cmds)?;
    diff("error at the end", &err, &want.err)?;
    diff("positions", &after, &want.after)?;
    if err.is_none() {
        for _ in 0..3 {
            match p.complete_command() {
                Ok(None) => {}
                r => return Err(format!("{:?} after the end", r)),
            }
        }
        diff("position at the end", &p.pos(), &pos_at(&head, head.len()))?;
    }
    if resumed.get() > 0 {
        return Err("the token source was asked again after its end".to_owned());
    }
    drop(p);

    // By iterating
    let (o, (calls, _, resumed)) = odd(true);
    let mut b = Trace::new();
    let mut it = Parser::with_builder(Box::new(o) as real::Tokens<'_>, &mut b).into_iter();
    let mut got = Vec::new();
    let mut got_err = None;
    let mut steps = 0;
    loop {
        steps += 1;
        match it.next() {
            None => break,
            Some(Ok(c)) if got_err.is_none() => got.push(c),
            Some(Err(e)) if got_err.is_none() => {
                got_err = Some(e);
                break;
            }
            Some(r) => return Err(format!("{:?} after an error", r)),
        }
        if steps > want.cmds.len() + 1 {
            return Err(format!("more than the {} commands", want.cmds.len()));
        }
    }
    diff("commands iterated over", &got, &want.cmds)?;
    diff("error iterated over", &got_err, &want.err)?;
    let before = calls.get();
    for _ in 0..4 {
        if let Some(r) = it.next() {
            return Err(format!("{:?} after the last result", r));
        }
    }
    if calls.get() != before {
        return Err("the token source is used after the last result".to_owned());
    }
    if resumed.get() > 0 {
        return Err("the token source was asked again after its end".to_owned());
    }
    drop(it);
    // Its adaptors agree on that
    let (o, (_, _, resumed)) = odd(true);
    let n = Parser::with_builder(Box::new(o) as real::Tokens<'_>, &mut Trace::new()).into_iter().count();
    diff("number of results", &n, &(want.cmds.len() + want.err.is_some() as usize))?;
    cx.class(if want.err.is_some() { "error" } else { "end" });
    if resumed.get() > 0 {
        return Err("the token source was asked again after its end".to_owned());
    }
    Ok(())
}

// ---- C19

fn consistent(src: &str, p: SourcePos) -> Result<(), String> {
    if p.byte > src.len() {
        return Err(format!("{:?} is past the end", p));
    }
    if !src.is_char_boundary(p.byte) {
        return Err(format!("{:?} is within a character", p));
    }
    diff("line and column", &p, &pos_at(src, p.byte))
}

fn c19_model(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let mut g = G::new(t, size_cfg(Cfg { cmds: 5, heredoc: 3, ..Cfg::base() }));
    let m = g.program();
    let (src, ends) = (g.out.clone(), g.ends.clone());
    set(cx, &src, m.cmds.len() > 1);
    let mut b = Trace::new();
    diff(
        "start",
        &Parser::with_builder(real::lex(&src), &mut b).pos(),
        &pos_at(&src, 0),
    )?;
    let p = parse(&src);
    if let Some(e) = &p.err {
        return Err(format!("a valid program is rejected: {:?}", e));
    }
    for (i, c) in m.cmds.iter().enumerate() {
        let at = p.after[i];
        consistent(&src, at)?;
        if c.cmt.is_some() && !(i + 1 == m.cmds.len() && !src.ends_with('\n')) {
            diff("offset after a line", &at.byte, &ends[i])?;
        } else if at.byte < ends[i] && c.sep != Sep::Other {
            return Err(format!("{:?} is before the end of command {}", at, i));
        }
        if i > 0 && p.after[i - 1].byte >= at.byte {
            return Err(format!("{:?} is not after {:?}", at, p.after[i - 1]));
        }
    }
    diff("end", &p.end, &pos_at(&src, src.len()))
}

fn c19_any(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = any_source(t, Cfg { heredoc: 3, ..small() });
    set(cx, &src, false);
    positions(cx, &src)
}

fn positions(cx: &mut Cx, src: &str) -> Result<(), String> {
    let (p, r) = (parse(src), refp::parse(src));
    cx.nontrivial = !p.after.is_empty();
    diff("positions", &p.after, &r.after)?;
    for &a in &p.after {
        consistent(src, a)?;
    }
    if p.err.is_none() {
        diff("end", &p.end, &pos_at(src, src.len()))?;
    } else {
        cx.class("error");
    }
    Ok(())
}

fn c19_all(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = soup(t, LINES, 12);
    set(cx, &src, false);
    positions(cx, &src)
}

/// What makes for positions which are hard to tell
const LINES: &[&str] = &[
    "a", "\n", " ", "\u{e9}", "'", "\"", "\\", "`", "$(", ")", "<<A\n", "\nA\n", "#c\n", ";", "$",
    "{ ", "}", "<<-", "\t", "A", "\n\tA\n", "${x-",
];

// ---- C20

fn stated(src: &str, e: &E) -> Result<(), String> {
    let unescaped = !(src.contains('`') && src.contains('\\'));
    let at = |p: SourcePos, text: &str| -> Result<(), String> {
        consistent(src, p)?;
        if unescaped && !src[p.byte..].starts_with(text) {
            return Err(format!("there is no {:?} at {:?} ({:?})", text, p, e));
        }
        Ok(())
    };
    match e {
        ParseError::BadFd(a, b) => {
            consistent(src, *a)?;
            consistent(src, *b)?;
            if a.byte > b.byte {
                return Err(format!("odd extent {:?}", e));
            }
            Ok(())
        }
        ParseError::BadIdent(s, p) => at(*p, s),
        ParseError::BadSubst(t, p) | ParseError::Unmatched(t, p) | ParseError::Unexpected(t, p) => {
            at(*p, &refl::text(t))
        }
        ParseError::IncompleteCmd(cmd, p, _, q) => {
            at(*p, cmd)?;
            if p.byte >= q.byte {
                return Err(format!("odd extent {:?}", e));
            }
            consistent(src, *q)
        }
        ParseError::UnexpectedEOF => Ok(()),
        ParseError::Custom(e) => Err(format!("custom error {:?}", e)),
    }
}

fn c20_any(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let mut src = any_source(t, Cfg { heredoc: 2, tick: 2, ..small() });
    if t.n(2) == 0 {
        // Make for an error late in the source
        let k = t.n(4);
        let (pre, _) = program(t, Cfg { cmds: k, ..small() });
        let junk = soup(t, SOUP, 6);
        src = format!("{}\n{}{}", pre, junk, src);
    }
    located(cx, &src)
}

fn located(cx: &mut Cx, src: &str) -> Result<(), String> {
    set(cx, src, false);
    let (p, r) = (parse(src), refp::parse(src));
    diff("error", &p.err, &r.err)?;
    if let Some(e) = &p.err {
        cx.nontrivial = *e != ParseError::UnexpectedEOF;
        cx.class(kind_of(e));
        stated(src, e)?;
    } else {
        cx.class("accepted");
    }
    Ok(())
}

pub fn kind_of(e: &E) -> &'static str {
    match e {
        ParseError::BadFd(..) => "bad descriptor",
        ParseError::BadIdent(..) => "bad identifier",
        ParseError::BadSubst(..) => "bad substitution",
        ParseError::Unmatched(..) => "unmatched",
        ParseError::IncompleteCmd(..) => "incomplete command",
        ParseError::Unexpected(..) => "unexpected token",
        ParseError::UnexpectedEOF => "unexpected end",
        ParseError::Custom(..) => "custom",
    }
}

fn c20_all(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    const A: &[&str] = &[
        "a", " ", "\n", "\u{e9}", "'", "\"", "`", "$(", ")", "<<A\n", "if ", "then ", "for ", "1",
        "$", "${", "}", ">&", ";", "\\", "case ", "| ",
    ];
    let src = soup(t, A, 12);
    located(cx, &src)
}

// ---- C21

fn c21_any(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = any_source(t, size_cfg(Cfg { cmds: 4, ..Cfg::base() }));
    verdict(cx, &src)
}

fn verdict(cx: &mut Cx, src: &str) -> Result<(), String> {
    set(cx, src, src.len() > 2);
    let (p, r) = (parse(src), refp::parse(src));
    diff("verdict", &p.err.is_none(), &r.err.is_none())?;
    diff("error", &p.err, &r.err)?;
    diff("commands before it", &p.cmds, &r.cmds)?;
    cx.class(p.err.as_ref().map_or("accepted", kind_of));
    Ok(())
}

fn c21_keywords(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = soup(t, KEYWORDS, 14);
    verdict(cx, &src)
}

const KEYWORDS: &[&str] = &[
    "if ", "then ", "elif ", "else ", "fi ", "for ", "in ", "do ", "done ", "while ", "until ",
    "case ", "esac ", "{ ", "} ", "( ", ") ", "a ", "x\n", "; ", ";; ", "function ", "f() ", "!",
    "&& ", "| ", ">", "<<A\n", "& ",
];

fn c21_all(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = soup(t, KEYWORDS, 14);
    verdict(cx, &src)
}

/// What may and may not be a name, wherever one is expected
fn c21_names(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    const A: &[&str] = &[
        "a", "b1", "_", "1", ".", "-", "=", "~", "\u{e9}", "if", "in", "done", "{", "}", " ", "$",
        "\\\n", "\\", "'", "\"", "*", "+", ",", ":", "@", "%", "/", "[", "]", "!", "#", "?", "^",
    ];
    const SPOTS: &[(&str, &str)] = &[
        ("function ", " { a; }"),
        ("function ", "() { a; }"),
        ("function ", " (a)"),
        ("", "() { a; }"),
        ("", " () (a)"),
        ("for ", " in b; do c; done"),
        ("for ", "; do c; done"),
        ("for ", " do c; done"),
        ("for ", "\nin b; do c; done"),
        ("${", "}"),
        ("${", "-b}"),
        ("${#", "}"),
        ("${", "%b}"),
        ("$((", "))"),
        ("$((", "=1))"),
        ("$((", "++))"),
        ("$", ""),
        ("\"$", "\""),
        ("", "=b c"),
        ("a ", "=b c"),
        ("case ", " in a) ;; esac"),
        ("case a in ", ") b ;; esac"),
        ("<<", "\nb\n"),
        (">", " b"),
        (">&", " b"),
        ("", ">b"),
        ("", "<&1"),
        ("", ""),
        ("a; ", ""),
        ("a | ", " b"),
        ("! ", ""),
        ("if ", "; then a; fi"),
        ("if a; then ", "; fi"),
        ("while a; do ", "; done"),
        ("{ ", "; }"),
        ("(", ")"),
        ("$(", ")"),
        ("`", "`"),
    ];
    let (pre, post) = SPOTS[t.n(SPOTS.len() as u32) as usize];
    let name = soup(t, A, 3);
    let more = if t.n(3) == 0 { soup(t, SOUP, 3) } else { String::new() };
    let src = format!("{}{}{}{}", pre, name, post, more);
    verdict(cx, &src)
}

// ---- C22

fn c22(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let mut g = G::new(
        t,
        Cfg {
            budget: 12,
            cmds: 3,
            ..Cfg::base()
        },
    );
    let m = g.program();
    let (src, ends) = (g.out.clone(), g.ends.clone());
    let full = parse(&src);
    if let Some(e) = &full.err {
        return Err(format!("a valid program is rejected: {:?} ({:?})", e, src));
    }
    if src.is_empty() {
        return Ok(());
    }
    let k = t.n(8);
    let cuts: Vec<usize> = src.char_indices().map(|c| c.0).collect();
    // A number of places within this program
    for j in 0..=k {
        let cut = if j == 0 && !ends.is_empty() {
            let i = t.n(ends.len() as u32) as usize;
            ends[i]
        } else {
            cuts[t.n(cuts.len() as u32) as usize]
        };
        truncated(cx, &src, cut, &full, &m, &ends)?;
    }
    Ok(())
}

fn truncated(
    cx: &mut Cx,
    src: &str,
    cut: usize,
    full: &Prog,
    m: &Group,
    ends: &[usize],
) -> Result<(), String> {
    let s = &src[..cut];
    set(cx, &format!("{}\n--- cut off from ---\n{}", s, src), cut < src.len());
    let p = parse(s);
    let len = s.len();
    // The commands which are certainly over
    let over = m
        .cmds
        .iter()
        .zip(ends)
        .rposition(|(c, &e)| c.cmt.is_some() && e <= cut && src[..e].ends_with('\n'))
        .map_or(0, |i| i + 1);
    if p.cmds.len() < over {
        return Err(format!("only {} of {} commands: {:?}", p.cmds.len(), over, p.err));
    }
    diff("commands before", &p.cmds[..over].to_vec(), &full.cmds[..over].to_vec())?;
    if p.cmds.len() > full.cmds.len() {
        return Err("more commands than there were".to_owned());
    }
    if over > 0 && ends[over - 1] == cut {
        cx.class("after a command");
        if p.cmds.len() != over || p.err.is_some() {
            return Err(format!("{} commands and {:?}, not {}", p.cmds.len(), p.err, over));
        }
    }
    for a in &p.after {
        consistent(s, *a)?;
    }
    match &p.err {
        None => {
            cx.class("shorter command");
            let r = refp::parse(s);
            if let Some(e) = r.err {
                return Err(format!("what is left is accepted, without {:?}", e));
            }
            diff("commands of what is left", &p.cmds, &r.cmds)?;
            diff("end", &p.end, &pos_at(s, len))
        }
        Some(e) => {
            cx.class(kind_of(e));
            stated(s, e)?;
            match e {
                ParseError::UnexpectedEOF
                | ParseError::Unmatched(..)
                | ParseError::IncompleteCmd(..) => Ok(()),
                ParseError::BadFd(_, b) if b.byte == len => Ok(()),
                // What is left of a word or operator may be another one
                ParseError::Unexpected(tok, b) | ParseError::BadSubst(tok, b)
                    if b.byte + tok.len() == len && within(src, cut) =>
                {
                    cx.class("cut within a token");
                    Ok(())
                }
                ParseError::BadIdent(s, b) if b.byte + s.len() == len && within(src, cut) => {
                    cx.class("cut within a token");
                    Ok(())
                }
                e => Err(format!("an early end is reported as {:?}", e)),
            }
        }
    }
}

/// Whether a word or a token continues at this point.
fn within(src: &str, cut: usize) -> bool {
    let esc = src[..cut].chars().rev().take_while(|&c| c == '\\').count();
    if esc % 2 == 1 {
        return true;
    }
    let mut at = 0;
    for (t, _) in refl::lex(src) {
        if at < cut && cut < at + t.len() {
            return true;
        }
        at += t.len();
    }
    !src[cut..].starts_with(|c: char| c.is_whitespace() || ";&|<>()".contains(c))
}

// ---- C27

fn any_token(t: &mut Tape) -> Token {
    use Token::*;
    let fixed = refl::fixed_tokens();
    match t.n(8) {
        0 | 1 => Name(
            t.pick(&[
                "a", "foo", "", "if", "fi", "then", "do", "done", "in", "for", "case", "esac",
                "while", "{", "}", "1", "a b", "\n", "function", "x\ny", "EOF", "12", "0x1F", "!",
            ])
            .to_owned(),
        ),
        2 => Literal(
            t.pick(&[
                "1", "2", "12", "", "lit", "if", "fi", "\n", "a\nb", "a\n", "$x", "EOF", "'", "{",
                "}", "65536", "007", "0x", "09", "-", "do", "done", "=", "\u{e9}", " ",
            ])
            .to_owned(),
        ),
        3 => Whitespace(t.pick(&[" ", "\t", "", "\n", " \n ", "x", "\\", "\u{2003}"]).to_owned()),
        4 => ParamPositional(Positional::from_num(t.n(10) as u8).unwrap()),
        5 => t.of(&[0usize, 1, 2, 3]).pipe(|i| [Newline, Backslash, Dollar, Backtick][i].clone()),
        _ => fixed[t.n(fixed.len() as u32) as usize].1.clone(),
    }
}

trait PipeTo: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl PipeTo for usize {}

/// The position after some text. Text may also hold newlines.
fn placed(toks: &[Token]) -> (Vec<PTok>, SourcePos) {
    let mut at = 0;
    let all: String = toks.iter().map(refl::text).collect();
    let v = toks
        .iter()
        .map(|t| {
            let p = pos_at(&all, at);
            at += refl::text(t).len();
            (t.clone(), p)
        })
        .collect();
    (v, pos_at(&all, at))
}

fn external(cx: &mut Cx, toks: Vec<Token>) -> Result<(), String> {
    set(cx, &format!("{:?}", toks), toks.len() > 1);
    let (v, end) = placed(&toks);
    let len = end.byte + toks.len();
    let p = real::program(toks, len);
    let r = refp::program(Ref::of(v, end));
    diff("commands", &p.cmds, &r.cmds)?;
    diff("error", &p.err, &r.err)?;
    diff("positions", &p.after, &r.after)?;
    diff("comments", &p.comments, &r.comments)?;
    match &p.err {
        None => {
            cx.class("accepted");
            diff("end", &p.end, &end)
        }
        Some(e) => {
            cx.class("rejected");
            let _ = format!("{}", e);
            Ok(())
        }
    }
}

fn c27_tokens(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let n = t.n(14);
    let toks = (0..n).map(|_| any_token(t)).collect();
    external(cx, toks)
}

/// Programs with some of their tokens replaced by odd ones.
fn c27_near(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = any_source(t, small());
    let mut toks = lexed(&src);
    for _ in 0..1 + t.n(3) {
        let i = t.n(toks.len() as u32 + 1) as usize;
        match t.n(4) {
            0 if i < toks.len() => toks[i] = any_token(t),
            1 if i < toks.len() => {
                // Another kind of the same text
                let s = refl::text(&toks[i]);
                toks[i] = if t.n(2) == 0 { Token::Literal(s) } else { Token::Name(s) };
            }
            2 if i < toks.len() => {
                let s = refl::text(&toks[i]);
                let cut = s.char_indices().nth(1).map_or(s.len(), |c| c.0);
                let same = |x: &str| match &toks[i] {
                    Token::Name(_) => Token::Name(x.to_owned()),
                    Token::Whitespace(_) => Token::Whitespace(x.to_owned()),
                    _ => Token::Literal(x.to_owned()),
                };
                let (a, b) = (same(&s[..cut]), same(&s[cut..]));
                toks[i] = b;
                toks.insert(i, a);
            }
            _ => toks.insert(i, any_token(t)),
        }
    }
    external(cx, toks)
}

fn c27_split(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let n = 1 + t.n(5);
    let mut src = String::from("echo");
    for _ in 0..n {
        src.push_str(t.pick(&[" ", "\t ", "   "]));
        src.push_str(t.pick(&[
            "foo", "foo.bar", "a=bc", "\"some text\"", "'sq  text'", "1234", "x-$y,zz", "caf\u{e9}",
            "$(ls foo)", "`ls  bar`", "${x:-some  word}", "\\\"quoted", ">out.put", "<in", "~joe/a",
            "$(( 12 + 345 ))", "*.text", "[abc]",
        ]));
    }
    let toks = lexed(&src);
    let mut split = Vec::new();
    let mut arith = 0;
    for (i, tok) in toks.iter().enumerate() {
        if *tok == Token::ParenOpen && i > 0 && toks[i - 1] == Token::ParenOpen {
            arith += 1;
        }
        if *tok == Token::ParenClose && arith > 0 {
            arith -= 1;
        }
        let s = refl::text(tok);
        let after_dollar = i > 0 && toks[i - 1] == Token::Dollar;
        // The name of a parameter and a number of an expression are one token each
        let inner = i > 1 && toks[i - 1] == Token::CurlyOpen && toks[i - 2] == Token::Dollar;
        let f: fn(String) -> Token = match tok {
            Token::Name(_) if !after_dollar && !inner && arith == 0 => Token::Name,
            Token::Literal(_) if arith == 0 => Token::Literal,
            Token::Whitespace(_) => Token::Whitespace,
            _ => {
                split.push(tok.clone());
                continue;
            }
        };
        let mut rest = s.as_str();
        while t.n(3) != 0 && rest.chars().count() > 1 {
            let cut = 1 + t.n(rest.chars().count() as u32 - 1) as usize;
            let at = rest.char_indices().nth(cut).map_or(rest.len(), |c| c.0);
            split.push(f(rest[..at].to_owned()));
            rest = &rest[at..];
        }
        split.push(f(rest.to_owned()));
    }
    set(cx, &format!("{:?} for\n{}", split, src), split != toks);
    let (p, q) = (parse(&src), real::program(split, src.len()));
    diff("commands", &q.cmds, &p.cmds)?;
    diff("error", &q.err, &p.err)?;
    diff("positions", &q.after, &p.after)
}

fn c27_escaped(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let fixed = refl::fixed_tokens();
    let (s, tok) = fixed[t.n(fixed.len() as u32) as usize].clone();
    if tok == Token::Newline {
        return Ok(());
    }
    use Token::*;
    let name = |s: &str| Name(s.to_owned());
    let place = t.n(4);
    let (pre, post): (Vec<Token>, Vec<Token>) = match place {
        0 => (vec![], vec![]),
        1 => (vec![name("a"), Whitespace(" ".to_owned())], vec![name("b")]),
        2 => (vec![name("a"), Newline], vec![Newline, name("b")]),
        _ => (vec![Dollar, ParenOpen], vec![ParenClose]),
    };
    let mut toks = pre;
    toks.push(Backslash);
    toks.push(tok);
    toks.extend(post);
    set(cx, &format!("{:?}", toks), s.len() > 1);
    let p = real::program(toks, 100);
    if let Some(e) = p.err {
        return Err(format!("rejected: {:?}", e));
    }
    let want = format!("Esc({:?})", s);
    let got = format!("{:?}", p.cmds);
    if !got.contains(&want) {
        return Err(format!("no {} in {}", want, got));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            level: "exploration",
            rule: "random characters, token soup, programs with characters or tokens changed, \
                   constructs nested up to 60 levels on an 8 MB stack, nested backquotes, and \
                   random sequences of all public parsing methods, with a limit on the tokens \
                   pulled; non-trivial: more than one character, or more than 8 levels",
            assumptions: &["recursion deeper than 60 levels is not covered"],
            parts: vec![
                enumerated("sequences", 300_000, c03_all, sequences::<20>),
                part("any", 700_000, c03_any),
                part("methods", 400_000, c03_methods),
                part("nested", 20_000, c03_nested),
                part("ticks", 60_000, c03_ticks),
            ],
        },
        Prop {
            id: "C17",
            level: "exploration",
            rule: "programs cut after a command and continued with something else, streams with \
                   their reads counted, the same tokens through differing iterators, interleaved \
                   parsers; non-trivial: there is something to differ",
            assumptions: &[],
            parts: vec![
                part("prefix", 350_000, c17_prefix),
                part("streaming", 250_000, c17_streaming),
                part("tokens", 250_000, c17_tokens),
                part("sources", 120_000, c17_sources),
                part("interleaved", 200_000, c17_interleaved),
            ],
        },
        Prop {
            id: "C18",
            level: "exploration",
            rule: "sources which end (also within a construct) and then yield more, parsed one by \
                   one and by iterating; non-trivial: at least two tokens before the end",
            assumptions: &[],
            parts: vec![part("ends", 400_000, c18)],
        },
        Prop {
            id: "C19",
            level: "exploration",
            rule: "positions after each command against the generator's, the reference parser's, \
                   and a count of the text before them; non-trivial: has a command before the last",
            assumptions: &[],
            parts: vec![
                enumerated("sequences", 245_000, c19_all, sequences::<22>),
                part("model", 250_000, c19_model),
                part("any", 300_000, c19_any),
            ],
        },
        Prop {
            id: "C20",
            level: "exploration",
            rule: "errors of mostly broken sources against their own text and the reference \
                   parser; non-trivial: an error with a position",
            assumptions: &[],
            parts: vec![
                enumerated("sequences", 245_000, c20_all, sequences::<22>),
                part("any", 500_000, c20_any),
            ],
        },
        Prop {
            id: "C21",
            level: "exploration",
            rule: "verdict, error and the commands before it against the reference parser, for \
                   programs, broken programs, and soups (all short sequences of keywords and \
                   operators among them), and against what dash and bash agree on for programs with \
                   operators and reserved words at odd places; non-trivial: more than two characters",
            assumptions: &["what dash and bash agree to be a program is one, within the limits in DESIGN.md"],
            parts: vec![
                enumerated("sequences", 732_511, c21_all, sequences::<29>),
                part("any", 400_000, c21_any),
                part("keywords", 500_000, c21_keywords),
                part("names", 400_000, c21_names),
                part("shells", 30_000, super::meaning::verdicts),
            ],
        },
        Prop {
            id: "C22",
            level: "exploration",
            rule: "up to 9 truncations of each generated program, preferably right after one of \
                   its commands; non-trivial: something was cut off",
            assumptions: &[],
            parts: vec![part("cuts", 250_000, c22)],
        },
        Prop {
            id: "C27",
            level: "exploration",
            rule: "random tokens and programs with odd tokens in them against the reference \
                   parser on the same tokens; plain words with their tokens split; every operator \
                   after a backslash; non-trivial: more than one token, or some were split",
            assumptions: &[],
            parts: vec![
                part("tokens", 700_000, c27_tokens),
                part("near", 350_000, c27_near),
                part("split", 100_000, c27_split),
                part("escaped", 4_000, c27_escaped),
            ],
        },
    ]
}

fn c03_all(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    const A: &[&str] = &[
        "a", "1", " ", "\n", "$", "(", ")", "{", "}", "`", "\\", "\"", "'", "<<", "#", "=", "&",
        ";", "!", "-",
    ];
    let src = soup(t, A, 12);
    survives(cx, &src)
}
