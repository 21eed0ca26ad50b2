//! C29: each public method for a part of the grammar.

use super::*;
use crate::gen::Term;
use crate::refl::pos_at;
use crate::refp::{Delims, Ref, E};
use crate::trace::{self, Trace};
use conch_parser::parse::{CommandGroupDelimiters, Parser};

pub const METHODS: &[&str] = &[
    "complete_command",
    "and_or_list",
    "pipeline",
    "command",
    "simple_command",
    "redirect_list",
    "redirect",
    "redirect_heredoc",
    "word",
    "word_preserve_trailing_whitespace",
    "backticked_command_substitution",
    "parameter",
    "do_group",
    "brace_group",
    "subshell",
    "compound_command",
    "loop_command",
    "if_command",
    "for_command",
    "case_command",
    "maybe_function_declaration",
    "function_declaration",
    "skip_whitespace",
    "linebreak",
    "newline",
    "arithmetic_substitution",
    // Those with arguments, for some of them
    "peek_reserved_token {",
    "peek_reserved_token blank",
    "peek_reserved_token several",
    "peek_reserved_word if",
    "peek_reserved_word several",
    "reserved_token {",
    "reserved_token several",
    "reserved_word several",
    "command_group default",
    "command_group words",
    "command_group }",
    "command_group )",
    "command_group ;;",
    "peek_reserved_token none",
    "peek_reserved_word none",
    "reserved_token none",
    "reserved_word none",
];

const WORDS: &[&str] = &["a", "if", "then", "fi", "do", "done", "1"];
const GROUP_WORDS: &[&str] = &["done", "fi", "a"];

fn several() -> Vec<Token> {
    vec![
        Token::CurlyOpen,
        Token::CurlyClose,
        Token::Bang,
        Token::DSemi,
        Token::Name("a".to_owned()),
        Token::Literal("1".to_owned()),
        Token::Newline,
        Token::Pound,
    ]
}

fn blanks() -> Vec<Token> {
    vec![Token::Whitespace(" ".to_owned()), Token::CurlyClose]
}

pub type Outcome = Result<String, E>;

fn show<T: std::fmt::Debug>(t: T) -> String {
    format!("{:?}", t)
}

/// Call a method of the parser: the result, its text form, and whether it is no error.
pub fn call<I: Iterator<Item = Token>>(
    p: &mut Parser<I, &mut Trace>,
    k: usize,
) -> (Outcome, String, bool) {
    let r = outcome(p, k);
    match r {
        Ok(s) => (Ok(s), String::new(), true),
        Err(e) => {
            let s = e.to_string();
            (Err(e), s, false)
        }
    }
}

fn outcome<I: Iterator<Item = Token>>(p: &mut Parser<I, &mut Trace>, k: usize) -> Outcome {
    let nls = |v: Vec<conch_parser::ast::builder::Newline>| -> Vec<Nl> {
        v.into_iter().map(|n| n.0).collect()
    };
    Ok(match k {
        0 => show(p.complete_command()?),
        1 => show(p.and_or_list()?),
        2 => show(p.pipeline()?),
        3 => show(p.command()?),
        4 => show(p.simple_command()?),
        5 => show(p.redirect_list()?),
        6 => show(p.redirect()?),
        7 => show(p.redirect_heredoc(Some(7))?),
        8 => show(p.word()?),
        9 => show(p.word_preserve_trailing_whitespace()?),
        10 => show(p.backticked_command_substitution()?),
        11 => show(p.parameter()?),
        12 => show(trace::group(p.do_group()?)),
        13 => show(trace::group(p.brace_group()?)),
        14 => show(trace::group(p.subshell()?)),
        15 => show(p.compound_command()?),
        16 => {
            let (kind, body) = p.loop_command()?;
            show(trace::loop_frags(kind, body))
        }
        17 => show(trace::if_frags(p.if_command()?)),
        18 => show(trace::for_frags(p.for_command()?)),
        19 => show(trace::case_frags(p.case_command()?)),
        20 => show(p.maybe_function_declaration()?),
        21 => show(p.function_declaration()?),
        22 => {
            p.skip_whitespace();
            String::new()
        }
        23 => show(nls(p.linebreak())),
        24 => show(p.newline().map(|n| n.0)),
        25 => show(p.arithmetic_substitution()?),
        26 => show(p.peek_reserved_token(&[Token::CurlyOpen]).cloned()),
        27 => show(p.peek_reserved_token(&blanks()).cloned()),
        28 => show(p.peek_reserved_token(&several()).cloned()),
        29 => show(p.peek_reserved_word(&["if"])),
        30 => show(p.peek_reserved_word(WORDS)),
        31 => show(p.reserved_token(&[Token::CurlyOpen])?),
        32 => show(p.reserved_token(&several())?),
        33 => show(p.reserved_word(WORDS)),
        34 => show(trace::group(p.command_group(Default::default())?)),
        35 => show(trace::group(p.command_group(CommandGroupDelimiters {
            reserved_words: GROUP_WORDS,
            ..Default::default()
        })?)),
        36 => show(trace::group(p.command_group(CommandGroupDelimiters {
            reserved_tokens: &[Token::CurlyClose],
            ..Default::default()
        })?)),
        37 => show(trace::group(p.command_group(CommandGroupDelimiters {
            exact_tokens: &[Token::ParenClose],
            ..Default::default()
        })?)),
        38 => show(trace::group(p.command_group(CommandGroupDelimiters {
            reserved_words: &["esac"],
            reserved_tokens: &[],
            exact_tokens: &[Token::DSemi],
        })?)),
        39 => show(p.peek_reserved_token(&[]).cloned()),
        40 => show(p.peek_reserved_word(&[])),
        41 => show(p.reserved_token(&[])?),
        42 => show(p.reserved_word(&[])),
        _ => unreachable!(),
    })
}

/// The same by the reference parser.
fn reference(r: &mut Ref, k: usize) -> Outcome {
    let sw = |s: Sw| Word(vec![Part::S(s)]);
    // What was found is the token right there
    fn peeked(r: &mut Ref, toks: &[Token]) -> Option<Token> {
        if r.peek_token(toks) {
            r.next_token()
        } else {
            None
        }
    }
    let d = Delims::default();
    Ok(match k {
        0 => show(r.complete()?),
        1 => show(r.list()?),
        2 => show(r.pipe()?),
        3 => show(r.command()?),
        4 => show(r.simple()?),
        5 => show(r.redirects()?),
        6 => show(r.redirect()?),
        7 => show(r.heredoc(Some(7))?),
        8 => show(r.word()?),
        9 => show(r.word_ws()?),
        10 => show(sw(r.backtick()?)),
        11 => show(sw(r.param()?)),
        12 => show(r.do_group()?),
        13 => show(r.brace()?),
        14 => show(r.subshell()?),
        15 => show(r.compound()?),
        16 => show(r.loop_cmd()?),
        17 => show(r.if_cmd()?),
        18 => show(r.for_cmd()?),
        19 => show(r.case_cmd()?),
        20 => show(r.maybe_function()?),
        21 => show(r.function()?),
        22 => {
            r.skip_ws();
            String::new()
        }
        23 => show(r.linebreak()),
        24 => show(r.newline()),
        25 => show(r.arith()?),
        26 => show(peeked(r, &[Token::CurlyOpen])),
        27 => show(peeked(r, &blanks())),
        28 => show(peeked(r, &several())),
        29 => show(r.peek_word(&["if"])),
        30 => show(r.peek_word(WORDS)),
        31 => show(r.token_kw(&[Token::CurlyOpen])?),
        32 => show(r.token_kw(&several())?),
        33 => show(r.word_kw(WORDS).ok_or(())),
        34 => show(r.group(d)?),
        35 => show(r.group(Delims {
            words: GROUP_WORDS,
            ..d
        })?),
        36 => show(r.group(Delims {
            tokens: &[Token::CurlyClose],
            ..d
        })?),
        37 => show(r.group(Delims {
            exact: &[Token::ParenClose],
            ..d
        })?),
        38 => show(r.group(Delims {
            words: &["esac"],
            exact: &[Token::DSemi],
            ..d
        })?),
        39 => show(peeked(r, &[])),
        40 => show(r.peek_word(&[])),
        41 => show(r.token_kw(&[])?),
        42 => show(r.word_kw(&[]).ok_or(())),
        _ => unreachable!(),
    })
}

/// Methods one after the other on some text, until there is an error, and then the rest.
fn sequence(src: &str, calls: &[usize]) -> Result<bool, String> {
    conch_parser::verif::set_fuel(real::budget(src.len()) * (1 + calls.len() as u64));
    let mut b = Trace::new();
    let mut p = Parser::with_builder(real::lex(&src), &mut b);
    let mut r = Ref::new(src);
    let mut moved = false;
    for (i, &k) in calls.iter().enumerate() {
        let before = p.pos();
        let got = call(&mut p, k).0;
        let want = reference(&mut r, k);
        let what = format!("{} (call {})", METHODS[k], i);
        diff(&what, &got, &want)?;
        moved |= p.pos() != before;
        if got.is_err() {
            conch_parser::verif::set_fuel(u64::MAX);
            return Ok(moved);
        }
        diff(&format!("position after {}", what), &p.pos(), &r.pos())?;
        diff("line and column", &p.pos(), &pos_at(src, p.pos().byte))?;
        if METHODS[k].starts_with("peek") {
            let skipped = &src[before.byte..p.pos().byte];
            if !skipped.replace("\\\n", " ").chars().all(|c| c.is_whitespace() && c != '\n') {
                return Err(format!("{} consumed {:?}", what, skipped));
            }
        }
    }
    loop {
        let got = call(&mut p, 0).0;
        let want = reference(&mut r, 0);
        diff("the rest", &got, &want)?;
        match got {
            Ok(s) if s != "None" => {
                diff("position in the rest", &p.pos(), &r.pos())?;
            }
            _ => break,
        }
    }
    conch_parser::verif::set_fuel(u64::MAX);
    Ok(moved)
}

/// Source text which is fit for the method, and what it should yield.
fn fit(g: &mut G<'_>, k: usize) -> Option<String> {
    fn kind_only(k: Kind) -> Option<String> {
        Some(show(k))
    }
    match k {
        2 | 3 | 4 => {
            let c = if k == 4 { g.simple() } else { g.pcmd() };
            Some(if k == 2 {
                show(Pipe {
                    bang: false,
                    cmds: vec![(Vec::new(), c)],
                })
            } else {
                show(c)
            })
        }
        6 => {
            let mut cfg = g.cfg;
            std::mem::swap(&mut g.cfg, &mut cfg);
            g.cfg.heredoc = 0;
            let r = g.redir();
            g.cfg = cfg;
            let o: Option<Result<Redir, Word>> = Some(Ok(r));
            Some(show(o))
        }
        8 => Some(show(Some(g.word(false)))),
        13 => match g.brace() {
            Kind::Brace(g) => Some(show(g)),
            _ => None,
        },
        14 => match g.subshell() {
            Kind::Subshell(g) => Some(show(g)),
            _ => None,
        },
        15 => Some(show(g.compound())),
        16 => kind_only(g.loop_cmd()),
        17 => kind_only(g.if_cmd()),
        18 => kind_only(g.for_cmd()),
        19 => kind_only(g.case_cmd()),
        20 => Some(show(Some(g.func()))),
        21 => Some(show(g.func())),
        25 => {
            g.cfg.layout = 1;
            let e = g.arith(3);
            g.print_arith(&e, 0);
            Some(show(e))
        }
        _ => None,
    }
}

const FIT: &[usize] = &[2, 3, 4, 6, 8, 13, 14, 15, 16, 17, 18, 19, 20, 21, 25];

fn c29_fit(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let k = t.of(FIT);
    let mut g = G::new(
        t,
        Cfg {
            heredoc: 0,
            budget: 16,
            ..Cfg::base()
        },
    );
    let want = fit(&mut g, k).unwrap();
    let mut src = std::mem::take(&mut g.out);
    if k == 14 {
        // The generator may have put blanks first, which are not the method's to skip
        let blank = |c: char| c != '\n' && c.is_whitespace();
        while let Some(s) = src.strip_prefix("\\\n").or_else(|| src.strip_prefix(blank)) {
            src = s.to_owned();
        }
    }
    let construct = src.len();
    // Followed by something which has nothing to do with it
    let ends = match k {
        25 => &["))", ";", "\n", " ;"][..],
        _ => &["\n", " \n", ";", " ; ", "&", "\n\n"][..],
    };
    let end = g.t.pick(ends).to_owned();
    src.push_str(&end);
    let after = src.len();
    let (rest, _) = program(
        g.t,
        Cfg {
            budget: 6,
            cmds: 1,
            ..Cfg::base()
        },
    );
    src.push_str(&rest);
    set(cx, &format!("{} on\n{}", METHODS[k], src), construct > 1);
    conch_parser::verif::set_fuel(real::budget(src.len()));
    let mut b = Trace::new();
    let mut p = Parser::with_builder(real::lex(&src), &mut b);
    match call(&mut p, k).0 {
        Ok(s) => diff(METHODS[k], &s, &want)?,
        Err(e) => return Err(format!("{} rejects its own construct: {:?}", METHODS[k], e)),
    }
    // Blanks may be skipped, but nothing more
    let at = p.pos().byte;
    let blanks = |s: &str| s.replace("\\\n", " ").chars().all(|c| c != '\n' && c.is_whitespace());
    if at < construct && !blanks(&src[at..construct])
        || at > construct && (at > after || !blanks(&src[construct..at]))
    {
        return Err(format!(
            "{} stops at {:?}, while its construct ends at {}",
            METHODS[k], p.pos(), construct
        ));
    }
    diff("line and column", &p.pos(), &pos_at(&src, at))?;
    if k == 25 {
        return Ok(());
    }
    // Parsing goes on with what follows, as if it were preceded by just another command
    let there = format!("{}{}", if end.starts_with(|c| c == '\n' || c == ' ') && end.contains('\n') { "" } else { "a" }, &src[construct..]);
    let full = parse(&there);
    p.skip_whitespace();
    let _ = p.newline();
    let mut got = Vec::new();
    if end.contains(';') || end.contains('&') {
        // The separator is left to us
        let r = p.reserved_token(&[Token::Semi, Token::Amp]);
        if r.is_err() && !rest.is_empty() {
            // Not delimited by what follows: cannot go on this way
            cx.class("separator not delimited");
            return Ok(());
        }
        let _ = p.newline();
    }
    loop {
        match p.complete_command() {
            Ok(Some(c)) => got.push(c),
            Ok(None) => break,
            Err(e) => return Err(format!("after the construct: {:?}", e)),
        }
    }
    if full.err.is_some() {
        return Err(format!("{:?} is rejected: {:?}", there, full.err));
    }
    let skip = usize::from(there.starts_with('a'));
    let group = |v: Vec<Cmd>| {
        strip(Group {
            cmds: v,
            trailing: Vec::new(),
        })
    };
    diff("what follows", &group(got), &group(full.cmds[skip..].to_vec()))
}

fn c29_methods(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let n = 1 + t.n(4);
    let calls: Vec<usize> = (0..n).map(|_| t.n(METHODS.len() as u32) as usize).collect();
    let cfg = Cfg {
        budget: 12,
        ..Cfg::base()
    };
    let src = match t.n(3) {
        0 => {
            let mut g = G::new(t, cfg);
            let done = fit(&mut g, calls[0]).is_some();
            let mut s = std::mem::take(&mut g.out);
            if !done {
                s = fitting_text(g.t, calls[0]);
            }
            let tail = soup(g.t, SOUP, 6);
            format!("{}{}", s, tail)
        }
        1 => {
            let mut g = G::new(t, cfg);
            let _ = fit(&mut g, calls[0]);
            let s = std::mem::take(&mut g.out);
            mutate(g.t, &s, SOUP)
        }
        _ => any_source(t, cfg),
    };
    let names: Vec<_> = calls.iter().map(|&c| METHODS[c]).collect();
    set(cx, &format!("{:?} on\n{}", names, src), false);
    cx.nontrivial = sequence(&src, &calls)?;
    Ok(())
}

/// Text for methods which the generator has no method for.
fn fitting_text(t: &mut Tape, k: usize) -> String {
    let cfg = Cfg {
        budget: 8,
        ..Cfg::base()
    };
    match METHODS[k] {
        "redirect_list" | "redirect_heredoc" => {
            let a = ["<<A >o\nx\nA\n", "<<-'B' 2>&1\n\tx\nB\n", ">a <b", "2>&1 <<C", "<<A <<B\nA\nB\n"];
            t.pick(&a).to_owned()
        }
        "word_preserve_trailing_whitespace" => {
            let mut g = G::new(t, cfg);
            let _ = g.word(false);
            format!("{}  \\\n ", g.out)
        }
        "backticked_command_substitution" => {
            let mut g = G::new(t, cfg);
            g.set_content(true);
            let _ = g.group(Term::Tick, 0, 2);
            let c = std::mem::take(&mut g.out);
            format!("`{}` x", g.encode_tick(&c))
        }
        "parameter" => {
            let a = [
                "$a", "$", "$1", "$$", "${a}", "${#a}", "${a:-b c}", "$(a;b)", "$((1+2))", "$@x",
                "${10}", "$ x", "${a%%b}",
            ];
            t.pick(&a).to_owned()
        }
        "do_group" => {
            let (s, _) = program(t, cfg);
            format!("do {}\n:; done;", s)
        }
        "skip_whitespace" | "linebreak" | "newline" => {
            let n = t.n(6);
            (0..n)
                .map(|_| t.pick(&["\n", " ", "#c", "\\\n", "\t", "#c\n", "a"]).to_owned())
                .collect()
        }
        _ => soup(t, &["{", "}", " ", "if", "a", "1", "\\\n", "!", "fi", ";", "\n", "#", ")", ";;"], 6),
    }
}

/// Each method on all short texts.
fn c29_all(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    const A: &[&str] = &[
        "a", " ", "\n", "$", "(", ")", "{", "}", "if ", "fi", ";", ">", "1", "#", "`", "\\", "=",
        "do ", "done", "!",
    ];
    let src = soup(t, A, 12);
    set(cx, &src, false);
    for k in 0..METHODS.len() {
        cx.nontrivial |= sequence(&src, &[k]).map_err(|e| format!("{}: {}", METHODS[k], e))?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        level: "exploration",
        rule: "each public method on a construct of its own followed by other commands, against \
               the generator's model; sequences of up to 4 methods on fitting, broken and \
               arbitrary text, and every method on all short texts, against the reference \
               parser; non-trivial: something was consumed",
        assumptions: &[],
        parts: vec![
            enumerated("sequences", 30_000, c29_all, sequences::<20>),
            part("fit", 250_000, c29_fit),
            part("methods", 500_000, c29_methods),
        ],
    }]
}
