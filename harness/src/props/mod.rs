//! The properties, each as a number of checks over generated cases.

use crate::gen::{Cfg, G};
use crate::model::*;
use crate::refp::{self, Prog};
use crate::tape::{Check, Cx, Recording, Tape};
use crate::{ast, real, refl};
use conch_parser::lexer::Lexer;
use conch_parser::token::Token;

pub mod api;
pub mod build;
pub mod grammar;
pub mod lex;
pub mod long;
pub mod meaning;
pub mod stream;

/// One source of cases for a property.
pub struct Source {
    pub name: &'static str,
    pub check: Check,
    /// Number of cases of a quick run
    pub quick: u64,
    pub enumerate: Option<fn(u64) -> Option<Recording>>,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Source>,
}

pub fn part(name: &'static str, quick: u64, check: Check) -> Source {
    Source {
        name,
        check,
        quick,
        enumerate: None,
    }
}

pub fn enumerated(
    name: &'static str,
    quick: u64,
    check: Check,
    e: fn(u64) -> Option<Recording>,
) -> Source {
    Source {
        name,
        check,
        quick,
        enumerate: Some(e),
    }
}

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(lex::props());
    v.extend(grammar::props());
    v.extend(stream::props());
    v.extend(build::props());
    v.extend(api::props());
    v.extend(meaning::props());
    v.sort_by_key(|p| p.id);
    v
}

/// The sequences over an alphabet of `A` symbols, shortest first, as recordings for `soup`.
pub fn sequences<const A: u64>(index: u64) -> Option<Recording> {
    let mut i = index;
    let mut len = 0u32;
    let mut block = 1u64;
    while i >= block {
        i -= block;
        len += 1;
        block = block.checked_mul(A)?;
    }
    let mut draws = vec![len];
    for _ in 0..len {
        draws.push((i % A) as u32);
        i /= A;
    }
    Some([draws, Vec::new()])
}

pub fn soup(t: &mut Tape, alphabet: &[&str], max: u32) -> String {
    let n = t.n(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(t.pick(alphabet));
    }
    s
}

/// Tokens and fragments which are likely to make for near misses of the grammar.
pub const SOUP: &[&str] = &[
    "a", "b", "foo", " ", "  ", "\n", "\t", "\\\n", "\\", "$", "$1", "${", "}", "{", "(", ")", "((",
    "))", "$(", "$((", "`", "\\`", "\"", "'", "#", "#c\n", ";", ";;", "&", "&&", "|", "||", "<",
    "<<", "<<-", "<<A\n", "\nA\n", ">", "2>", ">&", "<&", "-", ">|", "<>", ">>", "!", "=", "a=",
    "x=1", "if", "then", "elif", "else", "fi", "for", "in", "do", "done", "while", "until", "case",
    "esac", "function", "1", "12", "${a}", "${a:-b}", "${#", "%", "%%", "##", "*", "?", "[", "]",
    "~", ":", "+", "/", "@", "^", ",", "\u{e9}", "if ", "then ", "fi ", "do ", "done ", "case a in ",
    "esac ", "\na\n", "\n\tA\n", "\\$", "\\\\", "foo()", "a|b)",
    ".", "a.b", "1a", ".a()", "function ", "_",
];

/// Change a source a little: tokens are dropped, doubled, replaced, swapped, inserted.
pub fn mutate(t: &mut Tape, src: &str, alphabet: &[&str]) -> String {
    let mut src = src.to_owned();
    let k = 1 + t.n(3);
    for _ in 0..k {
        let mut v: Vec<String> = refl::lex(&src).iter().map(|t| refl::text(&t.0)).collect();
        if v.is_empty() {
            break;
        }
        let i = t.n(v.len() as u32) as usize;
        if t.chance(1, 100) {
            // Nothing which nests
            if let '\t' | '\n' | ' ' | '#' | 'a'..='z' | '0'..='9' | '*' | '=' | ',' =
                v[i].chars().next().unwrap_or('(')
            {
                v[i] = v[i].repeat(2 + t.n(600) as usize);
                src = v.concat();
                continue;
            }
        }
        match t.n(6) {
            0 => {
                v.remove(i);
            }
            1 => {
                let x = v[i].clone();
                v.insert(i, x);
            }
            2 => v.insert(i, t.pick(alphabet).to_owned()),
            3 => v[i] = t.pick(alphabet).to_owned(),
            4 => v.truncate(i),
            _ => {
                let j = t.n(v.len() as u32) as usize;
                v.swap(i, j);
            }
        }
        src = v.concat();
    }
    src
}

/// A generated program and its model.
pub fn program(t: &mut Tape, cfg: Cfg) -> (String, Group) {
    let mut g = G::new(t, cfg);
    let m = g.program();
    (g.out, m)
}

/// Any source at all: half of them slightly broken programs, the others token soup.
pub fn any_source(t: &mut Tape, cfg: Cfg) -> String {
    match t.n(4) {
        0 => {
            let n = 30;
            soup(t, SOUP, n)
        }
        1 => program(t, cfg).0,
        _ => {
            let (s, _) = program(t, cfg);
            mutate(t, &s, SOUP)
        }
    }
}

pub fn parse(src: &str) -> Prog {
    real::program(Lexer::new(src.chars()), src.len())
}

pub fn lexed(src: &str) -> Vec<Token> {
    Lexer::new(src.chars()).collect()
}

/// The first difference of two values, with some context.
pub fn diff<T: std::fmt::Debug + PartialEq>(what: &str, got: &T, want: &T) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let (g, w) = (format!("{:?}", got), format!("{:?}", want));
    let at = g
        .char_indices()
        .zip(w.chars())
        .find(|((_, a), b)| a != b)
        .map_or(g.len().min(w.len()), |((i, _), _)| i);
    let cut = |s: &str| -> String {
        let from = s
            .char_indices()
            .map(|c| c.0)
            .filter(|&i| i + 60 >= at)
            .next()
            .unwrap_or(0);
        s[from..].chars().take(300).collect()
    };
    Err(format!("{}: got …{}… want …{}…", what, cut(&g), cut(&w)))
}

/// The parse must be exactly the one of the model.
pub fn is_model(src: &str, m: &Group) -> Result<Prog, String> {
    let p = parse(src);
    if let Some(e) = &p.err {
        return Err(format!("a valid program is rejected: {:?}", e));
    }
    diff("parse", &p.group(), m)?;
    built_is(src, &m.cmds)?;
    Ok(p)
}

/// What the default builders make of a source.
pub fn built(src: &str) -> (Vec<ast::TCmd>, Option<String>) {
    conch_parser::verif::set_fuel(real::budget(src.len()));
    let p = conch_parser::parse::DefaultParser::new(real::lex(src));
    let mut cmds = Vec::new();
    let mut err = None;
    for r in p {
        match r {
            Ok(c) => cmds.push(c),
            Err(e) => err = Some(format!("{:?}", e)),
        }
    }
    conch_parser::verif::set_fuel(u64::MAX);
    (cmds, err)
}

/// The trees of the default builders must be those of these commands.
fn built_is(src: &str, want: &[Cmd]) -> Result<(), String> {
    let (cmds, _) = built(src);
    let want: Vec<_> = want.iter().map(ast::cmd).collect();
    diff("tree", &cmds, &want)
}

/// The parse must be exactly the one of the reference parser, errors included.
pub fn is_ref(src: &str) -> Result<(Prog, Prog), String> {
    let p = parse(src);
    let r = refp::parse(src);
    diff("commands", &p.cmds, &r.cmds)?;
    diff("comments", &p.comments, &r.comments)?;
    diff("error", &p.err, &r.err)?;
    built_is(src, &r.cmds)?;
    Ok((p, r))
}

/// Sources for a check against the reference: a program of the given kind, mutated with
/// the given alphabet, or a soup of the alphabet.
pub fn near(t: &mut Tape, cfg: Cfg, alphabet: &[&str]) -> String {
    if t.n(3) == 0 {
        let n = 16;
        soup(t, alphabet, n)
    } else {
        let (s, _) = program(t, cfg);
        mutate(t, &s, alphabet)
    }
}

pub fn size_cfg(mut c: Cfg) -> Cfg {
    if crate::thorough() {
        c.budget += c.budget / 2;
        c.depth += 1;
        c.args += 1;
    }
    c
}

pub fn set(cx: &mut Cx, src: &str, nontrivial: bool) {
    cx.input.clear();
    cx.input.push_str(src);
    cx.nontrivial = nontrivial;
}
