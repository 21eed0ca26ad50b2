//! C01, C02, C26: the lexer, tokens, and the texts of things.

use super::*;
use conch_parser::ast::{DefaultParameter as Param, Parameter};
use conch_parser::parse::{ParseError, SourcePos};
use conch_parser::token::Positional;

/// Single characters for exhaustive enumeration: every class the lexer tells apart.
const CHARS: &[&str] = &[
    "a", "1", "$", "\\", " ", "\n", "<", ">", "-", "&", "|", ";", "#", "\u{e9}", "_", "{",
];

fn text(t: &mut Tape) -> String {
    let mut s = short_text(t);
    if t.chance(1, 60) {
        // A lot of something
        let n = s.chars().count() as u32 + 1;
        let (i, len) = (t.n(n) as usize, 1 + t.n(2) as usize);
        let piece: String = s.chars().skip(i).take(len).collect();
        let at = s.char_indices().nth(i).map_or(s.len(), |c| c.0);
        s.insert_str(at, &piece.repeat(t.n(1200) as usize));
    }
    s
}

fn short_text(t: &mut Tape) -> String {
    match t.n(5) {
        0 | 1 => {
            let n = 1 + t.n(24);
            let mut s = String::new();
            for _ in 0..n {
                let c = match t.n(12) {
                    0 => t.of(&[
                        '\u{2003}', '\u{a0}', '\u{85}', '\r', '\u{b}', '\u{c}', '\u{2028}',
                        '\u{3000}', '\u{feff}', '\0', '\u{7f}',
                    ]),
                    1 => t.of(&['\u{e9}', '\u{4e2d}', '\u{661}', '\u{b2}', '\u{301}', '\u{1f600}', '\u{2160}', '\u{aa}']),
                    2 => char::from_u32(t.n(0x11_0000)).unwrap_or('x'),
                    3 => char::from(t.n(128) as u8),
                    4..=6 => t.of(&['$', '\\', '<', '>', '-', '&', '|', ';', '0', '9', '1']),
                    7..=8 => t.of(&['a', 'B', '_', '1', '7', '0']),
                    9 => t.of(&[' ', '\t', '\n']),
                    _ => t.of(&[
                        '!', '~', '#', '*', '?', '%', '=', '+', ':', '@', '^', '/', ',', '\'', '"',
                        '`', '(', ')', '{', '}', '[', ']', '.',
                    ]),
                };
                s.push(c);
            }
            s
        }
        _ => any_source(t, Cfg::base()),
    }
}

/// Sources of characters which differ in what they promise about their length.
struct Vague<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Vague<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

/// Yields more after its end was reached.
#[derive(Clone)]
struct Revenant<'a>(std::str::Chars<'a>, std::str::Chars<'a>, bool);
impl<'a> Iterator for Revenant<'a> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        if self.2 {
            return self.1.next();
        }
        let c = self.0.next();
        self.2 = c.is_none();
        c
    }
}

fn hints<I: Iterator<Item = char>>(l: Lexer<I>, all: usize, what: &str) -> Result<(), String> {
    let mut l = l;
    let mut left = all;
    loop {
        let (lo, hi) = l.size_hint();
        if lo > left || hi.map_or(false, |h| h < left) {
            return Err(format!(
                "{}: size hint {:?} with {} of {} tokens left",
                what,
                (lo, hi),
                left,
                all
            ));
        }
        match l.next() {
            Some(_) => left = left.checked_sub(1).ok_or("more tokens than before")?,
            None => break,
        }
    }
    if left != 0 {
        return Err(format!("{}: {} tokens went missing", what, left));
    }
    Ok(())
}

fn lossless(src: &str, split: usize) -> Result<usize, String> {
    let toks = lexed(src);
    let mut at = 0;
    for t in &toks {
        let shown = t.to_string();
        if t.as_str() != shown || t.len() != shown.len() || t.is_empty() != shown.is_empty() {
            return Err(format!("length or text of {:?} disagree", t));
        }
        if shown.is_empty() {
            return Err(format!("empty token {:?}", t));
        }
        if !src[at..].starts_with(&shown) {
            return Err(format!("{:?} is not the source at byte {}", t, at));
        }
        at += shown.len();
    }
    if at != src.len() {
        return Err(format!("lost the source from byte {}", at));
    }

    hints(Lexer::new(src.chars()), toks.len(), "chars")?;
    let v: Vec<char> = src.chars().collect();
    let n = v.len();
    hints(Lexer::new(v.iter().copied()), toks.len(), "exact")?;
    for h in [(0, None), (n, Some(n)), (n / 2, None), (0, Some(n + 3)), (1.min(n), Some(n))] {
        // A constant hint is only right as long as nothing was read
        let l = Lexer::new(Vague(v.iter().copied(), h));
        let (lo, hi) = l.size_hint();
        if lo > toks.len() || hi.map_or(false, |h| h < toks.len()) {
            return Err(format!("size hint {:?} for {} tokens", (lo, hi), toks.len()));
        }
        if h.0 == 0 && h.1.map_or(true, |h| h > n) {
            hints(l, toks.len(), "vague")?;
        }
    }

    let split = split.min(toks.len());
    let mut l = Lexer::new(src.chars());
    for _ in 0..split {
        l.next();
    }
    let rest: Vec<Token> = l.clone().collect();
    diff("tokens of a clone", &rest.as_slice(), &&toks[split..])?;
    let rest: Vec<Token> = l.by_ref().collect();
    diff("tokens after cloning", &rest.as_slice(), &&toks[split..])?;
    for _ in 0..3 {
        if let Some(t) = l.next() {
            return Err(format!("{:?} after the end", t));
        }
    }
    let more = "x $y 'z";
    let mut l = Lexer::new(Revenant(src.chars(), more.chars(), false));
    let got: Vec<Token> = l.by_ref().collect();
    diff("tokens of a source which resumes", &got, &toks)?;
    for _ in 0..3 {
        if let Some(t) = l.next() {
            return Err(format!("{:?} from a source after its end", t));
        }
    }
    Ok(toks.len())
}

fn c01(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let split = t.n(40) as usize;
    let src = text(t);
    set(cx, &src, src.chars().count() > 2);
    lossless(&src, split).map(drop)
}

fn c01_chars(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = soup(t, CHARS, 6);
    set(cx, &src, src.chars().count() > 2);
    lossless(&src, src.chars().count() / 2).map(drop)
}

fn classes(src: &str) -> Result<usize, String> {
    let got = lexed(src);
    let want: Vec<Token> = refl::lex(src).into_iter().map(|t| t.0).collect();
    diff("tokens", &got, &want)?;
    for t in &got {
        if t.is_word_delimiter() != refl::delimits(t) {
            return Err(format!("{:?} delimits words: {}", t, t.is_word_delimiter()));
        }
    }
    let mut kinds: Vec<_> = got.iter().map(std::mem::discriminant).collect();
    kinds.dedup();
    Ok(kinds.len())
}

fn c02(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = text(t);
    set(cx, &src, false);
    cx.nontrivial = classes(&src)? > 2;
    Ok(())
}

fn c02_chars(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = soup(t, CHARS, 6);
    set(cx, &src, src.chars().count() > 1);
    classes(&src).map(drop)
}

// ---- C26

fn word_of(src: &str) -> Result<Word, String> {
    let p = parse(src);
    if let Some(e) = p.err {
        return Err(format!("{:?} is rejected: {:?}", src, e));
    }
    match p.cmds.as_slice() {
        [c] => match &c.list.first.cmds[0].1 {
            PCmd::Simple { args, .. } => match args.as_slice() {
                [Post::Word(w)] => Ok(w.clone()),
                a => Err(format!("{:?} is {:?}", src, a)),
            },
            c => Err(format!("{:?} is {:?}", src, c)),
        },
        c => Err(format!("{:?} is {:?}", src, c)),
    }
}

fn is_only(w: &Word, p: &Param) -> Result<(), String> {
    diff("word", w, &Word(vec![Part::S(Sw::Param(p.clone()))]))
}

/// The printed form of parameters parses to the parameter, whatever follows.
fn c26_param(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let p = match t.n(4) {
        0 => Parameter::Positional(match t.n(5) {
            0 => t.n(10),
            1 => 10 + t.n(90),
            2 => 1 << t.n(32),
            3 => u32::MAX - t.n(3),
            _ => t.n(u32::MAX),
        }),
        1 => {
            let mut s = String::new();
            let n = 1 + t.n(6);
            for i in 0..n {
                let c = t.of(&['a', '_', 'Z', '1', '0', '9', '\u{e9}', '\u{4e2d}', '\u{aa}']);
                s.push(if i == 0 && c.is_ascii_digit() { 'q' } else { c });
            }
            Parameter::Var(s)
        }
        _ => t.of_params(),
    };
    let shown = p.to_string();
    let follow = match t.n(4) {
        0 => String::new(),
        1 => t
            .pick(&["a", "1", "_", "9z", "$", "$$", "{", "}", "[", "'x'", "\"y\"", "-", "#", "=", ":", "?", "*", "@", "%", "/", "\\x", "\u{e9}", "!"])
            .to_owned(),
        _ => {
            let mut g = G::new(
                t,
                Cfg {
                    budget: 4,
                    layout: 0,
                    comments: false,
                    heredoc: 0,
                    ..Cfg::base()
                },
            );
            g.word(false);
            g.out
        }
    };
    let src = format!("{}{}", shown, follow);
    set(cx, &src, !follow.is_empty());

    is_only(&word_of(&shown)?, &p)?;
    diff(
        "double quoted",
        &word_of(&format!("\"{}\"", shown))?,
        &Word(vec![Part::DQ(vec![Sw::Param(p.clone())])]),
    )?;
    let w = word_of(&src)?;
    match w.0.first() {
        Some(Part::S(Sw::Param(q))) if *q == p => {}
        other => return Err(format!("{:?} starts with {:?}, not {:?}", src, other, p)),
    }
    // What follows is what it would be behind some other complete piece of text
    if !follow.is_empty() {
        let other = word_of(&format!("''{}", follow))?;
        let rest = Word(w.0[1..].to_vec());
        diff("text which follows a parameter", &rest, &Word(other.0[1..].to_vec()))?;
    }
    Ok(())
}

impl Tape {
    fn of_params(&mut self) -> Param {
        match self.n(7) {
            0 => Parameter::At,
            1 => Parameter::Star,
            2 => Parameter::Pound,
            3 => Parameter::Question,
            4 => Parameter::Dash,
            5 => Parameter::Dollar,
            _ => Parameter::Bang,
        }
    }
}

fn any_token(t: &mut Tape) -> Token {
    match t.n(5) {
        0 => Token::Name(t.pick(&["a", "foo", "_x1", "\u{e9}"]).to_owned()),
        1 => Token::Literal(t.pick(&["1", ".", "..", "9z", "\u{661}", "0_a"]).to_owned()),
        2 => Token::Whitespace(t.pick(&[" ", "\t", " \t \u{2003}"]).to_owned()),
        3 => Token::ParamPositional(Positional::from_num(t.n(10) as u8).unwrap()),
        _ => {
            let f = refl::fixed_tokens();
            f[t.n(f.len() as u32) as usize].1.clone()
        }
    }
}

fn c26_token(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let tok = any_token(t);
    let want = refl::text(&tok);
    set(cx, &want, true);
    diff("printed token", &tok.to_string(), &want)?;
    diff("text of token", &tok.as_str().to_owned(), &want)?;
    diff("length of token", &tok.len(), &want.len())?;
    diff("lexing a printed token", &lexed(&want), &vec![tok.clone()])?;

    // Numbers and positional tokens
    let n = t.n(256) as u8;
    match Positional::from_num(n) {
        Some(p) => {
            if n > 9 {
                return Err(format!("{} became {:?}", n, p));
            }
            diff("number", &p.as_num(), &n)?;
            let via: u8 = p.into();
            diff("number", &via, &n)?;
            let tok = Token::ParamPositional(p);
            diff("positional token", &tok.to_string(), &format!("${}", n))?;
        }
        None if n <= 9 => return Err(format!("{} is no positional", n)),
        None => {}
    }

    // Errors mention what they are about
    let num = |t: &mut Tape| match t.n(3) {
        0 => t.n(10) as usize,
        1 => 1000 + t.n(100_000) as usize,
        _ => 4_000_000_000 + t.n(1000) as usize,
    };
    let pos = |t: &mut Tape| SourcePos {
        byte: num(t),
        line: num(t),
        col: num(t),
    };
    let (a, b) = (pos(t), pos(t));
    let at = |p: SourcePos| format!("{}:{}", p.line, p.col);
    diff("position", &a.to_string(), &at(a))?;
    let shown = if tok == Token::Newline {
        "\\n".to_owned()
    } else {
        want.clone()
    };
    type E = ParseError<crate::trace::TErr>;
    let cases: Vec<(E, Vec<String>)> = vec![
        (ParseError::BadFd(a, b), vec![at(a), at(b)]),
        (ParseError::BadIdent(want.clone(), a), vec![want.clone(), at(a)]),
        (ParseError::Unexpected(tok.clone(), a), vec![shown.clone(), at(a)]),
        (ParseError::Unmatched(tok.clone(), a), vec![want.clone(), at(a)]),
        (ParseError::BadSubst(tok.clone(), a), vec![shown, at(a)]),
        (
            ParseError::IncompleteCmd("if", a, "then", b),
            vec!["if".to_owned(), "then".to_owned(), at(a), at(b)],
        ),
        (
            ParseError::Custom(crate::trace::TErr(77)),
            vec![crate::trace::TErr(77).to_string()],
        ),
    ];
    for (e, wants) in cases {
        let s = e.to_string();
        for w in wants {
            if !s.contains(&w) {
                return Err(format!("{:?} is printed as {:?} without {:?}", e, s, w));
            }
        }
        if let ParseError::Unexpected(Token::Newline, _) | ParseError::BadSubst(Token::Newline, _) = e {
            if s.contains('\n') {
                return Err(format!("{:?} prints a raw newline: {:?}", e, s));
            }
        }
    }
    if E::UnexpectedEOF.to_string().is_empty() {
        return Err("the end of input is printed as nothing".to_owned());
    }
    Ok(())
}

/// Errors as they occur in practice.
fn c26_error(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = near(t, Cfg::base(), SOUP);
    set(cx, &src, false);
    let p = parse(&src);
    let e = match p.err {
        Some(e) => e,
        None => return Ok(()),
    };
    cx.nontrivial = true;
    let s = e.to_string();
    let at = |p: &SourcePos| format!("{}:{}", p.line, p.col);
    let wants = match &e {
        ParseError::BadFd(a, b) => vec![at(a), at(b)],
        ParseError::BadIdent(i, a) => vec![i.clone(), at(a)],
        ParseError::Unexpected(Token::Newline, a) | ParseError::BadSubst(Token::Newline, a) => {
            vec!["\\n".to_owned(), at(a)]
        }
        ParseError::Unexpected(t, a) | ParseError::Unmatched(t, a) | ParseError::BadSubst(t, a) => {
            vec![refl::text(t), at(a)]
        }
        ParseError::IncompleteCmd(c, a, k, b) => {
            vec![(*c).to_owned(), at(a), (*k).to_owned(), at(b)]
        }
        ParseError::UnexpectedEOF => vec![],
        ParseError::Custom(e) => return Err(format!("{:?} out of nowhere", e)),
    };
    for w in wants {
        if !s.contains(&w) {
            return Err(format!("{:?} is printed as {:?} without {:?}", e, s, w));
        }
    }
    // No token of a lexed source has a newline in it other than the newline itself
    if s.contains('\n') {
        return Err(format!("{:?} is printed with a newline: {:?}", e, s));
    }
    Ok(())
}

/// Errors no source may lead to, and what they are made from.
fn c26_errors(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let pos = |t: &mut Tape| SourcePos {
        byte: t.n(5000) as usize,
        line: 1 + t.n(3000) as usize,
        col: 1 + t.n(3000) as usize,
    };
    let (a, b) = (pos(t), pos(t));
    let tokens = refl::lex(&soup(t, SOUP, 4));
    let token = match tokens.last() {
        Some(x) => x.0.clone(),
        None => Token::Newline,
    };
    let text = if token == Token::Newline {
        "\\n".to_owned()
    } else {
        refl::text(&token)
    };
    let words = ["if", "then", "fi", "while", "until", "do", "done", "for", "in", "case", "esac"];
    let (c, k) = (t.of(&words), t.of(&words));
    let custom = format!("<{}>", t.n(1000));
    let at = |p: &SourcePos| format!("{}:{}", p.line, p.col);
    let (e, wants): (ParseError<Odd>, Vec<String>) = match t.n(8) {
        0 => (ParseError::BadFd(a, b), vec![at(&a), at(&b)]),
        1 => (ParseError::BadIdent(text.clone(), a), vec![text, at(&a)]),
        2 => (ParseError::BadSubst(token, a), vec![text, at(&a)]),
        3 if token != Token::Newline => (ParseError::Unmatched(token, a), vec![text, at(&a)]),
        4 => (
            ParseError::IncompleteCmd(c, a, k, b),
            vec![c.to_owned(), k.to_owned(), at(&a), at(&b)],
        ),
        5 => (ParseError::UnexpectedEOF, vec!["end".to_owned()]),
        6 => (Odd(custom.clone()).into(), vec![custom.clone()]),
        _ => (ParseError::Unexpected(token, a), vec![text, at(&a)]),
    };
    let s = e.to_string();
    set(cx, &s, true);
    for w in wants {
        if !s.contains(&w) {
            return Err(format!("{:?} is printed as {:?} without {:?}", e, s, w));
        }
    }
    // Which of the two positions is which
    if let ParseError::IncompleteCmd(..) = e {
        let of = |w: &str| s.find(&format!("`{}`", w));
        if let (Some(x), Some(y)) = (of(c), of(k)) {
            let (first, second) = if x < y { (a, b) } else { (b, a) };
            let (f, g) = (s.find(&at(&first)), s.rfind(&at(&second)));
            if c != k && f >= g && at(&a) != at(&b) {
                return Err(format!("{:?} is printed with its positions swapped: {:?}", e, s));
            }
        }
    }
    #[allow(deprecated)]
    let cause = std::error::Error::cause(&e).map(|c| c.to_string());
    let want = match &e {
        ParseError::Custom(_) => Some(custom),
        _ => None,
    };
    diff("cause", &cause, &want)?;
    if e.clone() != e {
        return Err("a clone of an error differs".to_owned());
    }
    Ok(())
}

#[derive(Debug, Clone, PartialEq)]
struct Odd(String);

impl std::fmt::Display for Odd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for Odd {}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: "sources are random characters of every class, token soup, generated programs and \
                   mutated ones, plus all sequences of 16 characters in order of length; \
                   non-trivial: at least 3 characters",
            assumptions: &["sources are finite; hints of the character source are truthful"],
            parts: vec![
                enumerated("chars", 1_118_481, c01_chars, sequences::<16>),
                part("text", 700_000, c01),
            ],
        },
        Prop {
            id: "C02",
            level: "exploration",
            rule: "same sources as C01, tokens compared with a reference lexer; non-trivial: at \
                   least 3 runs of different token kinds (random) or 2 characters (enumerated)",
            assumptions: &["refl.rs states the language rules"],
            parts: vec![
                enumerated("chars", 1_118_481, c02_chars, sequences::<16>),
                part("text", 900_000, c02),
            ],
        },
        Prop {
            id: "C26",
            level: "exploration",
            rule: "random parameters printed and parsed back in front of random text, all kinds of \
                   tokens, errors built from random data and errors of real parses; non-trivial: \
                   something follows the parameter, or an error was printed",
            assumptions: &["variables have names the lexer takes for names"],
            parts: vec![
                part("parameter", 400_000, c26_param),
                part("token", 300_000, c26_token),
                part("error", 300_000, c26_error),
                part("errors", 100_000, c26_errors),
            ],
        },
    ]
}
