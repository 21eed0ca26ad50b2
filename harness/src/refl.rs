//! Reference tokenizer: what the shell language says the tokens of a text are, worked out
//! directly on the characters.

use conch_parser::parse::SourcePos;
use conch_parser::token::{Positional, Token};

pub type PTok = (Token, SourcePos);

/// Where a byte offset of a text lies.
pub fn pos_at(src: &str, byte: usize) -> SourcePos {
    let before = &src.as_bytes()[..byte];
    let line = 1 + before.iter().filter(|&&b| b == b'\n').count();
    let col = 1 + before.iter().rev().take_while(|&&b| b != b'\n').count();
    SourcePos { byte, line, col }
}

const OPS: &[(&str, fn() -> Token)] = &[
    // Longest first
    ("<<-", || Token::DLessDash),
    (";;", || Token::DSemi),
    ("&&", || Token::AndIf),
    ("||", || Token::OrIf),
    ("<<", || Token::DLess),
    ("<&", || Token::LessAnd),
    ("<>", || Token::LessGreat),
    (">>", || Token::DGreat),
    (">&", || Token::GreatAnd),
    (">|", || Token::Clobber),
    ("\n", || Token::Newline),
    ("!", || Token::Bang),
    ("~", || Token::Tilde),
    ("#", || Token::Pound),
    ("*", || Token::Star),
    ("?", || Token::Question),
    ("\\", || Token::Backslash),
    ("%", || Token::Percent),
    ("-", || Token::Dash),
    ("=", || Token::Equals),
    ("+", || Token::Plus),
    (":", || Token::Colon),
    ("@", || Token::At),
    ("^", || Token::Caret),
    ("/", || Token::Slash),
    (",", || Token::Comma),
    ("'", || Token::SingleQuote),
    ("\"", || Token::DoubleQuote),
    ("`", || Token::Backtick),
    (";", || Token::Semi),
    ("&", || Token::Amp),
    ("|", || Token::Pipe),
    ("<", || Token::Less),
    (">", || Token::Great),
    ("(", || Token::ParenOpen),
    (")", || Token::ParenClose),
    ("{", || Token::CurlyOpen),
    ("}", || Token::CurlyClose),
    ("[", || Token::SquareOpen),
    ("]", || Token::SquareClose),
    ("$", || Token::Dollar),
];

/// The text of every token which is always spelled the same.
pub fn fixed_tokens() -> Vec<(&'static str, Token)> {
    OPS.iter().map(|&(s, t)| (s, t())).collect()
}

fn positional(d: u32) -> Token {
    use Positional::*;
    Token::ParamPositional(
        [Zero, One, Two, Three, Four, Five, Six, Seven, Eight, Nine][d as usize],
    )
}

fn is_special(c: char) -> bool {
    c.is_whitespace() || OPS.iter().any(|(s, _)| s.starts_with(c))
}

fn name_start(c: char) -> bool {
    c == '_' || c.is_alphabetic()
}

fn name_char(c: char) -> bool {
    name_start(c) || c.is_ascii_digit()
}

/// The one token which starts the text, knowing nothing about what precedes it.
fn first(rest: &str, plain_dollar: bool) -> Token {
    let c = rest.chars().next().unwrap();
    if c.is_whitespace() && c != '\n' {
        let end = rest
            .find(|c: char| !c.is_whitespace() || c == '\n')
            .unwrap_or(rest.len());
        return Token::Whitespace(rest[..end].to_owned());
    }
    if c == '$' && !plain_dollar {
        if let Some(d) = rest[1..].chars().next().filter(|c| c.is_ascii_digit()) {
            return positional(d.to_digit(10).unwrap());
        }
    }
    if let Some((_, t)) = OPS.iter().find(|(s, _)| rest.starts_with(s)) {
        return t();
    }
    if name_start(c) {
        let end = rest.find(|c| !name_char(c)).unwrap_or(rest.len());
        Token::Name(rest[..end].to_owned())
    } else {
        let end = rest.find(is_special).unwrap_or(rest.len());
        Token::Literal(rest[..end].to_owned())
    }
}

pub fn lex(src: &str) -> Vec<PTok> {
    let mut out: Vec<PTok> = Vec::new();
    let mut at = 0;
    let (mut line, mut line_start) = (1, 0);
    // The character just seen was the first `$` of a pair
    let mut in_pair = false;
    let mut escaped = false;
    while at < src.len() {
        let rest = &src[at..];
        let tok = if escaped {
            escaped = false;
            let n = rest.chars().next().unwrap().len_utf8();
            first(&rest[..n], false)
        } else {
            let t = first(rest, in_pair);
            in_pair = t == Token::Dollar && !in_pair && rest[1..].starts_with('$');
            escaped = t == Token::Backslash;
            t
        };
        let pos = SourcePos {
            byte: at,
            line,
            col: at - line_start + 1,
        };
        at += text(&tok).len();
        if tok == Token::Newline {
            line += 1;
            line_start = at;
        }
        out.push((tok, pos));
    }
    out
}

/// The source text of a token, by our own reckoning.
pub fn text(t: &Token) -> String {
    match t {
        Token::Name(s) | Token::Literal(s) | Token::Whitespace(s) => s.clone(),
        Token::ParamPositional(p) => {
            use Positional::*;
            let d = match p {
                Zero => 0,
                One => 1,
                Two => 2,
                Three => 3,
                Four => 4,
                Five => 5,
                Six => 6,
                Seven => 7,
                Eight => 8,
                Nine => 9,
            };
            format!("${}", d)
        }
        t => OPS
            .iter()
            .find(|(_, f)| f() == *t)
            .map(|(s, _)| (*s).to_owned())
            .unwrap(),
    }
}

/// Whether an unquoted token ends a word.
pub fn delimits(t: &Token) -> bool {
    match t {
        Token::Whitespace(_) => true,
        Token::Name(_) | Token::Literal(_) | Token::ParamPositional(_) => false,
        t => {
            let s = text(t);
            s == "\n" || s.starts_with(|c| "()<>;&|".contains(c))
        }
    }
}
