//! Reference parser: a direct recursive-descent reading of the documented grammar over a
//! plain vector of positioned tokens. It is deliberately naive (everything is in memory and
//! sub-languages are cut out as sub-vectors) and produces the model, errors included.

use crate::model::*;
use crate::refl::{self, PTok};
use crate::trace::TErr;
use conch_parser::ast::{Arithmetic, DefaultArithmetic as Ar, DefaultParameter as Param, Parameter};
use conch_parser::parse::{ParseError, SourcePos};
use conch_parser::token::Token::{self, *};

pub type E = ParseError<TErr>;
pub type R<T> = Result<T, E>;

pub struct Ref {
    t: Vec<PTok>,
    i: usize,
    eof: SourcePos,
    /// Comments without a command, as reported at the top level
    pub comments: Vec<Vec<Nl>>,
    /// This parser reads text from which backslashes or tabs were removed
    edited: bool,
    /// A multi-character token was unescaped as a whole within backticks
    pub odd_unescape: bool,
}

/// Parts of a word, before adjacent literals are joined
type Parts = Vec<Part>;

#[derive(Clone, Copy, Default)]
pub struct Delims<'a> {
    pub tokens: &'a [Token],
    pub words: &'a [&'static str],
    pub exact: &'a [Token],
}

fn lit(s: &str) -> Part {
    Part::S(Sw::Lit(s.to_owned()))
}

fn unmatched(t: &Token, p: SourcePos) -> E {
    ParseError::Unmatched(t.clone(), p)
}

fn words_for(kind: Compd) -> &'static str {
    match kind {
        Compd::For => "for",
        Compd::Case => "case",
        Compd::If => "if",
        Compd::While => "while",
        Compd::Until => "until",
        Compd::Brace | Compd::Subshell => "",
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Compd {
    For,
    Case,
    If,
    While,
    Until,
    Brace,
    Subshell,
}

fn all_digits(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_digit())
}

fn could_be_numeric(w: &Part) -> bool {
    let simple = |s: &Sw| match s {
        Sw::Lit(s) | Sw::Esc(s) => all_digits(s),
        Sw::Param(_) | Sw::Tick(_) | Sw::Sub(_) => true,
        Sw::Star | Sw::Question | Sw::SqOpen | Sw::SqClose | Sw::Tilde | Sw::Colon => false,
    };
    match w {
        Part::S(s) => simple(s),
        Part::SQ(s) => all_digits(s),
        Part::DQ(v) => v.iter().all(simple),
    }
}

fn as_fd(w: &[Part]) -> Option<u16> {
    let mut text = String::new();
    for p in w {
        match p {
            Part::S(Sw::Lit(s)) => text.push_str(s),
            _ => return None,
        }
    }
    if text.is_empty() || !all_digits(&text) {
        return None;
    }
    let digits = text.trim_start_matches('0');
    if digits.len() > 5 {
        return None;
    }
    let n = digits.bytes().fold(0u32, |n, b| n * 10 + u32::from(b - b'0'));
    if n <= 0xffff {
        Some(n as u16)
    } else {
        None
    }
}

impl Ref {
    pub fn new(src: &str) -> Ref {
        Ref::of(refl::lex(src), refl::pos_at(src, src.len()))
    }

    pub fn of(t: Vec<PTok>, eof: SourcePos) -> Ref {
        Ref {
            t,
            i: 0,
            eof,
            comments: Vec::new(),
            edited: false,
            odd_unescape: false,
        }
    }

    /// Read a part of the input on its own.
    fn within<T>(
        &mut self,
        t: Vec<PTok>,
        eof: SourcePos,
        edited: bool,
        f: impl FnOnce(&mut Ref) -> R<T>,
    ) -> R<T> {
        let mut sub = Ref::of(t, eof);
        sub.edited = self.edited || edited;
        let r = f(&mut sub);
        self.odd_unescape |= sub.odd_unescape;
        r
    }

    pub fn next_token(&self) -> Option<Token> {
        self.peek().cloned()
    }

    pub fn pos(&self) -> SourcePos {
        self.t.get(self.i).map_or(self.eof, |t| t.1)
    }

    fn peek(&self) -> Option<&Token> {
        self.peek_at(0)
    }

    fn peek_at(&self, n: usize) -> Option<&Token> {
        self.t.get(self.i + n).map(|t| &t.0)
    }

    fn is(&self, t: &Token) -> bool {
        self.peek() == Some(t)
    }

    fn bump(&mut self) -> Option<PTok> {
        let t = self.t.get(self.i).cloned();
        if t.is_some() {
            self.i += 1;
        }
        t
    }

    fn eat(&mut self, t: &Token) -> bool {
        let found = self.is(t);
        if found {
            self.i += 1;
        }
        found
    }

    fn expect(&mut self, t: &Token) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(self.unexpected())
        }
    }

    fn unexpected(&mut self) -> E {
        match self.bump() {
            Some((t, p)) => ParseError::Unexpected(t, p),
            None => ParseError::UnexpectedEOF,
        }
    }

    pub fn skip_ws(&mut self) {
        loop {
            match (self.peek(), self.peek_at(1)) {
                (Some(Whitespace(_)), _) => self.i += 1,
                (Some(Backslash), Some(Newline)) => self.i += 2,
                _ => break,
            }
        }
    }

    pub fn newline(&mut self) -> Option<Nl> {
        self.skip_ws();
        match self.peek() {
            Some(Newline) => {
                self.i += 1;
                Some(None)
            }
            Some(Pound) => {
                let mut s = String::new();
                while let Some((t, _)) = self.bump() {
                    if t == Newline {
                        break;
                    }
                    s.push_str(&refl::text(&t));
                }
                Some(Some(s))
            }
            _ => None,
        }
    }

    pub fn linebreak(&mut self) -> Vec<Nl> {
        let mut v = Vec::new();
        while let Some(n) = self.newline() {
            v.push(n);
        }
        v
    }

    fn delim_at(&self, n: usize) -> bool {
        self.peek_at(n).map_or(true, refl::delimits)
    }

    pub fn peek_word(&mut self, words: &[&'static str]) -> Option<&'static str> {
        if words.is_empty() {
            return None;
        }
        self.skip_ws();
        let found = match self.peek() {
            Some(Name(s)) | Some(Literal(s)) => words.iter().find(|w| *w == s).copied(),
            _ => None,
        };
        found.filter(|_| self.delim_at(1))
    }

    pub fn word_kw(&mut self, words: &[&'static str]) -> Option<&'static str> {
        let w = self.peek_word(words);
        if w.is_some() {
            self.i += 1;
        }
        w
    }

    pub fn peek_token(&mut self, toks: &[Token]) -> bool {
        if toks.is_empty() {
            return false;
        }
        let ws = toks.iter().any(|t| matches!(t, Whitespace(_)));
        if ws {
            if self.peek().is_none() {
                return false;
            }
            if self.peek().map_or(false, |t| toks.contains(t)) && self.delim_at(1) {
                return true;
            }
        }
        self.skip_ws();
        self.peek().map_or(false, |t| toks.contains(t)) && self.delim_at(1)
    }

    pub fn token_kw(&mut self, toks: &[Token]) -> R<Token> {
        if self.peek_token(toks) {
            return Ok(self.bump().unwrap().0);
        }
        if self.peek().map_or(false, |t| toks.contains(t)) {
            self.i += 1;
        }
        Err(self.unexpected())
    }

    // ---- commands

    pub fn complete(&mut self) -> R<Option<Cmd>> {
        let pre = self.linebreak();
        if self.peek().is_none() {
            if !pre.is_empty() {
                self.comments.push(pre);
            }
            return Ok(None);
        }
        self.complete_with(pre).map(Some)
    }

    fn complete_with(&mut self, pre: Vec<Nl>) -> R<Cmd> {
        let list = self.list()?;
        let (sep, cmt) = if self.eat(&Semi) {
            (Sep::Semi, self.newline())
        } else if self.eat(&Amp) {
            (Sep::Amp, self.newline())
        } else {
            match self.newline() {
                Some(n) => (Sep::Newline, Some(n)),
                None => (Sep::Other, None),
            }
        };
        Ok(Cmd {
            pre,
            list,
            sep,
            cmt,
        })
    }

    pub fn list(&mut self) -> R<List> {
        let first = self.pipe()?;
        let mut rest = Vec::new();
        loop {
            self.skip_ws();
            let and = match self.peek() {
                Some(AndIf) => true,
                Some(OrIf) => false,
                _ => return Ok(List { first, rest }),
            };
            self.i += 1;
            let nl = self.linebreak();
            rest.push((nl, and, self.pipe()?));
        }
    }

    pub fn pipe(&mut self) -> R<crate::model::Pipe> {
        self.skip_ws();
        let bang = self.peek_token(&[Bang]) && self.eat(&Bang);
        let mut cmds = Vec::new();
        loop {
            self.skip_ws();
            if self.peek_token(&[Bang]) {
                return Err(self.unexpected());
            }
            let c = self.command()?;
            if self.eat(&Token::Pipe) {
                cmds.push((self.linebreak(), c));
            } else {
                cmds.push((Vec::new(), c));
                return Ok(crate::model::Pipe { bang, cmds });
            }
        }
    }

    pub fn command(&mut self) -> R<PCmd> {
        if let Some(k) = self.compound_kind() {
            return Ok(PCmd::Compound(self.compound_of(Some(k))?));
        }
        match self.maybe_function()? {
            Some(f) => Ok(f),
            None => self.simple(),
        }
    }

    pub fn simple(&mut self) -> R<PCmd> {
        let mut vars = Vec::new();
        let mut args = Vec::new();
        loop {
            self.skip_ws();
            let name = match (self.peek(), self.peek_at(1)) {
                (Some(Name(n)), Some(Equals)) => Some(n.clone()),
                _ => None,
            };
            if let Some(name) = name {
                self.i += 2;
                let value = match self.peek() {
                    Some(Whitespace(_)) => None,
                    Some(Pound) => self.parts_cont(None)?.map(Word::norm),
                    _ => {
                        let w = self.word()?;
                        w
                    }
                };
                vars.push(Pre::Var(name, value));
                continue;
            }
            match self.redirect()? {
                Some(Ok(r)) => vars.push(Pre::Redir(r)),
                Some(Err(w)) => {
                    args.push(Post::Word(w));
                    break;
                }
                None => break,
            }
        }
        while let Some(r) = self.redirect()? {
            args.push(match r {
                Ok(r) => Post::Redir(r),
                Err(w) => Post::Word(w),
            });
        }
        if vars.is_empty() && args.is_empty() {
            Err(self.unexpected())
        } else {
            Ok(PCmd::Simple { vars, args })
        }
    }

    pub fn redirects(&mut self) -> R<Vec<Redir>> {
        let mut v = Vec::new();
        loop {
            self.skip_ws();
            let start = self.pos();
            match self.redirect()? {
                Some(Ok(r)) => v.push(r),
                Some(Err(_)) => return Err(ParseError::BadFd(start, self.pos())),
                None => return Ok(v),
            }
        }
    }

    pub fn redirect(&mut self) -> R<Option<Result<Redir, Word>>> {
        let (fd, as_word) = match self.parts()? {
            None => (None, None),
            Some(w) => match as_fd(&w) {
                Some(n) => (Some(n), Some(w)),
                None => return Ok(Some(Err(Word::norm(w)))),
            },
        };
        let kind = match self.peek() {
            Some(Less) => RK::Read,
            Some(Great) => RK::Write,
            Some(DGreat) => RK::Append,
            Some(Clobber) => RK::Clobber,
            Some(LessGreat) => RK::ReadWrite,
            Some(LessAnd) => RK::DupRead,
            Some(GreatAnd) => RK::DupWrite,
            Some(DLess) | Some(DLessDash) => return Ok(Some(Ok(self.heredoc(fd)?))),
            _ => return Ok(as_word.map(|w| Err(Word::norm(w)))),
        };
        self.i += 1;
        self.skip_ws();
        let dup = kind == RK::DupRead || kind == RK::DupWrite;
        let word = if dup && self.peek_token(&[Dash]) {
            self.i += 1;
            Word::lit("-")
        } else {
            let start = self.pos();
            let w = match self.parts()? {
                Some(w) => w,
                None => return Err(self.unexpected()),
            };
            if dup && !w.iter().all(could_be_numeric) {
                return Err(ParseError::BadFd(start, self.pos()));
            }
            Word::norm(w)
        };
        Ok(Some(Ok(Redir { kind, fd, word })))
    }

    /// Collect balanced text: either one unit of it, or everything up to (and without)
    /// a closing token of which the opener was already consumed.
    fn balanced(&mut self, open: Option<PTok>) -> R<Vec<PTok>> {
        #[derive(PartialEq, Clone, Copy)]
        enum Ctx {
            Sq,
            Dq,
            Tick,
            Paren,
            Curly,
        }
        let skip_last = open.is_some();
        let mut stack: Vec<(Ctx, SourcePos)> = open
            .map(|(t, p)| {
                let c = match t {
                    SingleQuote => Ctx::Sq,
                    DoubleQuote => Ctx::Dq,
                    Backtick => Ctx::Tick,
                    _ => unreachable!(),
                };
                (c, p)
            })
            .into_iter()
            .collect();
        let mut out = Vec::new();
        let mut dollar_paren = false;
        loop {
            let (t, p) = match self.bump() {
                Some(t) => t,
                None => match stack.last() {
                    None => return Ok(out),
                    Some((Ctx::Sq, p)) => return Err(unmatched(&SingleQuote, *p)),
                    Some((Ctx::Dq, p)) => return Err(unmatched(&DoubleQuote, *p)),
                    Some((Ctx::Tick, p)) => return Err(unmatched(&Backtick, *p)),
                    Some((Ctx::Paren, p)) => return Err(unmatched(&ParenOpen, *p)),
                    Some((Ctx::Curly, p)) => return Err(unmatched(&CurlyOpen, *p)),
                },
            };
            let top = stack.last().map(|s| s.0);
            let closes = match top {
                Some(Ctx::Sq) => t == SingleQuote,
                Some(Ctx::Dq) => t == DoubleQuote,
                Some(Ctx::Tick) => t == Backtick,
                Some(Ctx::Paren) => t == ParenClose,
                Some(Ctx::Curly) => t == CurlyClose,
                None => false,
            };
            if closes {
                stack.pop();
                if !(stack.is_empty() && skip_last) {
                    out.push((t, p));
                }
                if stack.is_empty() {
                    return Ok(out);
                }
                continue;
            }
            if top == Some(Ctx::Sq) {
                out.push((t, p));
                continue;
            }
            let after_dollar = std::mem::replace(&mut dollar_paren, false);
            match t {
                Backslash => {
                    out.push((t, p));
                    out.extend(self.bump());
                }
                Backtick => {
                    stack.push((Ctx::Tick, p));
                    out.push((t, p));
                }
                SingleQuote => {
                    if top != Some(Ctx::Dq) {
                        stack.push((Ctx::Sq, p));
                    }
                    out.push((t, p));
                }
                DoubleQuote => {
                    stack.push((Ctx::Dq, p));
                    out.push((t, p));
                }
                ParenOpen => {
                    let quoted = top == Some(Ctx::Dq) || top == Some(Ctx::Curly);
                    if !quoted || after_dollar {
                        stack.push((Ctx::Paren, p));
                    }
                    out.push((t, p));
                }
                Dollar => {
                    match self.peek() {
                        Some(Dollar) => {
                            // `$$` opens nothing
                            out.push((t, p));
                            out.extend(self.bump());
                            if stack.is_empty() {
                                return Ok(out);
                            }
                            continue;
                        }
                        Some(CurlyOpen) => {
                            stack.push((Ctx::Curly, self.pos()));
                            out.push((t, p));
                            continue;
                        }
                        Some(ParenOpen) => {
                            dollar_paren = true;
                            out.push((t, p));
                            continue;
                        }
                        _ => {}
                    }
                    out.push((t, p));
                }
                t => out.push((t, p)),
            }
            if stack.is_empty() {
                return Ok(out);
            }
        }
    }

    /// The text a heredoc delimiter stands for, and whether any of it was quoted.
    fn unquote_delim(delim: Vec<PTok>, eof: SourcePos) -> R<(String, bool)> {
        let mut r = Ref::of(delim, eof);
        let mut s = String::new();
        let mut quoted = false;
        while let Some((t, p)) = r.bump() {
            let open = Some((t.clone(), p));
            match t {
                Backslash => {
                    quoted = true;
                    if let Some((t, _)) = r.bump() {
                        s.push_str(&refl::text(&t));
                    }
                }
                SingleQuote => {
                    quoted = true;
                    for (t, _) in r.balanced(open)? {
                        s.push_str(&refl::text(&t));
                    }
                }
                DoubleQuote | Backtick => {
                    quoted = true;
                    let tick = t == Backtick;
                    let inner = r.balanced(open)?;
                    if tick {
                        s.push('`');
                    }
                    let mut it = inner.iter().map(|t| &t.0).peekable();
                    while let Some(t) = it.next() {
                        let drop = *t == Backslash
                            && match it.peek() {
                                Some(Dollar) | Some(Backtick) | Some(Backslash) => true,
                                Some(DoubleQuote) | Some(Newline) => !tick,
                                _ => false,
                            };
                        if !drop {
                            s.push_str(&refl::text(t));
                        }
                        if *t == Backslash {
                            if let Some(t) = it.next() {
                                s.push_str(&refl::text(t));
                            }
                        }
                    }
                    if tick {
                        s.push('`');
                    }
                }
                t => s.push_str(&refl::text(&t)),
            }
        }
        Ok((s, quoted))
    }

    pub fn heredoc(&mut self, fd: Option<u16>) -> R<Redir> {
        let strip = match self.peek() {
            Some(DLess) => false,
            Some(DLessDash) => true,
            _ => return Err(self.unexpected()),
        };
        self.i += 1;
        self.skip_ws();

        let mut delim = Vec::new();
        while self
            .peek()
            .map_or(false, |t| *t == ParenOpen || !refl::delimits(t))
        {
            delim.extend(self.balanced(None)?);
        }
        let (delim, quoted) = Ref::unquote_delim(delim, self.pos())?;
        if delim.is_empty() {
            return Err(self.unexpected());
        }

        // Find the newline after which the body starts
        let resume = self.i;
        let mut in_comment = false;
        let mut word_start = false;
        loop {
            match self.peek() {
                None => break,
                Some(Newline) => {
                    self.i += 1;
                    break;
                }
                Some(Pound) if word_start => in_comment = true,
                _ => {}
            }
            if in_comment {
                self.i += 1;
                continue;
            }
            let chunk = self.balanced(None)?;
            word_start = match chunk.as_slice() {
                [(Backslash, _), (t, _), ..] => *t == Newline,
                [(t, _), ..] => refl::delimits(t),
                [] => false,
            };
        }

        // Cut out the body and the delimiter line
        let start = self.i;
        let mut body: Vec<PTok> = Vec::new();
        let end_pos;
        loop {
            let line_pos = self.pos();
            let mut line: Vec<PTok> = Vec::new();
            let mut terminated = false;
            while let Some((t, p)) = self.bump() {
                match t {
                    // An escaped newline does not end a line (but may be one of its own)
                    Newline if !quoted && line.len() > 1 && odd_backslashes(&line) => {
                        line.push((Newline, p))
                    }
                    Newline => {
                        line.push((Newline, p));
                        terminated = true;
                        break;
                    }
                    Whitespace(w) if strip && line.is_empty() => {
                        let rest = w.trim_start_matches('\t').to_owned();
                        let n = w.len() - rest.len();
                        if !rest.is_empty() {
                            let p = SourcePos {
                                byte: p.byte + n,
                                col: p.col + n,
                                ..p
                            };
                            line.push((Whitespace(rest), p));
                        }
                    }
                    t => line.push((t, p)),
                }
            }
            if line.is_empty() {
                end_pos = line_pos;
                break;
            }
            let text: String = line.iter().map(|t| refl::text(&t.0)).collect();
            let text = if terminated { &text[..text.len() - 1] } else { &text };
            if text == delim || text.strip_suffix('\r') == Some(&delim) {
                end_pos = line_pos;
                break;
            }
            body.extend(line);
        }
        self.t.drain(start..self.i);
        self.i = resume;

        let word = if quoted {
            Word::lit(&body.iter().map(|t| refl::text(&t.0)).collect::<String>())
        } else {
            let strip = strip || self.edited;
            let sws = self.within(body, end_pos, strip, |r| r.interpolated(None))?;
            Word(norm_sws(sws).into_iter().map(Part::S).collect())
        };
        Ok(Redir {
            kind: RK::Heredoc,
            fd,
            word,
        })
    }

    // ---- words

    pub fn word(&mut self) -> R<Option<Word>> {
        let w = self.word_ws()?;
        self.skip_ws();
        Ok(w)
    }

    pub fn word_ws(&mut self) -> R<Option<Word>> {
        Ok(self.parts()?.map(Word::norm))
    }

    fn parts(&mut self) -> R<Option<Parts>> {
        self.parts_delim(None)
    }

    fn parts_delim(&mut self, delim: Option<&Token>) -> R<Option<Parts>> {
        self.skip_ws();
        if self.is(&Pound) {
            return Ok(None);
        }
        self.parts_cont(delim)
    }

    fn parts_cont(&mut self, delim: Option<&Token>) -> R<Option<Parts>> {
        let mut out = Vec::new();
        loop {
            let t = match self.peek() {
                Some(t) if !refl::delimits(t) && Some(t) != delim => t.clone(),
                _ => break,
            };
            let pos = self.pos();
            match t {
                Backtick => {
                    out.push(Part::S(self.backtick()?));
                    continue;
                }
                Dollar | ParamPositional(_) => {
                    out.push(Part::S(self.param()?));
                    continue;
                }
                _ => {}
            }
            self.i += 1;
            out.push(match t {
                Star => Part::S(Sw::Star),
                Question => Part::S(Sw::Question),
                Tilde => Part::S(Sw::Tilde),
                SquareOpen => Part::S(Sw::SqOpen),
                SquareClose => Part::S(Sw::SqClose),
                Colon => Part::S(Sw::Colon),
                Backslash => match self.bump() {
                    None | Some((Newline, _)) => break,
                    Some((t, _)) => Part::S(Sw::Esc(refl::text(&t))),
                },
                SingleQuote => {
                    let mut s = String::new();
                    loop {
                        match self.bump() {
                            None => return Err(unmatched(&SingleQuote, pos)),
                            Some((SingleQuote, _)) => break,
                            Some((t, _)) => s.push_str(&refl::text(&t)),
                        }
                    }
                    Part::SQ(s)
                }
                DoubleQuote => Part::DQ(self.interpolated(Some(pos))?),
                t => lit(&refl::text(&t)),
            });
        }
        Ok(if out.is_empty() { None } else { Some(out) })
    }

    /// Text within double quotes (whose opener is at the given position) or of a heredoc.
    fn interpolated(&mut self, quote: Option<SourcePos>) -> R<Vec<Sw>> {
        let mut out = Vec::new();
        let mut text = String::new();
        loop {
            let special = match self.peek() {
                None => match quote {
                    Some(p) => return Err(unmatched(&DoubleQuote, p)),
                    None => break,
                },
                Some(DoubleQuote) if quote.is_some() => {
                    self.i += 1;
                    break;
                }
                Some(Dollar) | Some(ParamPositional(_)) => self.param()?,
                Some(Backtick) => self.backtick()?,
                Some(Backslash) => {
                    self.i += 1;
                    match self.peek() {
                        Some(Dollar) | Some(Backtick) | Some(Backslash) | Some(Newline) => {
                            let t = self.bump().unwrap().0;
                            Sw::Esc(refl::text(&t))
                        }
                        Some(DoubleQuote) if quote.is_some() => {
                            let t = self.bump().unwrap().0;
                            Sw::Esc(refl::text(&t))
                        }
                        _ => {
                            text.push('\\');
                            continue;
                        }
                    }
                }
                Some(t) => {
                    text.push_str(&refl::text(t));
                    self.i += 1;
                    continue;
                }
            };
            if !text.is_empty() {
                out.push(Sw::Lit(std::mem::take(&mut text)));
            }
            out.push(special);
        }
        if !text.is_empty() {
            out.push(Sw::Lit(text));
        }
        Ok(norm_sws(out))
    }

    pub fn backtick(&mut self) -> R<Sw> {
        let open = self.pos();
        self.expect(&Backtick)?;
        let raw = self.balanced(Some((Backtick, open)))?;
        let end = match self.t[self.i - 1] {
            (Backtick, p) => p,
            _ => unreachable!(),
        };

        let mut out: Vec<PTok> = Vec::new();
        let mut edited = false;
        let mut i = 0;
        while i < raw.len() {
            match (&raw[i].0, raw.get(i + 1).map(|t| &t.0)) {
                (Backslash, Some(Dollar)) | (Backslash, Some(Backtick))
                | (Backslash, Some(Backslash)) => {
                    let double = raw[i + 1].0 == Backslash;
                    edited = true;
                    out.push(raw[i + 1].clone());
                    // The lexer took what follows as a unit of its own, unaware of the escape
                    if double {
                        if let Some((t, _)) = raw.get(i + 2) {
                            if refl::text(t).chars().count() > 1 {
                                self.odd_unescape = true;
                            }
                        }
                    }
                    i += 2;
                }
                (Backslash, Some(_)) => {
                    out.extend_from_slice(&raw[i..i + 2]);
                    i += 2;
                }
                _ => {
                    out.push(raw[i].clone());
                    i += 1;
                }
            }
        }

        // `\$1` has become `$1`
        let mut i = 0;
        while i < out.len() {
            if out[i].0 == Backslash {
                i += 2;
                continue;
            }
            if out[i].0 == Dollar {
                match out.get(i + 1).map(|t| t.0.clone()) {
                    Some(Dollar) => i += 1,
                    // `\$$1` has become `$$1`
                    Some(ParamPositional(d)) => {
                        let (_, p) = out[i + 1];
                        out[i + 1].0 = Dollar;
                        let rest = SourcePos {
                            byte: p.byte + 1,
                            col: p.col + 1,
                            ..p
                        };
                        out.insert(i + 2, (Literal(d.as_num().to_string()), rest));
                        i += 2;
                    }
                    Some(Literal(ref s)) if s.starts_with(|c: char| c.is_ascii_digit()) => {
                        let d = refl::lex(&format!("${}", &s[..1]))[0].0.clone();
                        let (_, p) = out[i + 1];
                        out[i].0 = d;
                        if s.len() == 1 {
                            out.remove(i + 1);
                        } else {
                            out[i + 1] = (
                                Literal(s[1..].to_owned()),
                                SourcePos {
                                    byte: p.byte + 1,
                                    col: p.col + 1,
                                    ..p
                                },
                            );
                        }
                    }
                    _ => {}
                }
            }
            i += 1;
        }

        self.within(out, end, edited, |r| Ok(Sw::Tick(r.group_opt(Delims::default())?)))
    }

    pub fn param(&mut self) -> R<Sw> {
        match self.bump() {
            Some((ParamPositional(p), _)) => {
                Ok(Sw::Param(Parameter::Positional(u32::from(p.as_num()))))
            }
            Some((Dollar, _)) => match self.peek() {
                Some(Star) | Some(Pound) | Some(Question) | Some(Dollar) | Some(Bang)
                | Some(Dash) | Some(At) | Some(Name(_)) => Ok(Sw::Param(self.param_name()?)),
                Some(ParenOpen) => self.paren_subst(),
                Some(CurlyOpen) => self.curly_subst(),
                _ => Ok(Sw::Lit("$".to_owned())),
            },
            Some((t, p)) => Err(ParseError::Unexpected(t, p)),
            None => Err(ParseError::UnexpectedEOF),
        }
    }

    fn param_name(&mut self) -> R<Param> {
        let (t, p) = match self.bump() {
            Some(t) => t,
            None => return Err(ParseError::UnexpectedEOF),
        };
        Ok(match t {
            Star => Parameter::Star,
            Pound => Parameter::Pound,
            Question => Parameter::Question,
            Dollar => Parameter::Dollar,
            Bang => Parameter::Bang,
            Dash => Parameter::Dash,
            At => Parameter::At,
            Name(n) => Parameter::Var(n),
            Literal(s) => {
                let v = if !s.is_empty() && all_digits(&s) {
                    s.bytes().try_fold(0u32, |n, b| {
                        n.checked_mul(10)?.checked_add(u32::from(b - b'0'))
                    })
                } else {
                    None
                };
                match v {
                    Some(n) => Parameter::Positional(n),
                    None => return Err(ParseError::BadSubst(Literal(s), p)),
                }
            }
            t => return Err(ParseError::BadSubst(t, p)),
        })
    }

    fn paren_subst(&mut self) -> R<Sw> {
        if self.peek_at(1) != Some(&ParenOpen) {
            let g = self.paren_group(true)?;
            return Ok(Sw::Sub(Box::new(Sub::Cmd(g))));
        }
        self.i += 2;
        self.skip_ws();
        let a = if self.is(&ParenClose) {
            None
        } else {
            Some(self.arith()?)
        };
        for _ in 0..2 {
            self.skip_ws();
            self.expect(&ParenClose)?;
        }
        Ok(Sw::Sub(Box::new(Sub::Arith(a))))
    }

    fn curly_subst(&mut self) -> R<Sw> {
        let open = self.pos();
        self.i += 1;
        let p = self.param_name()?;
        let sub = |s| Ok(Sw::Sub(Box::new(s)));
        match self.peek() {
            Some(Percent) => {
                self.i += 1;
                let kind = if self.eat(&Percent) {
                    Rem::LargeSuffix
                } else {
                    Rem::SmallSuffix
                };
                let w = self.subst_word(open)?;
                return sub(Sub::Rem(kind, p, w));
            }
            Some(Pound) => {
                self.i += 1;
                let large = self.eat(&Pound);
                let w = self.subst_word(open)?;
                if large {
                    return sub(Sub::Rem(Rem::LargePrefix, p, w));
                }
                if w.is_none() && p == Parameter::Pound {
                    return sub(Sub::Len(Parameter::Pound));
                }
                return sub(Sub::Rem(Rem::SmallPrefix, p, w));
            }
            Some(Colon) | Some(Dash) | Some(Equals) | Some(Question) | Some(Plus)
            | Some(CurlyClose) => {}
            _ if p == Parameter::Pound => {
                let p = self.param_name()?;
                self.expect(&CurlyClose)?;
                return sub(Sub::Len(p));
            }
            _ => {}
        }
        let colon = self.eat(&Colon);
        let at = self.pos();
        let op = match self.bump().map(|t| t.0) {
            Some(Dash) => Op::Default,
            Some(Equals) => Op::Assign,
            Some(Question) => Op::Error,
            Some(Plus) => Op::Alt,
            Some(CurlyClose) if !colon => return Ok(Sw::Param(p)),
            Some(t) => return Err(ParseError::BadSubst(t, at)),
            None => return Err(unmatched(&CurlyOpen, open)),
        };
        let w = self.subst_word(open)?;
        if p == Parameter::Pound && !colon && w.is_none() {
            match op {
                Op::Default => return sub(Sub::Len(Parameter::Dash)),
                Op::Error => return sub(Sub::Len(Parameter::Question)),
                _ => {}
            }
        }
        sub(Sub::Op(op, colon, p, w))
    }

    /// The word of a parameter substitution, along with the closing curly.
    fn subst_word(&mut self, open: SourcePos) -> R<Option<Word>> {
        let mut out: Parts = Vec::new();
        loop {
            match (self.peek(), self.peek_at(1)) {
                (None, _) => return Err(unmatched(&CurlyOpen, open)),
                (Some(CurlyClose), _) => {
                    self.i += 1;
                    break;
                }
                (Some(Backslash), Some(Newline)) => {
                    out.push(Part::S(Sw::Esc("\n".to_owned())));
                    self.i += 2;
                }
                (Some(t), _) if *t == Pound || refl::delimits(t) => {
                    out.push(lit(&refl::text(t)));
                    self.i += 1;
                }
                _ => match self.parts_delim(Some(&CurlyClose))? {
                    Some(v) => out.extend(v),
                    // A lone backslash at the end of the input, or an escaped
                    // newline right after some text
                    None => {
                        if self.eat(&CurlyClose) {
                            break;
                        }
                        return Err(unmatched(&CurlyOpen, open));
                    }
                },
            }
        }
        Ok(if out.is_empty() {
            None
        } else {
            Some(Word::norm(out))
        })
    }

    // ---- compound commands

    pub fn do_group(&mut self) -> R<Group> {
        let start = self.pos();
        if self.word_kw(&["do"]).is_none() {
            return Err(self.unexpected());
        }
        let g = self.group(Delims {
            words: &["done"],
            ..Delims::default()
        })?;
        if self.word_kw(&["done"]).is_none() {
            return Err(ParseError::IncompleteCmd("do", start, "done", self.pos()));
        }
        Ok(g)
    }

    pub fn brace(&mut self) -> R<Group> {
        let start = self.pos();
        self.token_kw(&[CurlyOpen])?;
        let g = self.group(Delims {
            tokens: &[CurlyClose],
            ..Delims::default()
        })?;
        match self.token_kw(&[CurlyClose]) {
            Ok(_) => Ok(g),
            Err(_) => Err(unmatched(&CurlyOpen, start)),
        }
    }

    pub fn subshell(&mut self) -> R<Group> {
        self.paren_group(false)
    }

    fn paren_group(&mut self, empty_ok: bool) -> R<Group> {
        let start = self.pos();
        self.expect(&ParenOpen)?;
        let g = self.group_opt(Delims {
            exact: &[ParenClose],
            ..Delims::default()
        })?;
        match self.peek() {
            Some(ParenClose) if empty_ok || !g.cmds.is_empty() => {
                self.i += 1;
                Ok(g)
            }
            Some(_) => Err(self.unexpected()),
            None => Err(unmatched(&ParenOpen, start)),
        }
    }

    fn compound_kind(&mut self) -> Option<Compd> {
        self.skip_ws();
        if self.is(&ParenOpen) {
            return Some(Compd::Subshell);
        }
        if self.peek_token(&[CurlyOpen]) {
            return Some(Compd::Brace);
        }
        [Compd::For, Compd::Case, Compd::If, Compd::While, Compd::Until]
            .iter()
            .copied()
            .find(|&k| self.peek_word(&[words_for(k)]).is_some())
    }

    pub fn compound(&mut self) -> R<Compound> {
        self.compound_of(None)
    }

    fn compound_of(&mut self, k: Option<Compd>) -> R<Compound> {
        let kind = match k.or_else(|| self.compound_kind()) {
            Some(Compd::If) => self.if_cmd()?,
            Some(Compd::While) | Some(Compd::Until) => self.loop_cmd()?,
            Some(Compd::For) => self.for_cmd()?,
            Some(Compd::Case) => self.case_cmd()?,
            Some(Compd::Brace) => Kind::Brace(self.brace()?),
            Some(Compd::Subshell) => Kind::Subshell(self.subshell()?),
            None => return Err(self.unexpected()),
        };
        Ok(Compound {
            kind,
            io: self.redirects()?,
        })
    }

    pub fn loop_cmd(&mut self) -> R<Kind> {
        let start = self.pos();
        let kw = match self.word_kw(&["while", "until"]) {
            Some(kw) => kw,
            None => return Err(self.unexpected()),
        };
        let guard = self.group(Delims {
            words: &["do"],
            ..Delims::default()
        })?;
        if self.peek_word(&["do"]).is_none() {
            return Err(ParseError::IncompleteCmd(kw, start, "do", self.pos()));
        }
        Ok(Kind::Loop {
            until: kw == "until",
            guard,
            body: self.do_group()?,
        })
    }

    pub fn if_cmd(&mut self) -> R<Kind> {
        let start = self.pos();
        if self.word_kw(&["if"]).is_none() {
            return Err(self.unexpected());
        }
        let missing =
            |r: &Ref, what: &'static str| ParseError::IncompleteCmd("if", start, what, r.pos());
        let mut conds = Vec::new();
        loop {
            let guard = self.group(Delims {
                words: &["then"],
                ..Delims::default()
            })?;
            if self.word_kw(&["then"]).is_none() {
                return Err(missing(self, "then"));
            }
            let ends = ["elif", "else", "fi"];
            let body = self.group(Delims {
                words: &ends,
                ..Delims::default()
            })?;
            conds.push((guard, body));
            let els = match self.word_kw(&ends) {
                Some("elif") => continue,
                Some("else") => {
                    let g = self.group(Delims {
                        words: &["fi"],
                        ..Delims::default()
                    })?;
                    if self.word_kw(&["fi"]).is_none() {
                        return Err(missing(self, "fi"));
                    }
                    Some(g)
                }
                Some(_) => None,
                None => return Err(missing(self, "fi")),
            };
            return Ok(Kind::If { conds, els });
        }
    }

    pub fn for_cmd(&mut self) -> R<Kind> {
        let start = self.pos();
        if self.word_kw(&["for"]).is_none() {
            return Err(self.unexpected());
        }
        self.skip_ws();
        let var = self.ident()?;
        let missing =
            |r: &Ref, what: &'static str| ParseError::IncompleteCmd("for", start, what, r.pos());
        let var_cmt = self.newline();
        let mut post = self.linebreak();
        let (words, pre_body) = if self.word_kw(&["in"]).is_some() {
            let mut ws = Vec::new();
            while let Some(w) = self.word()? {
                ws.push(w);
            }
            let semi = self.eat(&Semi);
            let cmt = self.newline();
            if !semi && cmt.is_none() {
                return Err(self.unexpected());
            }
            (Some((post, ws, cmt)), self.linebreak())
        } else if self.eat(&Semi) {
            post.extend(self.linebreak());
            (None, post)
        } else if self.peek_word(&["do"]).is_none() {
            return Err(missing(self, "in"));
        } else {
            (None, post)
        };
        if self.peek_word(&["do"]).is_none() {
            return Err(missing(self, "do"));
        }
        Ok(Kind::For {
            var,
            var_cmt,
            words,
            pre_body,
            body: self.do_group()?,
        })
    }

    fn ident(&mut self) -> R<String> {
        match self.peek() {
            Some(Name(_)) | Some(Literal(_)) => match self.bump() {
                Some((Name(n), _)) => Ok(n),
                Some((Literal(s), p)) => Err(ParseError::BadIdent(s, p)),
                _ => unreachable!(),
            },
            _ => Err(self.unexpected()),
        }
    }

    pub fn case_cmd(&mut self) -> R<Kind> {
        let start = self.pos();
        let missing =
            |r: &Ref, what: &'static str| ParseError::IncompleteCmd("case", start, what, r.pos());
        if self.word_kw(&["case"]).is_none() {
            return Err(self.unexpected());
        }
        let word = match self.word()? {
            Some(w) => w,
            None => return Err(self.unexpected()),
        };
        let post_word = self.linebreak();
        if self.word_kw(&["in"]).is_none() {
            return Err(missing(self, "in"));
        }
        let in_cmt = self.newline();
        let mut arms = Vec::new();
        let mut post_arms = Vec::new();
        loop {
            let pre = self.linebreak();
            if self.peek_word(&["esac"]).is_some() {
                post_arms.extend(pre);
                break;
            }
            self.eat(&ParenOpen);
            if self.peek().is_none() {
                return Err(missing(self, "esac"));
            }
            let mut pats = Vec::new();
            loop {
                match self.word()? {
                    Some(w) => pats.push(w),
                    None => return Err(self.unexpected()),
                }
                match self.peek() {
                    Some(Token::Pipe) => self.i += 1,
                    Some(ParenClose) => {
                        self.i += 1;
                        break;
                    }
                    None => return Err(missing(self, "esac")),
                    Some(_) => return Err(self.unexpected()),
                }
            }
            let pat_cmt = self.newline();
            let body = self.group_opt(Delims {
                words: &["esac"],
                exact: &[DSemi],
                tokens: &[],
            })?;
            let more = self.eat(&DSemi);
            let arm_cmt = if more { self.newline() } else { None };
            arms.push(Arm {
                pre,
                pats,
                pat_cmt,
                body,
                arm_cmt,
            });
            if !more {
                break;
            }
        }
        post_arms.extend(self.linebreak());
        if self.word_kw(&["esac"]).is_none() {
            return Err(missing(self, "esac"));
        }
        Ok(Kind::Case {
            word,
            post_word,
            in_cmt,
            arms,
            post_arms,
        })
    }

    pub fn maybe_function(&mut self) -> R<Option<PCmd>> {
        if self.peek_word(&["function"]).is_some() {
            return self.function().map(Some);
        }
        let parens = match (self.peek(), self.peek_at(1)) {
            (Some(Name(_)), Some(ParenOpen)) => true,
            (Some(Name(_)), Some(Whitespace(_))) => {
                let at = self.i;
                self.i += 1;
                self.skip_ws();
                let parens = self.is(&ParenOpen);
                self.i = at;
                parens
            }
            _ => false,
        };
        if parens {
            self.function().map(Some)
        } else {
            Ok(None)
        }
    }

    pub fn function(&mut self) -> R<PCmd> {
        let kw = self.word_kw(&["function"]).is_some();
        self.skip_ws();
        let name = self.ident()?;

        let mut parens = self.is(&ParenOpen);
        if !parens && !(kw && self.is(&Newline)) {
            match self.peek() {
                Some(Whitespace(_)) => self.i += 1,
                _ => return Err(self.unexpected()),
            }
            self.skip_ws();
            if !kw {
                parens = true;
            } else if self.is(&ParenOpen) {
                // Either `()` or the subshell which is the body
                let at = self.i;
                self.i += 1;
                self.skip_ws();
                parens = self.is(&ParenClose);
                self.i = at;
                if !parens {
                    let g = self.subshell()?;
                    let io = self.redirects()?;
                    return Ok(PCmd::Func {
                        name,
                        cmts: Vec::new(),
                        body: Compound {
                            kind: Kind::Subshell(g),
                            io,
                        },
                    });
                }
            }
        }
        if parens {
            self.expect(&ParenOpen)?;
            self.skip_ws();
            self.expect(&ParenClose)?;
        }
        let cmts = self.linebreak();
        let body = self.compound()?;
        Ok(PCmd::Func { name, cmts, body })
    }

    pub fn group(&mut self, d: Delims) -> R<Group> {
        let g = self.group_opt(d)?;
        if g.cmds.is_empty() {
            Err(self.unexpected())
        } else {
            Ok(g)
        }
    }

    fn at_end(&mut self, d: &Delims) -> bool {
        self.peek().map_or(false, |t| d.exact.contains(t))
            || self.peek_word(d.words).is_some()
            || self.peek_token(d.tokens)
    }

    pub fn group_opt(&mut self, d: Delims) -> R<Group> {
        let mut g = Group::default();
        loop {
            if self.at_end(&d) {
                return Ok(g);
            }
            let pre = self.linebreak();
            if self.at_end(&d) || self.peek().is_none() {
                g.trailing = pre;
                return Ok(g);
            }
            g.cmds.push(self.complete_with(pre)?);
        }
    }

    // ---- arithmetic

    pub fn arith(&mut self) -> R<Ar> {
        let mut v = Vec::new();
        loop {
            self.skip_ws();
            v.push(self.assig()?);
            if !self.eat(&Comma) {
                break;
            }
        }
        Ok(if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Arithmetic::Sequence(v)
        })
    }

    fn assig(&mut self) -> R<Ar> {
        use Arithmetic::*;
        self.skip_ws();
        let mut n = 0;
        while self.peek_at(n) == Some(&Dollar) {
            n += 1;
        }
        let mut assig = false;
        if let Some(Name(_)) = self.peek_at(n) {
            n += 1;
            loop {
                match (self.peek_at(n), self.peek_at(n + 1)) {
                    (Some(Whitespace(_)), _) => n += 1,
                    (Some(Backslash), Some(Newline)) => n += 2,
                    _ => break,
                }
            }
            assig = match self.peek_at(n) {
                Some(Equals) => self.peek_at(n + 1) != Some(&Equals),
                Some(Star) | Some(Slash) | Some(Percent) | Some(Plus) | Some(Dash)
                | Some(DLess) | Some(DGreat) | Some(Amp) | Some(Token::Pipe) | Some(Caret) => {
                    self.peek_at(n + 1) == Some(&Equals)
                }
                _ => false,
            };
        }
        if !assig {
            return self.ternary();
        }
        let var = self.arith_var()?;
        self.skip_ws();
        let op = self.bump().unwrap().0;
        if op != Equals {
            self.expect(&Equals)?;
        }
        let value = Box::new(self.assig()?);
        let me = Box::new(Var(var.clone()));
        let e = match op {
            Equals => return Ok(Assign(var, value)),
            Star => Mult(me, value),
            Slash => Div(me, value),
            Percent => Modulo(me, value),
            Plus => Add(me, value),
            Dash => Sub(me, value),
            DLess => ShiftLeft(me, value),
            DGreat => ShiftRight(me, value),
            Amp => BitwiseAnd(me, value),
            Token::Pipe => BitwiseOr(me, value),
            Caret => BitwiseXor(me, value),
            _ => unreachable!(),
        };
        Ok(Assign(var, Box::new(e)))
    }

    fn ternary(&mut self) -> R<Ar> {
        let g = self.binary(0)?;
        self.skip_ws();
        if !self.eat(&Question) {
            return Ok(g);
        }
        let a = self.arith()?;
        self.skip_ws();
        self.expect(&Colon)?;
        let b = self.ternary()?;
        Ok(Arithmetic::Ternary(Box::new(g), Box::new(a), Box::new(b)))
    }

    /// Left associative binary operators, by level.
    fn binary(&mut self, level: usize) -> R<Ar> {
        use Arithmetic as A;
        if level == 10 {
            return self.pow();
        }
        let mut e = self.binary(level + 1)?;
        loop {
            self.skip_ws();
            let t = match self.peek() {
                Some(t) => t.clone(),
                None => return Ok(e),
            };
            type Mk = fn(Box<Ar>, Box<Ar>) -> Ar;
            let mk: Mk = match (level, &t) {
                (0, OrIf) => A::LogicalOr,
                (1, AndIf) => A::LogicalAnd,
                (2, Token::Pipe) => A::BitwiseOr,
                (3, Caret) => A::BitwiseXor,
                (4, Amp) => A::BitwiseAnd,
                (5, Equals) => A::Eq,
                (5, Bang) => A::NotEq,
                (6, Less) => A::Less,
                (6, Great) => A::Great,
                (7, DLess) | (7, DLessDash) => A::ShiftLeft,
                (7, DGreat) => A::ShiftRight,
                (8, Plus) => A::Add,
                (8, Dash) => A::Sub,
                (9, Star) => A::Mult,
                (9, Slash) => A::Div,
                (9, Percent) => A::Modulo,
                _ => return Ok(e),
            };
            let mut mk = mk;
            if t == DLessDash {
                // There are no heredocs here: `<<` and then a minus
                let p = self.t[self.i].1;
                self.t[self.i] = (
                    Dash,
                    SourcePos {
                        byte: p.byte + 2,
                        col: p.col + 2,
                        ..p
                    },
                );
            } else {
                self.i += 1;
            }
            if level == 5 {
                self.expect(&Equals)?;
            }
            if level == 6 && self.eat(&Equals) {
                mk = if t == Less { A::LessEq } else { A::GreatEq };
            }
            let r = self.binary(level + 1)?;
            e = mk(Box::new(e), Box::new(r));
        }
    }

    fn pow(&mut self) -> R<Ar> {
        let e = self.unary()?;
        self.skip_ws();
        if self.is(&Star) && self.peek_at(1) == Some(&Star) {
            self.i += 2;
            let r = self.pow()?;
            return Ok(Arithmetic::Pow(Box::new(e), Box::new(r)));
        }
        Ok(e)
    }

    fn unary(&mut self) -> R<Ar> {
        use Arithmetic as A;
        self.skip_ws();
        match self.peek() {
            Some(Bang) => {
                self.i += 1;
                Ok(A::LogicalNot(Box::new(self.unary()?)))
            }
            Some(Tilde) => {
                self.i += 1;
                Ok(A::BitwiseNot(Box::new(self.unary()?)))
            }
            Some(Plus) => {
                self.i += 1;
                if self.eat(&Plus) {
                    Ok(A::PreIncr(self.arith_var()?))
                } else {
                    Ok(A::UnaryPlus(Box::new(self.unary()?)))
                }
            }
            Some(Dash) => {
                self.i += 1;
                if self.eat(&Dash) {
                    Ok(A::PreDecr(self.arith_var()?))
                } else {
                    Ok(A::UnaryMinus(Box::new(self.unary()?)))
                }
            }
            _ => self.operand(),
        }
    }

    fn operand(&mut self) -> R<Ar> {
        use Arithmetic as A;
        self.skip_ws();
        if self.eat(&ParenOpen) {
            let e = self.arith()?;
            self.skip_ws();
            self.expect(&ParenClose)?;
            return Ok(e);
        }
        if let Some(Literal(s)) = self.peek() {
            if let Some(n) = number(s) {
                self.i += 1;
                return Ok(A::Literal(n));
            }
        }
        let v = self.arith_var()?;
        self.skip_ws();
        for (t, mk) in [
            (Plus, A::PostIncr as fn(String) -> Ar),
            (Dash, A::PostDecr),
        ] {
            if self.is(&t) && self.peek_at(1) == Some(&t) {
                self.i += 2;
                return Ok(mk(v));
            }
        }
        Ok(A::Var(v))
    }

    fn arith_var(&mut self) -> R<String> {
        self.skip_ws();
        self.eat(&Dollar);
        match self.peek() {
            Some(Name(n)) => {
                let n = n.clone();
                self.i += 1;
                Ok(n)
            }
            _ => Err(self.unexpected()),
        }
    }
}

/// The value of an arithmetic literal, if it is one and fits.
fn number(s: &str) -> Option<isize> {
    let (digits, radix) = if s.starts_with("0x") || s.starts_with("0X") {
        if s.len() == 2 {
            return Some(0);
        }
        (&s[2..], 16)
    } else if s.starts_with('0') {
        (s, 8)
    } else {
        (s, 10)
    };
    if digits.is_empty() {
        return None;
    }
    let mut n: i128 = 0;
    for c in digits.chars() {
        if n > i128::from(i64::MAX) {
            return None;
        }
        n = n * radix + i128::from(c.to_digit(radix as u32)?);
    }
    if n > isize::MAX as i128 {
        None
    } else {
        Some(n as isize)
    }
}

/// A whole program: its commands up to the first error (if any), with the position after
/// each of them, and all comments reported on their own.
#[derive(Debug)]
pub struct Prog {
    pub cmds: Vec<Cmd>,
    pub after: Vec<SourcePos>,
    pub err: Option<E>,
    pub comments: Vec<Vec<Nl>>,
    pub end: SourcePos,
    pub odd_unescape: bool,
}

impl Prog {
    pub fn group(&self) -> Group {
        Group {
            cmds: self.cmds.clone(),
            trailing: self.comments.concat(),
        }
    }
}

pub fn parse(src: &str) -> Prog {
    program(Ref::new(src))
}

pub fn program(mut r: Ref) -> Prog {
    let mut cmds = Vec::new();
    let mut after = Vec::new();
    let err = loop {
        match r.complete() {
            Ok(Some(c)) => {
                cmds.push(c);
                after.push(r.pos());
            }
            Ok(None) => break None,
            Err(e) => break Some(e),
        }
    };
    Prog {
        cmds,
        after,
        err,
        end: r.pos(),
        comments: std::mem::take(&mut r.comments),
        odd_unescape: r.odd_unescape,
    }
}

fn odd_backslashes(line: &[PTok]) -> bool {
    let n = line.iter().rev().position(|(t, _)| *t != Backslash);
    n.unwrap_or(line.len()) % 2 == 1
}
