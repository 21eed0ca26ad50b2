//! Driving the real parser.

use crate::refp::Prog;
use crate::trace::Trace;
use conch_parser::lexer::Lexer;
use conch_parser::parse::Parser;
use conch_parser::token::Token;

pub fn budget(len: usize) -> u64 {
    200_000 + 5_000 * len as u64
}

/// All sources of tokens have one type, which keeps the harness quick to build.
pub type Tokens<'a> = Box<dyn Iterator<Item = Token> + 'a>;

pub fn lex(src: &str) -> Tokens<'_> {
    Box::new(Lexer::new(src.chars()))
}

pub fn program<'a, I>(tokens: I, len: usize) -> Prog
where
    I: IntoIterator<Item = Token>,
    I::IntoIter: 'a,
{
    program_of(Box::new(tokens.into_iter()), len)
}

/// Parse a program command by command.
fn program_of(tokens: Tokens<'_>, len: usize) -> Prog {
    conch_parser::verif::set_fuel(budget(len));
    let mut trace = Trace::new();
    let mut p = Parser::with_builder(tokens, &mut trace);
    let mut cmds = Vec::new();
    let mut after = Vec::new();
    let err = loop {
        match p.complete_command() {
            Ok(Some(c)) => {
                cmds.push(c);
                after.push(p.pos());
            }
            Ok(None) => break None,
            Err(e) => break Some(e),
        }
    };
    let end = p.pos();
    let comments = trace.comments;
    conch_parser::verif::set_fuel(u64::MAX);
    Prog {
        cmds,
        after,
        err,
        end,
        comments,
        odd_unescape: false,
    }
}
