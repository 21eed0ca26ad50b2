//! What the default builders must make of a program, worked out from the model.

use crate::model::*;
use conch_parser::ast::{self as a, ComplexWord, SimpleWord, TopLevelCommand, TopLevelWord};
use std::rc::Rc;

pub type TCmd = TopLevelCommand<String>;
pub type TWord = TopLevelWord<String>;
type TPipeable = a::ShellPipeableCommand<String, TWord, TCmd>;
type TListable = a::ListableCommand<TPipeable>;
type TCompound = a::ShellCompoundCommand<String, TWord, TCmd>;
type TSimple = a::DefaultSimpleWord;
type TRedirect = a::Redirect<TWord>;

/// The commands of a group; comments are nowhere to be seen.
pub fn cmds(g: &Group) -> Vec<TCmd> {
    g.cmds.iter().map(cmd).collect()
}

pub fn cmd(c: &Cmd) -> TCmd {
    let list = a::AndOrList {
        first: listable(&c.list.first),
        rest: c
            .list
            .rest
            .iter()
            .map(|(_, and, p)| {
                if *and {
                    a::AndOr::And(listable(p))
                } else {
                    a::AndOr::Or(listable(p))
                }
            })
            .collect(),
    };
    TopLevelCommand(if c.sep == Sep::Amp {
        a::Command::Job(list)
    } else {
        a::Command::List(list)
    })
}

fn listable(p: &Pipe) -> TListable {
    if p.bang || p.cmds.len() != 1 {
        a::ListableCommand::Pipe(p.bang, p.cmds.iter().map(|(_, c)| pcmd(c)).collect())
    } else {
        a::ListableCommand::Single(pcmd(&p.cmds[0].1))
    }
}

pub fn pcmd(c: &PCmd) -> TPipeable {
    match c {
        PCmd::Simple { vars, args } => a::PipeableCommand::Simple(Box::new(a::SimpleCommand {
            redirects_or_env_vars: vars
                .iter()
                .map(|v| match v {
                    Pre::Redir(r) => a::RedirectOrEnvVar::Redirect(redir(r)),
                    Pre::Var(n, w) => {
                        a::RedirectOrEnvVar::EnvVar(n.clone(), w.as_ref().map(word))
                    }
                })
                .collect(),
            redirects_or_cmd_words: args
                .iter()
                .map(|v| match v {
                    Post::Redir(r) => a::RedirectOrCmdWord::Redirect(redir(r)),
                    Post::Word(w) => a::RedirectOrCmdWord::CmdWord(word(w)),
                })
                .collect(),
        })),
        PCmd::Compound(c) => a::PipeableCommand::Compound(Box::new(compound(c))),
        PCmd::Func { name, body, .. } => {
            a::PipeableCommand::FunctionDef(name.clone(), Rc::new(compound(body)))
        }
    }
}

pub fn redir(r: &Redir) -> TRedirect {
    let w = word(&r.word);
    match r.kind {
        RK::Read => a::Redirect::Read(r.fd, w),
        RK::Write => a::Redirect::Write(r.fd, w),
        RK::ReadWrite => a::Redirect::ReadWrite(r.fd, w),
        RK::Append => a::Redirect::Append(r.fd, w),
        RK::Clobber => a::Redirect::Clobber(r.fd, w),
        RK::Heredoc => a::Redirect::Heredoc(r.fd, w),
        RK::DupRead => a::Redirect::DupRead(r.fd, w),
        RK::DupWrite => a::Redirect::DupWrite(r.fd, w),
    }
}

pub fn compound(c: &Compound) -> TCompound {
    use a::CompoundCommandKind as K;
    let kind = match &c.kind {
        Kind::Brace(g) => K::Brace(cmds(g)),
        Kind::Subshell(g) => K::Subshell(cmds(g)),
        Kind::Loop { until, guard, body } => {
            let pair = a::GuardBodyPair {
                guard: cmds(guard),
                body: cmds(body),
            };
            if *until {
                K::Until(pair)
            } else {
                K::While(pair)
            }
        }
        Kind::If { conds, els } => K::If {
            conditionals: conds
                .iter()
                .map(|(g, b)| a::GuardBodyPair {
                    guard: cmds(g),
                    body: cmds(b),
                })
                .collect(),
            else_branch: els.as_ref().map(cmds),
        },
        Kind::For {
            var, words, body, ..
        } => K::For {
            var: var.clone(),
            words: words
                .as_ref()
                .map(|(_, ws, _)| ws.iter().map(word).collect()),
            body: cmds(body),
        },
        Kind::Case { word: w, arms, .. } => K::Case {
            word: word(w),
            arms: arms
                .iter()
                .map(|arm| a::PatternBodyPair {
                    patterns: arm.pats.iter().map(word).collect(),
                    body: cmds(&arm.body),
                })
                .collect(),
        },
    };
    a::CompoundCommand {
        kind,
        io: c.io.iter().map(redir).collect(),
    }
}

fn simple(s: &Sw) -> TSimple {
    use a::ParameterSubstitution as P;
    let subst = |p| SimpleWord::Subst(Box::new(p));
    match s {
        Sw::Lit(s) => SimpleWord::Literal(s.clone()),
        Sw::Esc(s) => SimpleWord::Escaped(s.clone()),
        Sw::Param(p) => SimpleWord::Param(p.clone()),
        Sw::Star => SimpleWord::Star,
        Sw::Question => SimpleWord::Question,
        Sw::SqOpen => SimpleWord::SquareOpen,
        Sw::SqClose => SimpleWord::SquareClose,
        Sw::Tilde => SimpleWord::Tilde,
        Sw::Colon => SimpleWord::Colon,
        Sw::Tick(g) => subst(P::Command(cmds(g))),
        Sw::Sub(b) => subst(match &**b {
            Sub::Cmd(g) => P::Command(cmds(g)),
            Sub::Len(p) => P::Len(p.clone()),
            Sub::Arith(e) => P::Arith(e.clone()),
            Sub::Op(op, colon, p, w) => {
                let (c, p, w) = (*colon, p.clone(), w.as_ref().map(word));
                match op {
                    Op::Default => P::Default(c, p, w),
                    Op::Assign => P::Assign(c, p, w),
                    Op::Error => P::Error(c, p, w),
                    Op::Alt => P::Alternative(c, p, w),
                }
            }
            Sub::Rem(rem, p, w) => {
                let (p, w) = (p.clone(), w.as_ref().map(word));
                match rem {
                    Rem::SmallSuffix => P::RemoveSmallestSuffix(p, w),
                    Rem::LargeSuffix => P::RemoveLargestSuffix(p, w),
                    Rem::SmallPrefix => P::RemoveSmallestPrefix(p, w),
                    Rem::LargePrefix => P::RemoveLargestPrefix(p, w),
                }
            }
        }),
    }
}

fn simples(v: &[Sw]) -> Vec<TSimple> {
    norm_sws(v.to_vec()).iter().map(simple).collect()
}

pub fn word(w: &Word) -> TWord {
    // Join whatever is of the same kind
    let mut parts: Vec<Part> = Vec::new();
    for p in Word::norm(w.0.clone()).0 {
        match (parts.last_mut(), p) {
            (Some(Part::SQ(last)), Part::SQ(s)) => last.push_str(&s),
            (Some(Part::DQ(last)), Part::DQ(v)) => last.extend(v),
            (_, p) => parts.push(p),
        }
    }
    let part = |p: &Part| match p {
        Part::S(s) => a::Word::Simple(simple(s)),
        Part::SQ(s) => a::Word::SingleQuoted(s.clone()),
        Part::DQ(v) => a::Word::DoubleQuoted(simples(v)),
    };
    TopLevelWord(match parts.as_slice() {
        [] => ComplexWord::Single(a::Word::Simple(SimpleWord::Literal(String::new()))),
        [p] => ComplexWord::Single(part(p)),
        ps => ComplexWord::Concat(ps.iter().map(part).collect()),
    })
}

/// The first breach of the normal form, found in the tree itself.
pub fn abnormal(cs: &[TCmd]) -> Option<String> {
    cs.iter().find_map(ab_cmd)
}

fn ab_cmd(c: &TCmd) -> Option<String> {
    let l = match &c.0 {
        a::Command::Job(l) | a::Command::List(l) => l,
    };
    std::iter::once(&l.first)
        .chain(l.rest.iter().map(|r| match r {
            a::AndOr::And(l) | a::AndOr::Or(l) => l,
        }))
        .find_map(|l| match l {
            a::ListableCommand::Pipe(bang, cs) => {
                if cs.is_empty() || !bang && cs.len() == 1 {
                    return Some(format!("needless pipeline {:?}", l));
                }
                cs.iter().find_map(ab_pcmd)
            }
            a::ListableCommand::Single(c) => ab_pcmd(c),
        })
}

fn ab_pcmd(c: &TPipeable) -> Option<String> {
    match c {
        a::PipeableCommand::Simple(s) => s
            .redirects_or_env_vars
            .iter()
            .find_map(|v| match v {
                a::RedirectOrEnvVar::Redirect(r) => ab_redir(r),
                a::RedirectOrEnvVar::EnvVar(_, w) => w.as_ref().and_then(ab_word),
            })
            .or_else(|| {
                s.redirects_or_cmd_words.iter().find_map(|v| match v {
                    a::RedirectOrCmdWord::Redirect(r) => ab_redir(r),
                    a::RedirectOrCmdWord::CmdWord(w) => ab_word(w),
                })
            }),
        a::PipeableCommand::Compound(c) => ab_compound(c),
        a::PipeableCommand::FunctionDef(_, c) => ab_compound(c),
    }
}

fn ab_redir(r: &TRedirect) -> Option<String> {
    use a::Redirect::*;
    match r {
        Read(_, w) | Write(_, w) | ReadWrite(_, w) | Append(_, w) | Clobber(_, w)
        | Heredoc(_, w) | DupRead(_, w) | DupWrite(_, w) => ab_word(w),
    }
}

fn ab_compound(c: &TCompound) -> Option<String> {
    use a::CompoundCommandKind::*;
    let pair = |p: &a::GuardBodyPair<TCmd>| abnormal(&p.guard).or_else(|| abnormal(&p.body));
    match &c.kind {
        Brace(g) | Subshell(g) => abnormal(g),
        While(p) | Until(p) => pair(p),
        If {
            conditionals,
            else_branch,
        } => conditionals
            .iter()
            .find_map(pair)
            .or_else(|| else_branch.as_ref().and_then(|e| abnormal(e))),
        For { words, body, .. } => words
            .as_ref()
            .and_then(|ws| ws.iter().find_map(ab_word))
            .or_else(|| abnormal(body)),
        Case { word, arms } => ab_word(word).or_else(|| {
            arms.iter().find_map(|arm| {
                arm.patterns
                    .iter()
                    .find_map(ab_word)
                    .or_else(|| abnormal(&arm.body))
            })
        }),
    }
    .or_else(|| c.io.iter().find_map(ab_redir))
}

fn ab_simples(v: &[TSimple]) -> Option<String> {
    for p in v.windows(2) {
        if let [SimpleWord::Literal(_), SimpleWord::Literal(_)] = p {
            return Some(format!("adjacent literals {:?}", p));
        }
    }
    v.iter().find_map(ab_simple)
}

fn ab_simple(s: &TSimple) -> Option<String> {
    use a::ParameterSubstitution::*;
    match s {
        SimpleWord::Subst(b) => match &**b {
            Command(c) => abnormal(c),
            Len(_) | Arith(_) => None,
            Default(_, _, w) | Assign(_, _, w) | Error(_, _, w) | Alternative(_, _, w) => {
                w.as_ref().and_then(ab_word)
            }
            RemoveSmallestSuffix(_, w)
            | RemoveLargestSuffix(_, w)
            | RemoveSmallestPrefix(_, w)
            | RemoveLargestPrefix(_, w) => w.as_ref().and_then(ab_word),
        },
        _ => None,
    }
}

fn ab_part(w: &a::DefaultWord) -> Option<String> {
    match w {
        a::Word::Simple(s) => ab_simple(s),
        a::Word::DoubleQuoted(v) => ab_simples(v),
        a::Word::SingleQuoted(_) => None,
    }
}

pub fn ab_word(w: &TWord) -> Option<String> {
    match &w.0 {
        ComplexWord::Single(w) => ab_part(w),
        ComplexWord::Concat(v) => {
            if v.len() < 2 {
                return Some(format!("concatenation of one {:?}", v));
            }
            for p in v.windows(2) {
                let same = match (&p[0], &p[1]) {
                    (
                        a::Word::Simple(SimpleWord::Literal(_)),
                        a::Word::Simple(SimpleWord::Literal(_)),
                    ) => true,
                    (a::Word::SingleQuoted(_), a::Word::SingleQuoted(_)) => true,
                    (a::Word::DoubleQuoted(_), a::Word::DoubleQuoted(_)) => true,
                    _ => false,
                };
                if same {
                    return Some(format!("adjacent pieces {:?}", p));
                }
            }
            v.iter().find_map(ab_part)
        }
    }
}
