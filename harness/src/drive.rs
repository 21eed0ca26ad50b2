//! Calls a builder's methods for a program by hand, from the model, without any parser.

use crate::model::*;
use crate::tape::Tape;
use conch_parser::ast::builder::{
    self as b, Builder, ComplexWordKind, Newline, ParameterSubstitutionKind as PSK, RedirectKind,
    SeparatorKind, SimpleWordKind, WordKind,
};
use conch_parser::ast::{AndOr, RedirectOrCmdWord, RedirectOrEnvVar};

/// Text is passed on in pieces of chance, which is up to the tape.
pub struct Drive<'a, B> {
    pub b: B,
    pub t: &'a mut Tape,
}

fn nl(n: &Nl) -> Newline {
    Newline(n.clone())
}
fn nls(v: &[Nl]) -> Vec<Newline> {
    v.iter().map(nl).collect()
}

type R<T, B> = Result<T, <B as Builder>::Error>;

impl<B: Builder> Drive<'_, B> {
    pub fn cmds(&mut self, g: &Group) -> R<Vec<B::Command>, B> {
        g.cmds.iter().map(|c| self.cmd(c)).collect()
    }

    fn group(&mut self, g: &Group) -> R<b::CommandGroup<B::Command>, B> {
        Ok(b::CommandGroup {
            commands: self.cmds(g)?,
            trailing_comments: nls(&g.trailing),
        })
    }

    fn cmd(&mut self, c: &Cmd) -> R<B::Command, B> {
        let first = self.pipe(&c.list.first)?;
        let mut rest = Vec::new();
        for (n, and, p) in &c.list.rest {
            let p = self.pipe(p)?;
            rest.push((nls(n), if *and { AndOr::And(p) } else { AndOr::Or(p) }));
        }
        let list = self.b.and_or_list(first, rest)?;
        let sep = match c.sep {
            Sep::Semi => SeparatorKind::Semi,
            Sep::Amp => SeparatorKind::Amp,
            Sep::Newline => SeparatorKind::Newline,
            Sep::Other => SeparatorKind::Other,
        };
        self.b.complete_command(nls(&c.pre), list, sep, c.cmt.as_ref().map(nl))
    }

    fn pipe(&mut self, p: &Pipe) -> R<B::ListableCommand, B> {
        let mut v = Vec::new();
        for (n, c) in &p.cmds {
            v.push((nls(n), self.pcmd(c)?));
        }
        self.b.pipeline(p.bang, v)
    }

    fn pcmd(&mut self, c: &PCmd) -> R<B::PipeableCommand, B> {
        match c {
            PCmd::Simple { vars, args } => {
                let mut pre = Vec::new();
                for v in vars {
                    pre.push(match v {
                        Pre::Redir(r) => RedirectOrEnvVar::Redirect(self.redir(r)?),
                        Pre::Var(n, w) => {
                            let w = w.as_ref().map(|w| self.word(w)).transpose()?;
                            RedirectOrEnvVar::EnvVar(n.clone(), w)
                        }
                    });
                }
                let mut post = Vec::new();
                for a in args {
                    post.push(match a {
                        Post::Redir(r) => RedirectOrCmdWord::Redirect(self.redir(r)?),
                        Post::Word(w) => RedirectOrCmdWord::CmdWord(self.word(w)?),
                    });
                }
                self.b.simple_command(pre, post)
            }
            PCmd::Compound(c) => {
                let c = self.compound(c)?;
                self.b.compound_command_into_pipeable(c)
            }
            PCmd::Func { name, cmts, body } => {
                let c = self.compound(body)?;
                self.b.function_declaration(name.clone(), nls(cmts), c)
            }
        }
    }

    fn words(&mut self, v: &[Word]) -> R<Vec<B::Word>, B> {
        v.iter().map(|w| self.word(w)).collect()
    }

    fn compound(&mut self, c: &Compound) -> R<B::CompoundCommand, B> {
        let io: Vec<_> = c.io.iter().map(|r| self.redir(r)).collect::<Result<_, _>>()?;
        match &c.kind {
            Kind::Brace(g) => {
                let g = self.group(g)?;
                self.b.brace_group(g, io)
            }
            Kind::Subshell(g) => {
                let g = self.group(g)?;
                self.b.subshell(g, io)
            }
            Kind::Loop { until, guard, body } => {
                let pair = b::GuardBodyPairGroup {
                    guard: self.group(guard)?,
                    body: self.group(body)?,
                };
                let kind = if *until { b::LoopKind::Until } else { b::LoopKind::While };
                self.b.loop_command(kind, pair, io)
            }
            Kind::If { conds, els } => {
                let mut conditionals = Vec::new();
                for (guard, body) in conds {
                    conditionals.push(b::GuardBodyPairGroup {
                        guard: self.group(guard)?,
                        body: self.group(body)?,
                    });
                }
                let else_branch = els.as_ref().map(|e| self.group(e)).transpose()?;
                let f = b::IfFragments { conditionals, else_branch };
                self.b.if_command(f, io)
            }
            Kind::For { var, var_cmt, words, pre_body, body } => {
                let words = match words {
                    Some((pre, ws, post)) => {
                        Some((nls(pre), self.words(ws)?, post.as_ref().map(nl)))
                    }
                    None => None,
                };
                let f = b::ForFragments {
                    var: var.clone(),
                    var_comment: var_cmt.as_ref().map(nl),
                    words,
                    pre_body_comments: nls(pre_body),
                    body: self.group(body)?,
                };
                self.b.for_command(f, io)
            }
            Kind::Case { word, post_word, in_cmt, arms, post_arms } => {
                let mut all = Vec::new();
                let word = self.word(word)?;
                for a in arms {
                    all.push(b::CaseArm {
                        patterns: b::CasePatternFragments {
                            pre_pattern_comments: nls(&a.pre),
                            pattern_alternatives: self.words(&a.pats)?,
                            pattern_comment: a.pat_cmt.as_ref().map(nl),
                        },
                        body: self.group(&a.body)?,
                        arm_comment: a.arm_cmt.as_ref().map(nl),
                    });
                }
                let f = b::CaseFragments {
                    word,
                    post_word_comments: nls(post_word),
                    in_comment: in_cmt.as_ref().map(nl),
                    arms: all,
                    post_arms_comments: nls(post_arms),
                };
                self.b.case_command(f, io)
            }
        }
    }

    fn redir(&mut self, r: &Redir) -> R<B::Redirect, B> {
        let w = self.word(&r.word)?;
        let k = match r.kind {
            RK::Read => RedirectKind::Read(r.fd, w),
            RK::Write => RedirectKind::Write(r.fd, w),
            RK::ReadWrite => RedirectKind::ReadWrite(r.fd, w),
            RK::Append => RedirectKind::Append(r.fd, w),
            RK::Clobber => RedirectKind::Clobber(r.fd, w),
            RK::Heredoc => RedirectKind::Heredoc(r.fd, w),
            RK::DupRead => RedirectKind::DupRead(r.fd, w),
            RK::DupWrite => RedirectKind::DupWrite(r.fd, w),
        };
        self.b.redirect(k)
    }

    pub fn word(&mut self, w: &Word) -> R<B::Word, B> {
        let k = self.complex(w)?;
        self.b.word(k)
    }

    fn complex(&mut self, w: &Word) -> R<ComplexWordKind<B::Command>, B> {
        let mut v = Vec::new();
        for p in &w.0 {
            match p {
                Part::S(Sw::Lit(s)) => {
                    let pieces = self.pieces(s);
                    let lit = |s| WordKind::Simple(SimpleWordKind::Literal(s));
                    v.extend(pieces.into_iter().map(lit));
                }
                Part::S(s) => v.push(WordKind::Simple(self.simple(s)?)),
                Part::SQ(s) => {
                    let pieces = self.pieces(s);
                    v.extend(pieces.into_iter().map(WordKind::SingleQuoted));
                }
                Part::DQ(sws) => {
                    let mut q = Vec::new();
                    for s in sws {
                        match s {
                            Sw::Lit(s) => {
                                let pieces = self.pieces(s);
                                q.extend(pieces.into_iter().map(SimpleWordKind::Literal));
                            }
                            s => q.push(self.simple(s)?),
                        }
                    }
                    // In one or in two pieces
                    if self.t.chance(1, 4) {
                        let n = self.t.n(q.len() as u32 + 1) as usize;
                        let rest = q.split_off(n);
                        v.push(WordKind::DoubleQuoted(q));
                        v.push(WordKind::DoubleQuoted(rest));
                    } else {
                        v.push(WordKind::DoubleQuoted(q));
                    }
                }
            }
        }
        Ok(match v.len() {
            0 => ComplexWordKind::Single(WordKind::Simple(SimpleWordKind::Literal(String::new()))),
            1 if self.t.n(4) != 0 => ComplexWordKind::Single(v.pop().unwrap()),
            _ => ComplexWordKind::Concat(v),
        })
    }

    fn pieces(&mut self, s: &str) -> Vec<String> {
        let mut out = vec![String::new()];
        let split = self.t.n(3);
        for c in s.chars() {
            if split > 0 && self.t.n(1 + split) == 1 && !out.last().unwrap().is_empty() {
                out.push(String::new());
            }
            out.last_mut().unwrap().push(c);
        }
        out
    }

    fn simple(&mut self, s: &Sw) -> R<SimpleWordKind<B::Command>, B> {
        Ok(match s {
            Sw::Lit(s) => SimpleWordKind::Literal(s.clone()),
            Sw::Esc(s) => SimpleWordKind::Escaped(s.clone()),
            Sw::Param(p) => SimpleWordKind::Param(p.clone()),
            Sw::Tick(g) => SimpleWordKind::CommandSubst(self.group(g)?),
            Sw::Star => SimpleWordKind::Star,
            Sw::Question => SimpleWordKind::Question,
            Sw::SqOpen => SimpleWordKind::SquareOpen,
            Sw::SqClose => SimpleWordKind::SquareClose,
            Sw::Tilde => SimpleWordKind::Tilde,
            Sw::Colon => SimpleWordKind::Colon,
            Sw::Sub(sub) => SimpleWordKind::Subst(Box::new(match &**sub {
                Sub::Cmd(g) => PSK::Command(self.group(g)?),
                Sub::Len(p) => PSK::Len(p.clone()),
                Sub::Arith(a) => PSK::Arith(a.clone()),
                Sub::Op(op, colon, p, w) => {
                    let w = w.as_ref().map(|w| self.complex(w)).transpose()?;
                    let p = p.clone();
                    match op {
                        Op::Default => PSK::Default(*colon, p, w),
                        Op::Assign => PSK::Assign(*colon, p, w),
                        Op::Error => PSK::Error(*colon, p, w),
                        Op::Alt => PSK::Alternative(*colon, p, w),
                    }
                }
                Sub::Rem(rem, p, w) => {
                    let w = w.as_ref().map(|w| self.complex(w)).transpose()?;
                    let p = p.clone();
                    match rem {
                        Rem::SmallSuffix => PSK::RemoveSmallestSuffix(p, w),
                        Rem::LargeSuffix => PSK::RemoveLargestSuffix(p, w),
                        Rem::SmallPrefix => PSK::RemoveSmallestPrefix(p, w),
                        Rem::LargePrefix => PSK::RemoveLargestPrefix(p, w),
                    }
                }
            })),
        })
    }
}
