//! C04 to C16: what programs mean.

use super::*;
use crate::gen::Term;

/// Programs of nothing but the given features.
fn bare() -> Cfg {
    Cfg {
        simple: 10,
        compound: 0,
        func: 0,
        heredoc: 0,
        redir: 0,
        assign: 0,
        lists: 0,
        lit: 10,
        esc: 1,
        quote: 1,
        param: 1,
        opsub: 0,
        cmdsub: 0,
        tick: 0,
        arith: 0,
        ..Cfg::base()
    }
}

type Interesting = fn(&Group, &str) -> bool;

fn model(t: &mut Tape, cx: &mut Cx, cfg: Cfg, f: Interesting) -> Result<(), String> {
    let (src, m) = program(t, size_cfg(cfg));
    let nt = f(&m, &src);
    set(cx, &src, nt);
    is_model(&src, &m).map(drop)
}

fn reference(
    t: &mut Tape,
    cx: &mut Cx,
    cfg: Cfg,
    alphabet: &[&str],
    f: Interesting,
) -> Result<(), String> {
    let src = near(t, cfg, alphabet);
    agree(cx, &src, f)
}

fn agree(cx: &mut Cx, src: &str, f: Interesting) -> Result<(), String> {
    set(cx, src, false);
    let (_, r) = is_ref(src)?;
    match &r.err {
        None => {
            cx.class("accepted");
            cx.nontrivial = f(&r.group(), src);
        }
        Some(_) => {
            cx.class("rejected");
            cx.nontrivial = true;
        }
    }
    Ok(())
}

macro_rules! feature {
    ($name:ident, $cfg:expr, $alpha:expr, $nt:expr) => {
        mod $name {
            use super::*;
            pub fn model(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
                super::model(t, cx, $cfg, $nt)
            }
            pub fn near(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
                super::reference(t, cx, $cfg, $alpha, $nt)
            }
            /// In front of every other alphabet, for exhaustive enumeration
            pub fn all(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
                let src = soup(t, $alpha, 12);
                super::agree(cx, &src, $nt)
            }
            pub const A: u64 = {
                let a: &[&str] = $alpha;
                a.len() as u64
            };
            const TAG: &str = stringify!($name);
            pub fn long(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
                long::check(&TAG[1..], $alpha, t, cx)
            }
            fn long_at(i: u64) -> Option<Recording> {
                long::recording(&TAG[1..], $alpha, i)
            }
            pub fn parts(model: u64, near: u64, all: u64) -> Vec<Source> {
                let cases = long::cases(&TAG[1..], $alpha);
                vec![
                    enumerated("sequences", all, self::all, sequences::<A>),
                    enumerated("long", cases, self::long, self::long_at),
                    part("model", model, self::model),
                    part("near", near, self::near),
                ]
            }
        }
    };
}

fn any_pipe(m: &Group, f: &mut dyn FnMut(&Pipe) -> bool) -> bool {
    struct V<'a>(&'a mut dyn FnMut(&Pipe) -> bool, bool);
    impl<'a> Visit for V<'a> {
        fn pipe(&mut self, p: &mut Pipe) {
            self.1 |= (self.0)(p);
            for (_, c) in &mut p.cmds {
                self.pcmd(c);
            }
        }
    }
    let mut v = V(f, false);
    v.group(&mut m.clone());
    v.1
}

fn any_pcmd(m: &Group, f: fn(&PCmd) -> bool) -> bool {
    any_pipe(m, &mut |p| p.cmds.iter().any(|c| f(&c.1)))
}

feature!(
    c04,
    Cfg {
        lists: 8,
        compound: 2,
        cmdsub: 1,
        cmds: 4,
        ..bare()
    },
    &["a", " ", ";", "&", "&&", "||", "|", "\n", "!", "#c\n", "\\\n", "(", ")", "{ ", "b;}", ";;"],
    |m, _| m.cmds.len() > 1
        || any_pipe(m, &mut |p| p.bang || p.cmds.len() > 1)
        || m.cmds.iter().any(|c| !c.list.rest.is_empty())
);

feature!(
    c05,
    Cfg {
        compound: 14,
        simple: 6,
        redir: 2,
        lists: 1,
        assign: 1,
        depth: 5,
        budget: 36,
        args: 2,
        ..bare()
    },
    &[
        "a", " ", ";", "\n", "{ ", " }", "(", ")", "if ", " then ", " elif ", " else ", " fi",
        "while ", "until ", " do ", " done", "for ", " in ", "case ", " esac", ";;", "|", ">b", "&",
        "#c\n", "\\", "''", "x=1 ", "fi", "in",
    ],
    |m, _| any_pcmd(m, |c| matches!(c, PCmd::Compound(_)))
);

feature!(
    c06,
    Cfg {
        func: 12,
        simple: 6,
        compound: 5,
        redir: 2,
        lists: 1,
        args: 2,
        ..bare()
    },
    &[
        "f", "(", ")", " ", "\n", "{ a;}", "function ", "function", "#c\n", ">o", "\\\n", "if", "=",
        "''", "(b)", ";",
    ],
    |m, s| any_pcmd(m, |c| matches!(c, PCmd::Func { .. })) || s.contains("function")
);

feature!(
    c07,
    Cfg {
        assign: 6,
        redir: 4,
        quote: 2,
        param: 2,
        opsub: 1,
        cmdsub: 1,
        args: 6,
        cmds: 2,
        ..bare()
    },
    &[
        "a", "=", " ", "b=", "1", ">", "2", "'x'", "$y", "#", "\\", "if", "\n", "+=", "-", "<&",
    ],
    |m, _| any_pcmd(m, |c| matches!(c, PCmd::Simple { vars, args }
        if !vars.is_empty() || args.len() > 1))
);

feature!(
    c08,
    Cfg {
        redir: 9,
        compound: 4,
        assign: 1,
        quote: 2,
        param: 3,
        opsub: 1,
        cmdsub: 1,
        args: 3,
        cmds: 2,
        ..bare()
    },
    &[
        "a", " ", "1", "65535", "65536", "0", ">", "<", ">>", "<>", ">|", ">&", "<&", "-", "+",
        "'2'", "\\", "$x", "(b)", "{ c;}", "\n", "\"1\"", "*", "&", "~",
    ],
    |m, _| {
        struct V(bool);
        impl Visit for V {
            fn redir(&mut self, _: &mut Redir) {
                self.0 = true;
            }
        }
        let mut v = V(false);
        v.group(&mut m.clone());
        v.0
    }
);

fn quoted(_: &Group, s: &str) -> bool {
    s.contains(|c| "'\"\\$`*?~[:#".contains(c))
}

feature!(
    c09,
    Cfg {
        lit: 9,
        esc: 6,
        quote: 8,
        param: 4,
        opsub: 2,
        cmdsub: 1,
        tick: 1,
        arith: 1,
        assign: 1,
        cmds: 2,
        args: 5,
        ..bare()
    },
    &[
        "a", " ", "'", "\"", "\\", "$", "#", "\n", "*", "?", "~", ":", "[", "]", "{", "}", "1",
        "`", ";", "=", "!", "%", "\u{e9}", "$x", "&&",
    ],
    quoted
);

feature!(
    c10,
    Cfg {
        param: 8,
        opsub: 12,
        quote: 3,
        esc: 2,
        cmdsub: 1,
        tick: 1,
        arith: 1,
        assign: 1,
        cmds: 2,
        args: 4,
        ..bare()
    },
    &[
        "$", "${", "}", "a", "1", "10", "#", "-", ":", "=", "?", "+", "%", "%%", "##", "@", "*",
        "!", "$$", "{", "\"", "'", "\\", " ", "\n", "4294967296", "/", "^", "`", "(", ")",
    ],
    |_, s| s.contains('$')
);

feature!(
    c12,
    Cfg {
        heredoc: 16,
        redir: 8,
        compound: 4,
        func: 1,
        lists: 3,
        quote: 2,
        param: 2,
        opsub: 1,
        cmdsub: 2,
        tick: 1,
        arith: 1,
        assign: 1,
        cmds: 3,
        ..bare()
    },
    &[
        "<<", "<<-", "A", "\n", "\nA\n", "\n\tA\n", "'A'", "\\", " ", "$x", "`", "\"", "$(", ")",
        "\t", "#", ";", "b", "|", "<<B", "\nB\n", "(", "\r\n", "&", "1",
    ],
    |_, s| s.contains("<<")
);

feature!(
    c13,
    Cfg {
        arith: 20,
        lit: 1,
        quote: 1,
        args: 2,
        cmds: 1,
        ..bare()
    },
    &[
        "a", "$a", "1", "0x1f", "07", "08", "+", "-", "*", "/", "%", "**", "++", "--", "<", "<=",
        "<<", "<<-", ">", ">=", ">>", "==", "!=", "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=",
        "&=", "|=", "^=", "&", "|", "^", "&&", "||", "?", ":", ",", "!", "~", "(", ")", " ", "\t",
        "\\\n", "\n", "9223372036854775807", "9223372036854775808", "0x", "$1", "{", "}", "\"",
        "\u{e9}", "0X7fffffffffffffff", "0777777777777777777777", "00", ";", "@",
    ],
    |_, s| s.contains("$((")
);

/// Expressions right in the middle of an arithmetic substitution.
fn c13_expr(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    const OPERAND: &[&str] = &["a", "$b", "1", "0x1F", "017", "09", "(", "x ", "12 "];
    const OPERATOR: &[&str] = &[
        "+", "-", "*", "/", "%", "**", "<", "<=", "<<", ">", ">=", ">>", "==", "!=", "=", "+=",
        "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^=", "&", "|", "^", "&&", "||", "?", ":",
        ",", ")", "++", "--", "<<-",
    ];
    const PREFIX: &[&str] = &["", "", "", "-", "+", "!", "~", "++", "--", "- ", "( ", " "];
    let n = 1 + t.n(5);
    let mut s = String::from("echo $((");
    for i in 0..n {
        if i > 0 {
            s.push_str(t.pick(OPERATOR));
        }
        s.push_str(t.pick(PREFIX));
        s.push_str(t.pick(OPERAND));
        if t.chance(1, 5) {
            s.push_str(t.pick(&["++", "--", " ++", " ", ")", " \t"]));
        }
    }
    s.push_str(t.pick(&["))", " ))", ")))", ") )", ")", " "]));
    agree(cx, &s, |_, _| true)
}

fn c13_seq(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    const A: &[&str] = &[
        "a", "1", "+", "-", "*", "**", "=", "<", ">", "&", "|", "^", "!", "~", "?", ":", ",", "(",
        ")", " ", "$a", "%", "/", "++", "--", "0x",
    ];
    let s = format!("$(({}))", soup(t, A, 12));
    agree(cx, &s, |_, _| true)
}

/// Number literals of any value, in each of their spellings.
fn c13_number(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let hi = u64::from(t.n(u32::MAX));
    let lo = u64::from(t.n(u32::MAX));
    let n = ((hi << 32 | lo) >> t.n(64)) & i64::MAX as u64;
    let n = match t.n(8) {
        0 => i64::MAX as u64 - t.n(3) as u64,
        1 => u64::from(t.n(20)),
        _ => n,
    };
    let (s, value) = match t.n(6) {
        0 => (format!("{}", n), n as isize),
        1 => (format!("0{:o}", n), n as isize),
        2 => (format!("0x{:x}", n), n as isize),
        3 => (format!("0X{:X}", n), n as isize),
        4 => (format!("0000{:o}", n), n as isize),
        _ => (format!("0x000{:X}", n), n as isize),
    };
    use conch_parser::ast::Arithmetic::Literal;
    let src = format!("$(({}))", s);
    set(cx, &src, true);
    let m = Sw::Sub(Box::new(Sub::Arith(Some(Literal(value)))));
    let p = parse(&src);
    if p.err.is_some() {
        return Err(format!("{:?} is rejected: {:?}", src, p.err));
    }
    let want = Word(vec![Part::S(m)]);
    match &p.cmds[0].list.first.cmds[0].1 {
        PCmd::Simple { args, .. } if *args == [Post::Word(want.clone())] => Ok(()),
        c => Err(format!("{:?} is {:?}, not {:?}", src, c, want)),
    }
}

// ---- C11

/// Text which consists of one backquoted substitution and nothing else.
fn c11_raw(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    const A: &[&str] = &[
        "a", " ", "\\", "\\\\", "\\$", "\\`", "$", "$x", "$1", "'", "\"", "{", "}", "(", ")", "$(",
        "${", ";", "&", "\n", "b", "*", "\\\\\\`", "1", "|",
    ];
    let raw = soup(t, A, 12);
    let src = format!("`{}`", raw);
    set(cx, &src, false);
    let (p, r) = is_ref(&src)?;
    let one = p.cmds.len() == 1 && p.cmds[0].list.rest.is_empty();
    if p.err.is_some() || !one || p.cmds[0].list.first.cmds.len() != 1 {
        cx.class("not one substitution");
        return Ok(());
    }
    let ours = match &p.cmds[0].list.first.cmds[0].1 {
        PCmd::Simple { args, .. } => match args.as_slice() {
            [Post::Word(Word(w))] => match w.as_slice() {
                [Part::S(Sw::Tick(g))] => g.clone(),
                _ => return Ok(()),
            },
            _ => return Ok(()),
        },
        _ => return Ok(()),
    };
    // Known findings
    let quotes = raw.contains(|c| "'\"{}()".contains(c));
    if r.odd_unescape || quotes && raw.contains("\\`") {
        cx.excluded = true;
        return Ok(());
    }
    // Remove one level of backslashes
    let mut plain = String::new();
    let mut it = raw.chars().peekable();
    while let Some(c) = it.next() {
        match (c, it.peek()) {
            ('\\', Some('\\')) | ('\\', Some('$')) | ('\\', Some('`')) => {
                plain.extend(it.next());
            }
            // Nothing else is affected, wherever it appears
            _ => plain.push(c),
        }
    }
    cx.nontrivial = plain != raw || !ours.cmds.is_empty();
    let there = format!("$( {}\n)", plain);
    if refp::parse(&there).odd_unescape {
        cx.excluded = true;
        return Ok(());
    }
    let q = parse(&there);
    let theirs = match (&q.err, q.cmds.first().map(|c| &c.list.first.cmds[0].1)) {
        (None, Some(PCmd::Simple { args, .. })) => match args.as_slice() {
            [Post::Word(Word(w))] => match w.as_slice() {
                [Part::S(Sw::Sub(s))] => match &**s {
                    Sub::Cmd(g) => g.clone(),
                    s => return Err(format!("{:?} is {:?}", there, s)),
                },
                w => return Err(format!("{:?} is {:?}", there, w)),
            },
            a => return Err(format!("{:?} is {:?}", there, a)),
        },
        x => return Err(format!("{:?} is {:?}, unlike {:?}", there, x, src)),
    };
    diff(
        &format!("{:?} compared to {:?}", src, there),
        &unify_subst(strip(ours)),
        &unify_subst(strip(theirs)),
    )
}

/// Text within up to three levels of backquotes, whose characters are escaped as often as each
/// level takes, or less often.
fn c11_nested(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    const A: &[&str] = &[
        "$", "$", "$", "0", "1a", "a", " ", "\\", "{", "}", "(", ")", "\"", "'", "#", "@", "-x", ";",
        "b=", "\n",
    ];
    let depth = t.n(3) + 1;
    let mut s = soup(t, A, 7);
    match t.n(4) {
        0 => s = format!("\"{}\"", s),
        1 => s = format!("a${{x-{}}}", s),
        _ => {}
    }
    for _ in 0..depth {
        let mut next = String::new();
        let often = t.n(3);
        for c in s.chars() {
            // Backquotes always have to be escaped, the rest need not be
            match c {
                '`' => next.push('\\'),
                '\\' if t.n(8) != 0 => next.push('\\'),
                '$' if t.n(2) < often => next.push('\\'),
                _ => {}
            }
            next.push(c);
        }
        s = match t.n(5) {
            0 => format!("a`{}`", next),
            1 => format!("\"`{}`\"", next),
            _ => format!("`{}`", next),
        };
    }
    agree(cx, &s, |_, _| true)
}

/// A list of commands on its own, within `$()`, and within backquotes, in all kinds of places.
fn c11_same(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let cfg = Cfg {
        budget: 12,
        cmdsub: 3,
        tick: 2,
        quote: 2,
        opsub: 2,
        heredoc: 2,
        ..Cfg::base()
    };
    let mut g = G::new(t, cfg);
    let place = g.t.n(9);
    let ticks = g.t.chance(1, 2);
    g.set_content(ticks);
    let m = g.group(if ticks { Term::Tick } else { Term::Paren }, 0, 3);
    let content = std::mem::take(&mut g.out);
    let text = if ticks {
        format!("`{}`", g.encode_tick(&content))
    } else {
        let sep = if content.starts_with('(') { " " } else { "" };
        format!("$({}{})", sep, content)
    };
    let src = match place {
        0 => text.clone(),
        1 => format!("\"{}\"", text),
        2 => format!("${{x:-{}}}", text),
        3 => format!("a={} b", text),
        4 => format!(">{}", text),
        5 => format!("cat <<Q9\n{}\nQ9\n", text),
        6 => format!("case {} in a) ;; esac", text),
        7 => format!("for i in {}; do b; done", text),
        _ => format!("if a; then b {}'x'; fi", text),
    };
    set(cx, &src, m.cmds.len() > 1 || content.contains(|c| "\\$`\"'".contains(c)));
    cx.class(if ticks { "backquotes" } else { "$()" });
    let p = parse(&src);
    if let Some(e) = &p.err {
        return Err(format!("a valid program is rejected: {:?}", e));
    }
    // The outermost substitution is the first one visited last
    struct Outer(Option<Group>);
    impl Visit for Outer {
        fn simple(&mut self, s: &mut Sw) {
            match s {
                Sw::Tick(g) => self.0 = Some(g.clone()),
                Sw::Sub(b) => match &mut **b {
                    Sub::Cmd(g) => self.0 = Some(g.clone()),
                    Sub::Op(_, _, _, Some(w)) => self.word(w),
                    _ => {}
                },
                _ => {}
            }
        }
    }
    let mut o = Outer(None);
    o.group(&mut p.group());
    diff("substituted commands", &o.0, &Some(m.clone()))?;

    // On their own, text and all
    let alone = parse(&content);
    if let Some(e) = &alone.err {
        return Err(format!("{:?} on its own is rejected: {:?}", content, e));
    }
    diff("commands on their own", &alone.group(), &m)
}

fn c11_model(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let cfg = Cfg {
        cmdsub: 5,
        tick: 5,
        quote: 3,
        opsub: 2,
        depth: 5,
        ..Cfg::base()
    };
    model(t, cx, cfg, |_, s| s.contains('`') || s.contains("$("))
}

const C11_NEAR: &[&str] = &[
    "`", "$(", ")", "a", " ", "\\", "\\`", "\\\\", "$", "\"", "'", "{", "}", "${", "\n", ";",
    "(", "$((", "#", "|", "\\$", "1",
];

fn c11_long(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    long::check("11", C11_NEAR, t, cx)
}

fn c11_long_at(i: u64) -> Option<Recording> {
    long::recording("11", C11_NEAR, i)
}

fn c11_near(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let cfg = Cfg {
        cmdsub: 5,
        tick: 5,
        quote: 3,
        ..Cfg::base()
    };
    reference(t, cx, cfg, C11_NEAR, |_, s| s.contains('`') || s.contains("$("))
}

fn c11_all(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    const A: &[&str] = &["`", "$(", ")", "a", " ", "\\", "$", "\"", "'", ";", "{", "}"];
    let s = soup(t, A, 12);
    agree(cx, &s, |_, s| s.contains('`') || s.contains("$("))
}

// ---- C14

fn commented() -> Cfg {
    Cfg {
        layout: 6,
        compound: 9,
        func: 3,
        lists: 4,
        heredoc: 1,
        cmdsub: 1,
        ..Cfg::base()
    }
}

fn c14_model(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let mut g = G::new(t, commented());
    let m = g.program();
    let src = std::mem::take(&mut g.out);
    let doc = g.has_heredoc;
    let emitted = std::mem::take(&mut g.comments);
    set(cx, &src, !emitted.is_empty());
    let p = is_model(&src, &m)?;
    let got = comments_of(&p.group());
    if doc {
        let (mut a, mut b) = (got, emitted);
        a.sort();
        b.sort();
        diff("comments", &a, &b)
    } else {
        diff("comments in source order", &got, &emitted)
    }
}

fn c14_without(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let (src, m) = program(t, commented());
    let mut c = comments_of(&m);
    c.retain(|c| !c.is_empty());
    set(cx, &src, !c.is_empty());
    t.rewind(0);
    let (bare, _) = program(
        t,
        Cfg {
            comments: false,
            ..commented()
        },
    );
    let (p, q) = (parse(&src), parse(&bare));
    if p.err.is_some() || q.err.is_some() {
        return Err(format!("rejected: {:?} and {:?} ({:?})", p.err, q.err, bare));
    }
    diff("commands with comments", &strip(p.group()), &strip(q.group()))
}

const C14_NEAR: &[&str] = &[
    "#", "#c\n", "\n", " ", "a", ";", "&", "&&", "|", "{ ", "}", "(", ")", "if ", "then ", "fi",
    "case x in", "a) ", ";;", "esac", "for i", " in", "do ", "done", "f()", "\\", "'", "`",
    "$(", "function g",
];

fn c14_long(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    long::check("14", C14_NEAR, t, cx)
}

fn c14_long_at(i: u64) -> Option<Recording> {
    long::recording("14", C14_NEAR, i)
}

fn c14_near(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = near(t, commented(), C14_NEAR);
    set(cx, &src, false);
    let (p, r) = is_ref(&src)?;
    cx.nontrivial = !comments_of(&r.group()).is_empty();
    let _ = p;
    Ok(())
}

// ---- C15

fn c15(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let cfg = Cfg {
        layout: if t.n(2) == 0 { 3 } else { 6 },
        heredoc: if t.n(2) == 0 { 0 } else { 1 },
        ..Cfg::base()
    };
    let plain = if t.n(4) == 0 {
        Cfg { layout: 0, ..cfg }
    } else {
        cfg
    };
    let mark = t.mark();
    let (a, m) = program(t, size_cfg(cfg));
    t.rewind(mark);
    let (b, n) = program(t, size_cfg(plain));
    set(cx, &format!("{}\n--- versus ---\n{}", a, b), a != b);
    let (m, n) = (strip(m), strip(n));
    if m != n {
        // Layout choices must not have any influence on the structure
        panic!("generator: {:?} is unlike {:?}", m, n);
    }
    let build = |s: &str| -> Result<Vec<crate::ast::TCmd>, String> {
        let p = conch_parser::parse::DefaultParser::new(real::lex(&s));
        p.into_iter()
            .collect::<Result<Vec<_>, _>>()
            .map_err(|e| format!("{:?} is rejected: {:?}", s, e))
    };
    diff("commands built", &build(&a)?, &build(&b)?)
}

/// Rewrite the layout of an arbitrary accepted source, token by token.
fn c15_text(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let (src, _) = program(
        t,
        Cfg {
            layout: 2,
            heredoc: 0,
            quote: 0,
            tick: 0,
            esc: 0,
            comments: false,
            ..Cfg::base()
        },
    );
    // Without quotes, escapes and heredocs each blank is a mere blank, outside of `${}`
    let mut out = String::new();
    let mut curly = false;
    let mut lost = false;
    let toks = lexed(&src);
    for (i, tok) in toks.iter().enumerate() {
        match tok {
            Token::CurlyOpen if i > 0 && toks[i - 1] == Token::Dollar => {
                lost |= curly;
                curly = true;
            }
            Token::CurlyClose => curly = false,
            // More than a parameter: no telling where it ends
            Token::Dollar | Token::Whitespace(_) | Token::Newline => lost |= curly,
            _ => {}
        }
        match tok {
            Token::Whitespace(_) if !curly && !lost => {
                out.push_str(t.pick(&[" ", "\t", "   ", " \\\n ", " \\\n\\\n", "\u{2003}"]))
            }
            t => out.push_str(&refl::text(t)),
        }
    }
    set(cx, &format!("{}\n--- versus ---\n{}", src, out), src != out);
    let (p, q) = (parse(&src), parse(&out));
    diff("error", &q.err.is_some(), &p.err.is_some())?;
    diff("commands", &strip(q.group()), &strip(p.group()))
}

// ---- C16

fn complete_program(t: &mut Tape, min: u32) -> (String, Group) {
    let mut g = G::new(
        t,
        Cfg {
            budget: 12,
            ..Cfg::base()
        },
    );
    g.no_open_end = true;
    let m = g.group_top(min);
    (g.out, m)
}

fn c16_concat(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let n = 2 + t.n(2);
    let mut src = String::new();
    let mut want = Group::default();
    for i in 0..n {
        let (s, _) = complete_program(t, 0);
        let p = parse(&s);
        if let Some(e) = p.err {
            return Err(format!("a valid program is rejected: {:?} ({:?})", e, s));
        }
        want.cmds.extend(p.group().cmds);
        src.push_str(&s);
        if i + 1 < n {
            src.push('\n');
        }
    }
    set(cx, &src, want.cmds.len() > 1);
    let p = parse(&src);
    if let Some(e) = p.err {
        return Err(format!("a sequence of programs is rejected: {:?}", e));
    }
    diff("sequence", &strip(p.group()), &strip(want))
}

const CLOSERS: &[&str] = &["}", "do", "done", "fi", "then", "else", "elif", "esac", "in"];

fn c16_context(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let place = t.n(17);
    let glue = t.n(2);
    let mut s = if place == 14 {
        let mut g = G::new(t, Cfg { budget: 12, ..Cfg::base() });
        g.set_content(true);
        g.group(Term::Tick, 0, 3);
        g.out
    } else {
        complete_program(t, 1).0
    };
    if t.n(3) == 0 {
        // Words which would end commands somewhere else
        let ends: &[&str] = match place {
            0 | 10 => &["}"],
            2 => &["do"],
            3 | 8 | 15 | 16 => &["done"],
            4 | 7 => &["then"],
            5 => &["fi", "else", "elif"],
            6 => &["fi"],
            9 | 13 => &["esac"],
            _ => &[],
        };
        for _ in 0..=t.n(2) {
            let w = t.pick(CLOSERS);
            if !ends.contains(&w) {
                let after = t.pick(&["", " a", " >b", "; c", " | d", " && e"]);
                s = if place != 14 && t.n(2) == 0 {
                    format!("{}\n{}{}", s, w, after)
                } else {
                    format!("{}{}\n{}", w, after, s)
                };
                cx.class("closing words");
            }
        }
    }
    let p = parse(&s);
    if let Some(e) = p.err {
        return Err(format!("a valid program is rejected: {:?} ({:?})", e, s));
    }
    let want = strip(p.group());
    let sep = if glue == 0 { "\n" } else { " " };
    let (pre, post) = match place {
        0 => ("{", "}"),
        1 => ("(", ")"),
        2 => ("while", "do b; done"),
        3 => ("until b; do", "done"),
        4 => ("if", "then b; fi"),
        5 => ("if b; then", "fi"),
        6 => ("if b; then c; else", "fi"),
        7 => ("if b; then c; elif", "then d; fi"),
        8 => ("for i in a; do", "done"),
        9 => ("case a in b)", ";; esac"),
        10 => ("f() {", "}"),
        11 => ("function f (", ")"),
        12 => ("$(", ")"),
        13 => ("case a in b)", "esac"),
        14 => ("`", "`"),
        15 => ("while a; do", "done"),
        _ => ("for i; do", "done"),
    };
    // `$((` is something else
    let sep = if place == 12 { "\n" } else { sep };
    let src = if place == 14 {
        let mut g = G::new(t, Cfg::base());
        format!("`{}`", g.encode_tick(&s))
    } else {
        format!("{}{}{}\n{}", pre, sep, s, post)
    };
    set(cx, &src, true);
    let q = parse(&src);
    if let Some(e) = q.err {
        return Err(format!("rejected in this context: {:?}", e));
    }
    if q.cmds.len() != 1 {
        return Err(format!("{} commands", q.cmds.len()));
    }
    let compound = match &q.cmds[0].list.first.cmds[0].1 {
        PCmd::Compound(c) | PCmd::Func { body: c, .. } => c.kind.clone(),
        PCmd::Simple { args, .. } => match args.as_slice() {
            [Post::Word(Word(w))] => match w.as_slice() {
                [Part::S(Sw::Sub(b))] => match &**b {
                    Sub::Cmd(g) => Kind::Brace(g.clone()),
                    _ => return Err("no command substitution".to_owned()),
                },
                [Part::S(Sw::Tick(g))] => Kind::Brace(g.clone()),
                _ => return Err("no command substitution".to_owned()),
            },
            _ => return Err("no command substitution".to_owned()),
        },
    };
    let got = match (place, compound) {
        (2, Kind::Loop { guard, .. }) => guard,
        (4, Kind::If { conds, .. }) => conds[0].0.clone(),
        (5, Kind::If { conds, .. }) => conds[0].1.clone(),
        (6, Kind::If { els: Some(e), .. }) => e,
        (7, Kind::If { conds, .. }) if conds.len() == 2 => conds[1].0.clone(),
        (9, Kind::Case { arms, .. }) | (13, Kind::Case { arms, .. }) if arms.len() == 1 => {
            arms[0].body.clone()
        }
        (_, Kind::Brace(g)) | (_, Kind::Subshell(g)) => g,
        (_, Kind::Loop { body, .. }) | (_, Kind::For { body, .. }) => body,
        (_, k) => return Err(format!("unexpected structure {:?}", k)),
    };
    diff("commands in this context", &strip(got), &want)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            level: "exploration",
            rule: "programs of commands, separators, and-or lists and pipelines generated along \
                   with their meaning, near misses of them and all short sequences of their \
                   tokens compared with a reference parser; non-trivial: has two commands, a \
                   list, a pipeline or a negation, or is rejected",
            assumptions: &[],
            parts: c04::parts(350_000, 400_000, 1_118_480),
        },
        Prop {
            id: "C05",
            level: "exploration",
            rule: "as C04, for compound commands; non-trivial: has one, or is rejected",
            assumptions: &[],
            parts: c05::parts(250_000, 400_000, 954_304),
        },
        Prop {
            id: "C06",
            level: "exploration",
            rule: "as C04, for function definitions; non-trivial: has one, or is rejected",
            assumptions: &[],
            parts: c06::parts(300_000, 400_000, 1_118_480),
        },
        Prop {
            id: "C07",
            level: "exploration",
            rule: "as C04, for simple commands; non-trivial: has an assignment, a leading \
                   redirection or an argument, or is rejected",
            assumptions: &[],
            parts: c07::parts(350_000, 400_000, 1_118_480),
        },
        Prop {
            id: "C08",
            level: "exploration",
            rule: "as C04, for redirections; non-trivial: has one, or is rejected",
            assumptions: &[],
            parts: c08::parts(350_000, 400_000, 406_900),
        },
        Prop {
            id: "C09",
            level: "exploration",
            rule: "as C04, for words; non-trivial: has quotes, escapes or special characters, or \
                   is rejected",
            assumptions: &[],
            parts: c09::parts(350_000, 400_000, 406_900),
        },
        Prop {
            id: "C10",
            level: "exploration",
            rule: "as C04, for parameters and their substitutions; non-trivial: has a `$`, or is \
                   rejected",
            assumptions: &[],
            parts: c10::parts(350_000, 400_000, 954_304),
        },
        Prop {
            id: "C11",
            level: "exploration",
            rule: "commands generated along with their meaning, alone and within both kinds of \
                   substitution at nine places; raw backquoted text against `$()` of the text \
                   with a level of backslashes removed; text escaped for up to three levels; models \
                   and reference as in C04; \
                   non-trivial: has a substitution with some content, or is rejected",
            assumptions: &["known findings are excluded: see KNOWN_FINDINGS"],
            parts: vec![
                enumerated("sequences", 271_453, c11_all, sequences::<12>),
                part("same", 300_000, c11_same),
                part("raw", 600_000, c11_raw),
                part("nested", 300_000, c11_nested),
                part("model", 200_000, c11_model),
                part("near", 250_000, c11_near),
                enumerated("long", long::cases("11", C11_NEAR), c11_long, c11_long_at),
            ],
        },
        Prop {
            id: "C12",
            level: "exploration",
            rule: "as C04, for here-documents; non-trivial: has one, or is rejected",
            assumptions: &[],
            parts: c12::parts(350_000, 350_000, 406_900),
        },
        Prop {
            id: "C13",
            level: "exploration",
            rule: "expression trees printed with as few or as many parentheses, blanks and \
                   spellings of numbers as chance has it; near misses and all short sequences of \
                   tokens compared with a reference parser; literals of all magnitudes; \
                   non-trivial: has an arithmetic substitution, or is rejected",
            assumptions: &[],
            parts: {
                let mut p = c13::parts(250_000, 150_000, 1);
                p.remove(0);
                p.push(part("expressions", 600_000, c13_expr));
                p.push(part("numbers", 200_000, c13_number));
                p.push(enumerated("sequences", 475_255, c13_seq, sequences::<26>));
                p
            },
        },
        Prop {
            id: "C14",
            level: "exploration",
            rule: "programs full of comments against their model, in source order, and against \
                   their versions without comments; near misses against the reference parser; \
                   non-trivial: has a comment",
            assumptions: &["known findings are excluded: see KNOWN_FINDINGS"],
            parts: vec![
                part("model", 250_000, c14_model),
                part("without", 200_000, c14_without),
                part("near", 250_000, c14_near),
                enumerated("long", long::cases("14", C14_NEAR), c14_long, c14_long_at),
            ],
        },
        Prop {
            id: "C15",
            level: "exploration",
            rule: "one program written down with two different layouts, and programs with their \
                   blanks replaced; non-trivial: the sources differ",
            assumptions: &[],
            parts: vec![
                part("layouts", 350_000, c15),
                part("blanks", 200_000, c15_text),
            ],
        },
        Prop {
            id: "C16",
            level: "exploration",
            rule: "2-3 generated programs one after the other, or one in each of 17 contexts, with words which end commands elsewhere; \
                   non-trivial: has more than one command, or is in a context",
            assumptions: &[],
            parts: vec![
                part("sequence", 200_000, c16_concat),
                part("context", 300_000, c16_context),
            ],
        },
    ]
}
