//! What real shells make of a program, compared with what they make of its tree.

use super::*;
use crate::shell;
use crate::unparse::unparse;
use conch_parser::ast::builder::StringBuilder;
use conch_parser::ast::TopLevelCommand;
use conch_parser::parse::Parser;

fn tree(src: &str) -> Result<Vec<TopLevelCommand<String>>, String> {
    let mut v = Vec::new();
    let mut p = Parser::with_builder(Lexer::new(src.chars()), StringBuilder::new());
    loop {
        match p.complete_command() {
            Ok(Some(c)) => v.push(c),
            Ok(None) => return Ok(v),
            Err(e) => return Err(format!("{:?}", e)),
        }
    }
}

/// Without the braces around parameters
fn no_braces(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("${") {
        let (a, b) = rest.split_at(i + 2);
        let n = b.find('}').unwrap_or(b.len());
        out.push_str(&a[..i + 1]);
        let name = &b[..n];
        if name.len() == 1 || name.chars().all(|c| c == '_' || c.is_alphanumeric()) {
            out.push_str(name);
            rest = &b[(n + 1).min(b.len())..];
        } else {
            out.push('{');
            rest = b;
        }
    }
    out + rest
}

/// What has a meaning of its own in bash
const BASH: &[&str] = &[
    "&>", "|&", "[[", "((", "<(", ">(", "<<<", ";&", "$'", "$\"", "=(", "$[", "$$(", "$${", "$$`",
];

/// All of the shells must see a difference, as they have their own odd sides.
fn compare(cx: &mut Cx, src: &str, mode: &str, plain: bool, sh: &[&str]) -> Result<(), String> {
    let array = src
        .as_bytes()
        .windows(2)
        .any(|w| w[1] == b'[' && (w[0] == b'_' || w[0].is_ascii_alphanumeric()));
    let text = src.replace("$((", "");
    if array
        || plain && ["${0", "$-", "${-"].iter().any(|s| src.contains(s))
        || BASH.iter().any(|b| text.contains(b))
    {
        cx.excluded = true;
        return Ok(());
    }
    let tree = tree(src).map_err(|e| format!("a valid program is rejected: {}", e))?;
    let text = match unparse(&tree, plain) {
        Some(t) => t,
        None => {
            cx.excluded = true;
            return Ok(());
        }
    };
    let shell = match shell::get() {
        Some(s) => s,
        None => {
            cx.class("there is no shell");
            cx.excluded = true;
            return Ok(());
        }
    };
    let mut found = String::new();
    for sh in sh {
        let r = match shell.run(sh, mode, &[src, &text]) {
            Some(r) => r,
            None => {
                cx.class("no answer");
                cx.nontrivial = false;
                return Ok(());
            }
        };
        if r[0] == b"no syntax" {
            cx.class("rejected by the shell");
            cx.nontrivial = false;
            return Ok(());
        }
        let s = |b: &[u8]| {
            let s = String::from_utf8_lossy(b).into_owned();
            if plain {
                return no_braces(&s);
            }
            // Messages of the shell itself mention lines and parts of the source
            let own = |l: &&str| !l.contains("sh: ") && !l.contains("environment: ");
            s.lines().filter(own).collect::<Vec<_>>().join("\n")
        };
        let (a, b) = (s(&r[0]), s(&r[1]));
        // Nor may what became of such messages in another command
        let message = |s: &str| ["environment:", "sh:", "eval:"].iter().any(|m| s.contains(m));
        if !plain && (message(&a) || message(&b)) {
            cx.class("messages of the shell");
            cx.nontrivial = false;
            return Ok(());
        }
        if a == b {
            cx.class(if found.is_empty() { "compared" } else { "one of them differs" });
            if !found.is_empty() && std::env::var("SHOW").is_ok() {
                eprintln!("----\n{}\n====\n{}", src, found);
            }
            return Ok(());
        }
        found += &format!("{}: source {:?} tree {:?} ", sh, a, b);
    }
    Err(format!("{}{}", found, text))
}

/// A difference has to be there a second time.
fn compare_twice(cx: &mut Cx, src: &str, mode: &str, plain: bool, sh: &[&str]) -> Result<(), String> {
    compare(cx, src, mode, plain, sh).or_else(|_| compare(cx, src, mode, plain, sh))
}

fn structure(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let cfg = Cfg {
        budget: 24,
        func: 2,
        heredoc: 0,
        esc: 0,
        quote: 0,
        param: 0,
        opsub: 0,
        cmdsub: 0,
        tick: 0,
        arith: 0,
        unicode: false,
        big: 0,
        common: true,
        ..Cfg::base()
    };
    let mut g = G::new(t, cfg);
    let _ = g.group_top(1);
    let src = g.out;
    set(cx, &src, true);
    compare_twice(cx, &src, "d", true, &["/bin/bash"])
}

/// Operators, reserved words, and what is around them
const OPS: &[&str] = &[
    "a", "b", " ", " ", "\n", "\n", "{", "}", "(", ")", "#c\n", ";", ";;", "&", "&&", "|", "||", "<a ",
    ">b ", "2>", ">&2 ", "<&- ", ">>", "!", " ! ", "a=", "a=b ", "if ", "then ", "elif ", "else ", " fi",
    "for ", "for x in ", " in ", "do ", " done", "while ", "until ", "case a in ", "a) ", " esac",
    "foo()", "function ", "a|b)", "\na\n", "; ", " & ",
];

fn edited_source(t: &mut Tape, words: u32) -> String {
    let cfg = Cfg {
        budget: 16,
        func: 2,
        heredoc: 0,
        esc: 0,
        quote: words,
        param: words,
        opsub: 0,
        cmdsub: 2 * words,
        tick: 0,
        arith: 0,
        unicode: false,
        big: 0,
        common: true,
        ..Cfg::base()
    };
    let mut g = G::new(t, cfg);
    let _ = g.group_top(1);
    let src = g.out;
    // Escaped newlines and carriage returns are different from the shells'
    mutate(t, &src, OPS).replace('\r', "").replace("\\\n", " ").replace('\\', "")
}

/// Programs which nobody had in mind, as long as they are some.
fn edited(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = edited_source(t, 0);
    set(cx, &src, true);
    let found = format!("{:?}", tree(&src));
    // A } could end the function by which bash is shown the source; 65536> is a matter of taste
    let digits = src.as_bytes().windows(4).any(|w| w.iter().all(u8::is_ascii_digit));
    let odd = digits || src.contains(|c| "\\$`'\"".contains(c)) || src.contains("<<");
    if found.starts_with("Err") || found.contains("Literal(\"}") || odd {
        cx.nontrivial = false;
        return Ok(());
    }
    compare_twice(cx, &src, "d", true, &["/bin/bash"])
}

/// What all shells agree to be a program is one, and the other way round.
pub fn verdicts(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = edited_source(t, 1);
    set(cx, &src, true);
    let shell = match shell::get() {
        Some(s) => s,
        None => {
            cx.class("there is no shell");
            cx.excluded = true;
            return Ok(());
        }
    };
    if BASH.iter().any(|b| src.contains(b)) || src.contains("function") || src.contains('`') {
        cx.excluded = true;
        return Ok(());
    }
    let found = tree(&src);
    let mut said = String::new();
    for sh in [&["/bin/dash"] as &[&str], &["/bin/bash", "--posix"], &["/bin/bash"]] {
        match shell.syntax(sh, &src) {
            Some((ok, text)) if ok != found.is_ok() => said += &text,
            Some(_) => {
                cx.class(match (said.is_empty(), &found) {
                    (true, Ok(_)) => "accepted",
                    (true, Err(_)) => "rejected",
                    _ => "one of them differs",
                });
                return Ok(());
            }
            None => {
                cx.class("no answer");
                cx.nontrivial = false;
                return Ok(());
            }
        }
    }
    // See DESIGN.md
    let followed = match &found {
        // Words right behind a compound command; shells look into `${...}` only when they run it
        Err(e) => e.starts_with("BadFd") || src.contains("${"),
        // Reserved words where there is nothing they could belong to, commands in front of a
        // subshell, targets of redirections which could be descriptors, and oddities of shells
        Ok(tree) => {
            let words = [
                "fi", "do", "done", "then", "else", "elif", "esac", "in", "{", "}", "for", "if",
                "while", "until", "case", "function", "!",
            ];
            let tree = format!("{:?}", tree);
            let odd = ["10", "(", "for"];
            words.iter().any(|w| tree.contains(&format!("Literal(\"{}", w)))
                || odd.iter().any(|w| src.contains(w))
                || said.contains("redirection unexpected")
        }
    };
    if followed {
        cx.class("as it is known to be");
        return Ok(());
    }
    match found {
        Ok(_) => Err(format!("accepted, but shells say {}", said)),
        Err(e) => Err(format!("{}, but shells accept it", e)),
    }
}

fn running(t: &mut Tape, cx: &mut Cx, cfg: Cfg, sh: &[&str]) -> Result<(), String> {
    let cfg = Cfg {
        func: 0,
        unicode: false,
        big: 0,
        common: true,
        run: true,
        ..cfg
    };
    let mut g = G::new(t, cfg);
    let _ = g.group_top(1);
    let src = g.out;
    set(cx, &src, true);
    compare_twice(cx, &src, "e", false, sh)
}

fn words(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let cfg = Cfg {
        budget: 10,
        compound: 0,
        heredoc: 0,
        redir: 0,
        lists: 0,
        cmds: 1,
        comments: false,
        ..Cfg::base()
    };
    running(t, cx, cfg, &["/bin/bash"])
}

fn docs(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let cfg = Cfg {
        budget: 14,
        compound: 3,
        heredoc: 20,
        arith: 0,
        redir: 6,
        lists: 1,
        ..Cfg::base()
    };
    running(t, cx, cfg, &["/bin/dash", "/bin/bash"])
}

fn programs(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let cfg = Cfg {
        budget: 18,
        ..Cfg::base()
    };
    running(t, cx, cfg, &["/bin/bash", "/bin/dash"])
}

// What shells cannot tell apart, or do not agree on, is compared with models and the reference.

fn model(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let (src, m) = program(t, size_cfg(Cfg::base()));
    set(cx, &src, src.len() > 20);
    is_model(&src, &m).map(drop)
}

fn reference(t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let src = any_source(t, Cfg::base());
    set(cx, &src, false);
    let (_, r) = is_ref(&src)?;
    cx.nontrivial = r.err.is_none() && src.len() > 10;
    cx.class(if r.err.is_none() { "accepted" } else { "rejected" });
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        level: "exploration",
        rule: "valid programs within what shells agree on, compared with a program written out \
               from nothing but their trees: by the structure which bash finds in both of them \
               (for programs with operators and reserved words at odd places as well), or by what both of them do in bash and dash; and any sources, by their models and \
               a reference parser; non-trivial: both were compared, and a valid program of some \
               size for the others",
        assumptions: &[
            "bash and dash are right wherever both of them (or bash, where there is no dispute) \
             see a difference between a source and its tree",
            "programs are run without rights, external commands, background jobs or loops",
        ],
        parts: vec![
            part("structure", 20_000, structure),
            part("edited", 40_000, edited),
            part("words", 20_000, words),
            part("docs", 10_000, docs),
            part("programs", 10_000, programs),
            part("model", 150_000, model),
            part("reference", 200_000, reference),
        ],
    }]
}
