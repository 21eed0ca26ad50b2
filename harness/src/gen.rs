//! Grammar-directed generator: writes a program and, at the same time, the model of what it
//! means. Which constructs appear is decided by the structure stream of the tape, how they
//! are spelled out (blanks, newlines, comments, separators) by its layout stream, so playing
//! the same structure with another layout gives another spelling of the same program.

use crate::model::*;
use crate::tape::Tape;
use conch_parser::ast::{Arithmetic, DefaultArithmetic as Ar, DefaultParameter as Param, Parameter};

/// How likely each feature is. All weights are relative.
#[derive(Debug, Clone, Copy)]
pub struct Cfg {
    pub budget: i32,
    pub depth: u32,
    pub cmds: u32,
    pub simple: u32,
    pub compound: u32,
    pub func: u32,
    pub heredoc: u32,
    pub redir: u32,
    pub assign: u32,
    pub lists: u32,
    pub lit: u32,
    pub esc: u32,
    pub quote: u32,
    pub param: u32,
    pub opsub: u32,
    pub cmdsub: u32,
    pub tick: u32,
    pub arith: u32,
    /// Richness of the layout: 0 is plain
    pub layout: u32,
    pub comments: bool,
    pub unicode: bool,
    /// Longest run of arguments
    pub args: u32,
    /// How many in 64 programs are large in one respect
    pub big: u32,
    /// Only what shells agree on
    pub common: bool,
    /// To be run: nothing which may take forever, or does not have the same outcome every time
    pub run: bool,
}

/// What there may be a lot of in a program.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dim {
    Cmds,
    AndOr,
    Pipe,
    Args,
    Vars,
    Io,
    Elif,
    ForWords,
    Arms,
    Pats,
    Parts,
    Literal,
    Name,
    Quoted,
    Interp,
    DocLines,
    DocLine,
    Docs,
    Comment,
    Newlines,
    Blanks,
    Zeros,
    Arith,
    Depth,
    WordDepth,
}

const DIMS: &[Dim] = &[
    Dim::Cmds,
    Dim::AndOr,
    Dim::Pipe,
    Dim::Args,
    Dim::Vars,
    Dim::Io,
    Dim::Elif,
    Dim::ForWords,
    Dim::Arms,
    Dim::Pats,
    Dim::Parts,
    Dim::Literal,
    Dim::Name,
    Dim::Quoted,
    Dim::Interp,
    Dim::DocLines,
    Dim::DocLine,
    Dim::Docs,
    Dim::Comment,
    Dim::Newlines,
    Dim::Blanks,
    Dim::Zeros,
    Dim::Arith,
    Dim::Depth,
    Dim::WordDepth,
];

impl Cfg {
    pub fn base() -> Cfg {
        Cfg {
            budget: 24,
            depth: 4,
            cmds: 3,
            simple: 10,
            compound: 6,
            func: 1,
            heredoc: 1,
            redir: 3,
            assign: 2,
            lists: 3,
            lit: 10,
            esc: 2,
            quote: 3,
            param: 3,
            opsub: 1,
            cmdsub: 1,
            tick: 1,
            arith: 1,
            layout: 3,
            comments: true,
            unicode: true,
            args: 4,
            big: 3,
            common: false,
            run: false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Last {
    /// A new word may start right here
    Open,
    /// A word which must be separated from another one
    Word,
    /// A word which must be followed by a true delimiter
    Strict,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Term {
    /// A reserved word or `}`
    Kw,
    Paren,
    DSemi,
    Eof,
    /// The end of backquotes
    Tick,
}

struct Doc {
    text: String,
    delim_line: String,
}

pub struct G<'a> {
    pub t: &'a mut Tape,
    pub cfg: Cfg,
    pub out: String,
    last: Last,
    pend: Vec<Doc>,
    /// Heredocs may be pending, as far as the structure tells
    maybe_pend: bool,
    /// Within `"${a-`, where shells do not agree on quotes
    bare: bool,
    /// Text must be balanced as seen by a scan for a closing backquote or paren
    bal: bool,
    depth: u32,
    budget: i32,
    pub ends: Vec<usize>,
    /// Spans of complete top level commands
    pub starts: Vec<usize>,
    pub has_heredoc: bool,
    pub has_tick: bool,
    pub has_comment: bool,
    pub eof_heredoc: bool,
    /// Text with newlines which are not the end of a command, comment or heredoc line
    pub multiline: bool,
    top: bool,
    /// Where a name ends which following text might extend
    open_name: usize,
    in_tick: bool,
    in_dq: bool,
    in_curly: bool,
    /// No quotes at all: an enclosing backquote looks for quotes without
    /// being aware of escaped backquotes (known finding)
    plain: bool,
    /// The program ends with a comment without a newline
    pub open_comment: bool,
    /// All comments in the order in which they are written
    pub comments: Vec<String>,
    /// The program must be complete, so that another one may follow on the next line
    pub no_open_end: bool,
    /// What there is a lot of, how much, and how often
    big: Option<(Dim, u32, u32)>,
}

const RESERVED: &[&str] = &[
    "for", "case", "if", "while", "until", "function", "then", "do", "done", "fi", "else", "elif",
    "esac",
];

const NAMES: &[&str] = &[
    "a", "b", "foo", "bar", "x1", "_y", "Z", "echo", "in", "qux_2", "e", "\u{e9}t\u{e9}", "\u{4e2d}",
];

impl<'a> G<'a> {
    pub fn new(t: &'a mut Tape, cfg: Cfg) -> G<'a> {
        let mut cfg = cfg;
        let mut big = None;
        if cfg.big > 0 && t.chance(cfg.big, 64) {
            let dim = t.of(DIMS);
            let most = t.of(&[6, 12, 30, 60, 110, 150, 280]);
            let mut n = 3 + t.n(most);
            let times = 1 + t.n(2);
            match dim {
                Dim::Depth => {
                    cfg.depth = n.min(24);
                    cfg.budget = 4 * cfg.depth as i32;
                    cfg.compound = cfg.compound.max(2) * 6;
                    cfg.tick = 0;
                    cfg.cmds = 2;
                }
                Dim::WordDepth => {
                    cfg.depth = n.min(16);
                    cfg.budget = 6 * cfg.depth as i32;
                    cfg.opsub *= 8;
                    cfg.cmdsub *= 8;
                    cfg.quote *= 3;
                    cfg.tick = 0;
                    cfg.cmds = 1;
                }
                Dim::Docs => cfg.heredoc *= 20,
                Dim::Literal
                | Dim::Name
                | Dim::Quoted
                | Dim::DocLine
                | Dim::Comment
                | Dim::Newlines
                | Dim::Blanks
                | Dim::Zeros => {
                    if t.chance(1, 4) {
                        n *= 5;
                    }
                }
                _ => {}
            }
            big = Some((dim, n, times));
        }
        G {
            budget: cfg.budget,
            t,
            cfg,
            big,
            out: String::new(),
            last: Last::Open,
            pend: Vec::new(),
            maybe_pend: false,
            bare: false,
            bal: false,
            depth: 0,
            ends: Vec::new(),
            starts: Vec::new(),
            has_heredoc: false,
            has_tick: false,
            has_comment: false,
            eof_heredoc: false,
            multiline: false,
            top: false,
            open_name: 0,
            in_tick: false,
            in_dq: false,
            in_curly: false,
            plain: false,
            open_comment: false,
            comments: Vec::new(),
            no_open_end: false,
        }
    }

    /// How many there shall be, if there are to be a lot of them here.
    fn lots(&mut self, dim: Dim) -> Option<u32> {
        match &mut self.big {
            Some((d, n, times)) if *d == dim && *times > 0 => {
                *times -= 1;
                Some(*n)
            }
            _ => None,
        }
    }

    // ---- layout

    fn put(&mut self, s: &str, last: Last) {
        self.out.push_str(s);
        self.last = last;
    }

    fn fancy(&mut self, a: u32, b: u32) -> bool {
        self.cfg.layout > 0 && self.t.lchance((a * self.cfg.layout).min(b), b)
    }

    fn blank(&mut self) {
        if self.cfg.layout > 0 {
            if let Some(n) = self.lots(Dim::Blanks) {
                for _ in 0..n {
                    self.short_blank();
                }
            }
        }
        self.short_blank();
    }

    fn short_blank(&mut self) {
        let n = match self.cfg.layout {
            0 => 1,
            _ => 9,
        };
        let s = match self.t.l(n) {
            0 | 1 => " ",
            2 => "  ",
            3 => "\t",
            4 => " \\\n",
            5 => "\t\\\n  ",
            6 => " \\\n\\\n",
            7 if self.last != Last::Strict && !self.cfg.common => "\\\n",
            7 => " ",
            _ if self.cfg.unicode => " \u{2003}",
            _ => " ",
        };
        self.put(s, Last::Open);
    }

    /// A blank where one is needed.
    fn sp(&mut self) {
        if self.last != Last::Open || self.fancy(1, 20) {
            self.blank();
        }
    }

    /// A blank where none is needed.
    fn osp(&mut self) {
        if self.cfg.layout == 0 || self.t.lchance(1, 2) {
            self.blank();
        }
    }

    fn real_blank(&mut self) {
        let s = self.t.lof(&[" ", "\t", "  "]);
        self.put(s, Last::Open);
    }

    fn op(&mut self, s: &str) {
        self.osp_before_op(s);
        self.put(s, Last::Open);
    }

    fn osp_before_op(&mut self, s: &str) {
        let glued = s.starts_with(';') && self.out.ends_with(';');
        if glued {
            self.real_blank();
        } else if self.fancy(2, 10) || self.cfg.layout == 0 {
            self.blank();
        }
    }

    fn kw(&mut self, s: &str) {
        self.sp();
        self.put(s, Last::Strict);
    }

    fn comment_text(&mut self) -> String {
        let mut s = String::from("#");
        let mut n = self.t.l(8);
        if let Some(k) = self.lots(Dim::Comment) {
            n = k;
        }
        for _ in 0..n {
            let c = if self.bal {
                self.t.lof(&['a', ' ', '1', '#', '=', '.'])
            } else {
                self.t.lof(&[
                    'a', ' ', '1', '#', '\'', '"', '`', '$', '(', ')', '{', '}', '\\', ';', '&',
                    '|', '<', '>', '\t', '\u{e9}', '-', '!', '\r',
                ])
            };
            s.push(c);
        }
        s
    }

    /// A significant newline, perhaps with a comment.
    fn nl(&mut self) -> Nl {
        let mut cmt = None;
        if self.cfg.comments && self.fancy(1, 10) {
            self.sp();
            let c = self.comment_text();
            self.out.push_str(&c);
            self.has_comment = true;
            self.comments.push(c.clone());
            cmt = Some(c);
        } else if self.fancy(1, 12) {
            self.blank();
        }
        self.out.push('\n');
        self.flush(false);
        self.last = Last::Open;
        cmt
    }

    fn flush(&mut self, eof: bool) {
        let n = self.pend.len();
        for (i, d) in std::mem::take(&mut self.pend).into_iter().enumerate() {
            self.out.push_str(&d.text);
            if eof && !self.no_open_end && i + 1 == n && self.t.lchance(1, 3) {
                self.eof_heredoc = true;
                if self.t.l(2) == 1 {
                    // The delimiter may lack its newline
                    let l = d.delim_line.trim_end_matches('\n').to_owned();
                    self.out.push_str(&l);
                }
            } else {
                self.out.push_str(&d.delim_line);
            }
        }
    }

    /// Zero or more newlines.
    fn linebreak(&mut self) -> Vec<Nl> {
        let mut v = Vec::new();
        if self.cfg.layout == 0 {
            return v;
        }
        let lots = self.lots(Dim::Newlines).unwrap_or(0) as usize;
        while v.len() < lots || v.len() < 4 && self.fancy(1, 9) {
            v.push(self.nl());
        }
        v
    }

    fn maybe_nl(&mut self) -> Option<Nl> {
        if self.fancy(1, 6) {
            Some(self.nl())
        } else {
            None
        }
    }

    // ---- commands

    pub fn program(&mut self) -> Group {
        self.top = true;
        let g = self.group(Term::Eof, 0, self.cfg.cmds + 1);
        if !self.eof_heredoc && !self.open_comment && self.fancy(1, 10) {
            self.blank();
        }
        g
    }

    /// The commands of a program, of which there are at least so many.
    pub fn group_top(&mut self, min: u32) -> Group {
        self.top = true;
        self.group(Term::Eof, min, self.cfg.cmds + 1)
    }

    /// What follows are the contents of a substitution.
    pub fn set_content(&mut self, ticks: bool) {
        self.bal = ticks;
        self.in_tick = ticks;
        self.last = Last::Open;
    }

    fn group_size(&mut self, min: u32, max: u32) -> u32 {
        if let Some(n) = self.lots(Dim::Cmds) {
            self.budget = self.budget.min(6);
            return n;
        }
        if self.budget <= 0 {
            return min;
        }
        min + self.t.n(max.max(min) - min + 1)
    }

    pub fn group(&mut self, term: Term, min: u32, max: u32) -> Group {
        let top = std::mem::replace(&mut self.top, false);
        let n = self.group_size(min, max);
        let mut g = Group::default();
        // Newlines may follow without being taken for something else
        let mut fresh = true;
        for i in 0..n {
            let pre = if fresh { self.linebreak() } else { Vec::new() };
            if top {
                self.starts.push(self.out.len());
            }
            let list = self.list();
            let last = i + 1 == n;
            let amp = self.t.chance(1, 8) && !self.cfg.run;

            // Must pending heredocs be dealt with now?
            let force = self.maybe_pend
                && if last {
                    term == Term::Eof || term == Term::Tick || term == Term::Paren
                } else {
                    self.t.chance(3, 4)
                };
            let eof = top && last;
            let (sep, cmt) = self.separator(term, last, amp, force, eof);
            if force {
                self.maybe_pend = false;
            }
            fresh = cmt.is_some();
            g.cmds.push(Cmd {
                pre,
                list,
                sep,
                cmt,
            });
            if top {
                self.ends.push(self.out.len());
            }
        }
        if fresh && !(top && self.eof_heredoc) {
            g.trailing = self.linebreak();
            if top && !self.no_open_end && self.cfg.comments && self.fancy(1, 20) {
                // The very last comment need not be ended by a newline
                self.sp();
                let c = self.comment_text();
                self.out.push_str(&c);
                self.has_comment = true;
                self.open_comment = true;
                self.comments.push(c.clone());
                g.trailing.push(Some(c));
            }
        }
        g
    }

    fn separator(
        &mut self,
        term: Term,
        last: bool,
        amp: bool,
        force: bool,
        eof: bool,
    ) -> (Sep, Option<Nl>) {
        let nl = |g: &mut Self| {
            if eof && g.pend.len() > 0 {
                g.out.push('\n');
                g.flush(true);
                g.last = Last::Open;
                None
            } else {
                g.nl()
            }
        };
        if amp {
            self.op("&");
        } else {
            let may_omit = last && term != Term::Kw && !force;
            let pick = if may_omit {
                self.t.lof(&[2, 1, 0])
            } else {
                self.t.lof(&[1, 0])
            };
            match pick {
                0 => self.op(";"),
                1 => return (Sep::Newline, Some(nl(self))),
                _ => return (Sep::Other, None),
            }
        }
        let cmt = if force {
            Some(nl(self))
        } else {
            self.maybe_nl()
        };
        (if amp { Sep::Amp } else { Sep::Semi }, cmt)
    }

    fn list(&mut self) -> List {
        let first = self.pipeline();
        let mut rest = Vec::new();
        let lots = self.lots(Dim::AndOr).unwrap_or(0) as usize;
        while rest.len() < lots
            || rest.len() < 4 && self.budget > 0 && self.t.chance(self.cfg.lists.min(9), 12)
        {
            let and = self.t.n(2) == 0;
            self.op(if and { "&&" } else { "||" });
            let nls = self.linebreak();
            self.osp();
            rest.push((nls, and, self.pipeline()));
        }
        List { first, rest }
    }

    fn pipeline(&mut self) -> Pipe {
        let bang = self.t.chance(1, 10);
        if bang {
            self.sp();
            self.put("!", Last::Strict);
        }
        let mut cmds = Vec::new();
        let lots = self.lots(Dim::Pipe).unwrap_or(0) as usize;
        loop {
            let c = self.pcmd();
            if cmds.len() < lots
                || cmds.len() < 3 && self.budget > 0 && self.t.chance(self.cfg.lists.min(9), 14)
            {
                self.op("|");
                let nls = self.linebreak();
                self.osp();
                cmds.push((nls, c));
            } else {
                cmds.push((Vec::new(), c));
                return Pipe { bang, cmds };
            }
        }
    }

    pub fn pcmd(&mut self) -> PCmd {
        self.budget -= 1;
        let c = self.cfg;
        if self.budget <= 0 || self.depth >= c.depth {
            return self.simple();
        }
        match self.t.weighted(&[c.simple, c.compound, c.func]) {
            0 => self.simple(),
            1 => PCmd::Compound(self.compound()),
            _ => self.func(),
        }
    }

    pub fn func(&mut self) -> PCmd {
        self.sp();
        let kw = self.t.chance(1, 2);
        let mut name = self.name();
        if RESERVED.contains(&name.as_str()) {
            name.push('_');
        }
        if kw {
            self.put("function", Last::Strict);
            self.blank();
        }
        self.put(&name, Last::Strict);
        let parens = !kw || self.t.chance(1, 2);
        let mut cmts = Vec::new();
        let body;
        if parens {
            if self.fancy(2, 10) {
                self.real_blank();
                if kw && self.fancy(1, 4) {
                    self.blank();
                }
            }
            self.put("(", Last::Open);
            if self.fancy(1, 6) {
                self.blank();
            }
            self.put(")", Last::Open);
            cmts = self.linebreak();
            self.osp();
            body = self.compound();
        } else {
            let on_own_line = self.cfg.layout > 0 && self.t.lchance(1, 3);
            if on_own_line {
                if self.fancy(1, 4) {
                    self.real_blank();
                }
                cmts.push(self.nl());
                cmts.extend(self.linebreak());
                self.osp();
            } else {
                self.real_blank();
                self.osp();
            }
            body = self.compound();
        }
        PCmd::Func { name, cmts, body }
    }

    pub fn compound(&mut self) -> Compound {
        self.depth += 1;
        let kind = match self.t.n(7) {
            0 => self.brace(),
            // Shells do start the body of a heredoc at a newline within parens
            1 if !(self.cfg.common && !self.pend.is_empty()) => self.subshell(),
            2 => self.if_cmd(),
            3 | 4 if !self.cfg.run => self.loop_cmd(),
            6 => self.case_cmd(),
            _ => self.for_cmd(),
        };
        self.depth -= 1;
        let mut io = Vec::new();
        let lots = self.lots_of_io() as usize;
        while io.len() < lots || io.len() < 3 && self.t.chance(self.cfg.redir.min(6), 12) {
            io.push(self.redir());
        }
        Compound { kind, io }
    }

    fn lots_of_io(&mut self) -> u32 {
        match self.lots(Dim::Io) {
            Some(n) => n,
            None => self.lots(Dim::Docs).unwrap_or(0).min(40),
        }
    }

    pub fn brace(&mut self) -> Kind {
        self.kw("{");
        let g = self.group(Term::Kw, 1, self.cfg.cmds);
        self.kw("}");
        Kind::Brace(g)
    }

    pub fn subshell(&mut self) -> Kind {
        // `$((` would start an arithmetic substitution
        if self.out.ends_with("$(") {
            self.real_blank();
        } else if self.fancy(1, 8) {
            self.sp();
        }
        let g = self.parens(1);
        Kind::Subshell(g)
    }

    fn parens(&mut self, min: u32) -> Group {
        let was_bal = self.bal;
        // Newlines within the parens do not start the bodies of heredocs before them
        self.bal |= self.maybe_pend;
        let pend = std::mem::take(&mut self.pend);
        let mp = std::mem::replace(&mut self.maybe_pend, false);
        self.put("(", Last::Open);
        let g = self.group(Term::Paren, min, self.cfg.cmds);
        if self.fancy(1, 6) {
            self.blank();
        }
        self.put(")", Last::Open);
        self.bal = was_bal;
        debug_assert!(self.pend.is_empty());
        self.pend = pend;
        self.maybe_pend = mp;
        g
    }

    pub fn if_cmd(&mut self) -> Kind {
        self.kw("if");
        let mut conds = Vec::new();
        let lots = self.lots(Dim::Elif).unwrap_or(0) as usize;
        loop {
            let guard = self.group(Term::Kw, 1, 2);
            self.kw("then");
            let body = self.group(Term::Kw, 1, 2);
            conds.push((guard, body));
            if conds.len() < lots || conds.len() < 3 && self.budget > 0 && self.t.chance(1, 4) {
                self.kw("elif");
            } else {
                break;
            }
        }
        let els = if self.t.chance(1, 2) {
            self.kw("else");
            Some(self.group(Term::Kw, 1, 2))
        } else {
            None
        };
        self.kw("fi");
        Kind::If { conds, els }
    }

    fn do_group(&mut self) -> Group {
        self.kw("do");
        let g = self.group(Term::Kw, 1, self.cfg.cmds);
        self.kw("done");
        g
    }

    pub fn loop_cmd(&mut self) -> Kind {
        let until = self.t.chance(1, 2);
        self.kw(if until { "until" } else { "while" });
        let guard = self.group(Term::Kw, 1, 2);
        let body = self.do_group();
        Kind::Loop { until, guard, body }
    }

    pub fn for_cmd(&mut self) -> Kind {
        self.kw("for");
        self.blank();
        let var = if self.t.chance(1, 8) && !self.cfg.common {
            self.t.of(RESERVED).to_owned()
        } else {
            self.name()
        };
        self.put(&var, Last::Word);
        let var_cmt = self.maybe_nl();
        let mut post = if var_cmt.is_some() {
            self.linebreak()
        } else {
            Vec::new()
        };
        let (words, pre_body) = match self.t.n(4) {
            0 | 1 => {
                self.kw("in");
                let mut n = self.t.n(4);
                if let Some(k) = self.lots(Dim::ForWords) {
                    n = k;
                }
                let mut ws = Vec::new();
                for _ in 0..n {
                    self.sp();
                    ws.push(self.word(false));
                }
                let cmt = if self.t.lchance(1, 2) {
                    self.op(";");
                    self.maybe_nl()
                } else {
                    Some(self.nl())
                };
                let pre = if cmt.is_some() {
                    self.linebreak()
                } else {
                    Vec::new()
                };
                (Some((post, ws, cmt)), pre)
            }
            2 if !(self.cfg.common && var_cmt.is_some()) => {
                self.op(";");
                post.extend(self.linebreak());
                (None, post)
            }
            _ => (None, post),
        };
        let body = self.do_group();
        Kind::For {
            var,
            var_cmt,
            words,
            pre_body,
            body,
        }
    }

    pub fn case_cmd(&mut self) -> Kind {
        self.kw("case");
        self.blank();
        let word = self.word(false);
        let post_word = self.linebreak();
        self.kw("in");
        let in_cmt = self.maybe_nl();
        let mut fresh = in_cmt.is_some();
        let mut n = self.t.n(4);
        if let Some(k) = self.lots(Dim::Arms) {
            n = k;
        }
        let mut arms = Vec::new();
        let mut open_end = false;
        for i in 0..n {
            let pre = if fresh { self.linebreak() } else { Vec::new() };
            let paren = self.bal || self.t.lchance(1, 3);
            let esac = self.t.chance(1, 30);
            if paren || esac {
                self.osp_strict();
                self.put("(", Last::Open);
                self.osp();
            } else {
                self.sp();
            }
            let mut pats = Vec::new();
            let mut k = 1 + self.t.n(3);
            if let Some(n) = self.lots(Dim::Pats) {
                k = n;
            }
            for j in 0..k {
                if j == 0 && esac {
                    self.put("esac", Last::Word);
                    pats.push(Word::lit("esac"));
                } else {
                    let at = self.out.len();
                    let mut w = self.word(false);
                    if j == 0 && &self.out[at..] == "esac" {
                        self.out.push('c');
                        w = Word::lit("esacc");
                    }
                    pats.push(w);
                }
                if j + 1 < k {
                    self.op("|");
                    self.osp();
                }
            }
            self.op(")");
            let pat_cmt = self.maybe_nl();
            let last = i + 1 == n;
            open_end = last && self.t.chance(1, 3);
            let body = self.arm_body(open_end, pat_cmt.is_some());
            let mut arm_cmt = None;
            if !open_end {
                self.op(";;");
                arm_cmt = self.maybe_nl();
            }
            fresh = arm_cmt.is_some();
            arms.push(Arm {
                pre,
                pats,
                pat_cmt,
                body,
                arm_cmt,
            });
        }
        let post_arms = if fresh && !open_end {
            self.linebreak()
        } else {
            Vec::new()
        };
        self.kw("esac");
        Kind::Case {
            word,
            post_word,
            in_cmt,
            arms,
            post_arms,
        }
    }

    fn arm_body(&mut self, open_end: bool, fresh: bool) -> Group {
        // A newline right after the pattern would belong to the pattern
        let term = if open_end { Term::Kw } else { Term::DSemi };
        if fresh {
            return self.group(term, 0, 2);
        }
        let n = self.group_size(0, 2);
        self.group_unfresh(term, n)
    }

    /// A group of exactly so many commands which must not start with a newline.
    fn group_unfresh(&mut self, term: Term, n: u32) -> Group {
        let mut g = Group::default();
        let mut fresh = false;
        for i in 0..n {
            let pre = if fresh { self.linebreak() } else { Vec::new() };
            let list = self.list();
            let last = i + 1 == n;
            let amp = self.t.chance(1, 8) && !self.cfg.run;
            let force = self.maybe_pend && !last && self.t.chance(3, 4);
            let (sep, cmt) = self.separator(term, last, amp, force, false);
            if force {
                self.maybe_pend = false;
            }
            fresh = cmt.is_some();
            g.cmds.push(Cmd {
                pre,
                list,
                sep,
                cmt,
            });
        }
        if fresh {
            g.trailing = self.linebreak();
        }
        g
    }

    /// An optional blank, which must be a true one after a reserved word.
    fn osp_strict(&mut self) {
        if self.cfg.layout == 0 || self.t.lchance(1, 2) {
            self.blank();
        }
    }

    pub fn name(&mut self) -> String {
        if let Some(n) = self.lots(Dim::Name) {
            let mut s = String::new();
            for i in 0..n {
                let c = self.t.of(&['a', 'Z', '_', '\u{e9}', '1', '0']);
                s.push(match c {
                    '1' | '0' if i == 0 => 'b',
                    '\u{e9}' if !self.cfg.unicode => 'c',
                    c => c,
                });
            }
            return s;
        }
        let n = self.t.of(NAMES);
        if !self.cfg.unicode && !n.is_ascii() || self.cfg.common && n == "in" {
            return "u".to_owned();
        }
        n.to_owned()
    }

    pub fn simple(&mut self) -> PCmd {
        let mut vars = Vec::new();
        let mut args = Vec::new();
        let mut words = 1 + self.t.n(self.cfg.args.max(1));
        if let Some(n) = self.lots(Dim::Args) {
            words = n;
        }
        let lots = self.lots(Dim::Vars).unwrap_or(0) as usize;
        while vars.len() < lots
            || vars.len() < 3 && self.t.chance((self.cfg.assign + self.cfg.redir).min(8), 16)
        {
            if self.t.weighted(&[self.cfg.assign, self.cfg.redir]) == 0 {
                self.sp();
                let n = self.name();
                self.put(&n, Last::Word);
                self.put("=", Last::Strict);
                let v = if self.t.chance(1, 4) {
                    None
                } else {
                    Some(self.word(true))
                };
                if v.is_some() && self.last == Last::Strict && !self.out.ends_with('=') {
                    self.last = Last::Word;
                }
                vars.push(Pre::Var(n, v));
            } else {
                vars.push(Pre::Redir(self.redir()));
            }
        }
        if !vars.is_empty() && self.t.chance(1, 4) {
            words = 0;
        }
        for i in 0..words {
            self.sp();
            let at = self.out.len();
            let w = self.word(false);
            if i == 0 {
                let raw = &self.out[at..];
                let bad = starts_assignment(raw)
                    || vars.is_empty()
                        && (RESERVED.contains(&raw)
                            || raw == "{"
                            || raw == "}"
                            || raw == "!");
                let w = if bad {
                    self.out.insert(at, '.');
                    let mut v = w.0;
                    v.insert(0, Part::S(Sw::Lit(".".to_owned())));
                    Word::norm(v)
                } else {
                    w
                };
                args.push(Post::Word(w));
            } else {
                args.push(Post::Word(w));
            }
            let lots = args.len() + self.lots_of_io() as usize;
            while args.len() < lots
                || args.len() < 6 && self.t.chance(self.cfg.redir.min(6), 16)
            {
                args.push(Post::Redir(self.redir()));
            }
        }
        PCmd::Simple { vars, args }
    }

    pub fn redir(&mut self) -> Redir {
        let fd = if self.t.chance(1, 3) {
            let v = ["2", "0", "1", "10", "65535", "007", "00000000000012"];
            Some(self.t.of(&v[..if self.cfg.run { 3 } else { 7 }]))
        } else {
            None
        };
        let heredoc = self.depth < 6 && {
            let h = self.cfg.heredoc;
            self.t.weighted(&[8, h]) == 1
        };
        let kind = if heredoc {
            RK::Heredoc
        } else {
            self.t.of(&[
                RK::Write,
                RK::Read,
                RK::ReadWrite,
                RK::Append,
                RK::Clobber,
                RK::DupRead,
                RK::DupWrite,
            ])
        };
        if let Some(fd) = fd {
            self.sp();
            if let Some(n) = self.lots(Dim::Zeros) {
                self.put(&"0".repeat(n as usize), Last::Word);
            }
            self.put(fd, Last::Word);
        } else if self.fd_like_word() || self.fancy(1, 2) || self.cfg.layout == 0 {
            // A number right before the operator would be taken for a descriptor
            if self.fd_like_word() {
                self.real_blank();
            } else {
                self.sp();
            }
        }
        let fd = fd.map(|f| f.parse::<u64>().unwrap() as u16);
        let word = match kind {
            RK::Heredoc => return self.heredoc(fd),
            RK::DupRead | RK::DupWrite => {
                self.put(if kind == RK::DupRead { "<&" } else { ">&" }, Last::Open);
                if self.fancy(1, 4) {
                    self.blank();
                }
                self.dup_target()
            }
            _ => {
                let s = match kind {
                    RK::Read => "<",
                    RK::Write => ">",
                    RK::ReadWrite => "<>",
                    RK::Append => ">>",
                    _ => ">|",
                };
                self.put(s, Last::Open);
                if self.fancy(2, 6) || self.cfg.layout == 0 {
                    self.blank();
                }
                self.word(false)
            }
        };
        Redir { kind, fd, word }
    }

    /// The output ends with a word of digits
    fn fd_like_word(&self) -> bool {
        self.last == Last::Strict && self.out.ends_with(|c: char| c.is_ascii_digit())
    }

    fn dup_target(&mut self) -> Word {
        let w = match self.t.n(7) {
            k if k < 2 || self.plain && (k == 3 || k == 5) => {
                let d = self.t.of(&["1", "2", "0", "10", "99999999"]);
                self.put(d, Last::Word);
                Word::lit(d)
            }
            2 => {
                self.put("-", Last::Strict);
                Word::lit("-")
            }
            3 => {
                let d = self.t.of(&["1", "", "22"]);
                self.put(&format!("'{}'", d), Last::Word);
                Word(vec![Part::SQ(d.to_owned())])
            }
            4 => {
                let p = self.param_only();
                Word(vec![Part::S(p)])
            }
            5 => {
                self.put("\"", Last::Word);
                let p = self.param_only();
                let var = self.open_name == self.out.len();
                self.put(if var { "\"" } else { "1\"" }, Last::Word);
                let digit = Sw::Lit(if var { "" } else { "1" }.to_owned());
                Word(vec![Part::DQ(norm_sws(vec![p, digit]))])
            }
            _ => {
                self.put("\\3", Last::Word);
                Word(vec![Part::S(Sw::Esc("3".to_owned()))])
            }
        };
        w
    }

    fn param_only(&mut self) -> Sw {
        let p = self.parameter();
        let braces = self.t.chance(1, 2);
        self.put_param(&p, braces);
        Sw::Param(p)
    }

    // ---- here-documents

    fn heredoc(&mut self, fd: Option<u16>) -> Redir {
        self.has_heredoc = true;
        let quoted = self.t.chance(1, 3) && !self.plain;

        // The body, in a world of its own
        let out = std::mem::take(&mut self.out);
        self.open_name = 0;
        let pend = std::mem::take(&mut self.pend);
        let mp = std::mem::replace(&mut self.maybe_pend, false);
        let last = self.last;
        self.depth += 1;
        let mut word = self.doc_body(quoted);
        self.depth -= 1;
        debug_assert!(self.pend.is_empty());
        let mut text = std::mem::replace(&mut self.out, out);
        self.open_name = 0;
        self.pend = pend;
        self.maybe_pend = mp;
        self.last = last;
        if text.is_empty() {
            word = Word(Vec::new());
        }

        let joined = if quoted { Vec::new() } else { joined_lines(&text) };
        let starts = |i: usize| !joined.get(i).copied().unwrap_or(false);
        let has_tab = text
            .split('\n')
            .enumerate()
            .any(|(i, l)| starts(i) && l.starts_with('\t'));
        let strip = self.t.chance(1, 3) && !has_tab;

        // A delimiter which is no line of the body
        let mut delim = self
            .t
            .of(&["EOF", "A", "_1", "e-o.f", "\u{e9}", "=", "E F", "!", "x'y", "$a", "(", "a)"])
            .to_owned();
        let plain = |d: &str| !d.contains(|c| " '$()".contains(c));
        if !quoted && !plain(&delim) || self.bal && !delim.chars().all(|c| c.is_alphanumeric()) {
            delim = "EOD".to_owned();
        }
        // (what comes after an escaped newline does not count)
        let rest = text.split('\n').enumerate().find(|(i, l)| {
            let l = l.trim_start_matches('\t');
            !starts(*i) && !l.is_empty() && l.chars().all(|c| c.is_ascii_alphanumeric())
        });
        if let Some((_, l)) = rest.filter(|_| self.t.lchance(1, 2)) {
            delim = l.trim_start_matches('\t').to_owned();
        }
        while text.split('\n').enumerate().any(|(i, l)| {
            starts(i) && (l == delim || l.strip_suffix('\r') == Some(&delim))
        }) {
            delim.push('x');
        }

        self.put(if strip { "<<-" } else { "<<" }, Last::Open);
        if delim.starts_with('-') || self.fancy(1, 4) || self.cfg.layout == 0 {
            self.blank();
        }
        if quoted {
            let q = self.quote_delim(&delim);
            self.put(&q, Last::Strict);
        } else {
            self.put(&delim, Last::Strict);
        }

        let mut line = delim;
        if self.fancy(1, 12) && !self.cfg.common {
            line.push('\r');
        }
        line.push('\n');
        if strip {
            let mut with_tabs = String::new();
            // Shells do not agree on the tabs within a substitution
            let plain = !self.cfg.common || !text.contains(|c| c == '(' || c == '`');
            for (i, l) in text.split_inclusive('\n').enumerate() {
                if starts(i) {
                    for _ in 0..self.t.l(if plain { 3 } else { 1 }) {
                        with_tabs.push('\t');
                    }
                }
                with_tabs.push_str(l);
            }
            text = with_tabs;
            for _ in 0..self.t.l(3) {
                line.insert(0, '\t');
            }
        }
        self.pend.push(Doc {
            text,
            delim_line: line,
        });
        self.maybe_pend = true;
        Redir {
            kind: RK::Heredoc,
            fd,
            word,
        }
    }

    fn quote_delim(&mut self, d: &str) -> String {
        let all_escaped = |d: &str| {
            d.chars()
                .map(|c| format!("\\{}", c))
                .collect::<String>()
        };
        match self.t.n(4) {
            0 if !d.contains('\'') => format!("'{}'", d),
            1 => all_escaped(d),
            2 if d.chars().all(|c| c.is_alphanumeric()) => {
                // Only a part of it
                let cut = d.char_indices().nth(1).map_or(d.len(), |c| c.0);
                format!("{}'{}'", &d[..cut], &d[cut..])
            }
            _ => {
                let mut s = String::from("\"");
                for c in d.chars() {
                    if "$`\"\\".contains(c) {
                        s.push('\\');
                    }
                    s.push(c);
                }
                s.push('"');
                s
            }
        }
    }

    fn doc_body(&mut self, quoted: bool) -> Word {
        let mut n = self.t.n(5);
        if let Some(k) = self.lots(Dim::DocLines) {
            n = k;
        }
        if quoted {
            for _ in 0..n {
                let mut k = self.t.n(8);
                if let Some(n) = self.lots(Dim::DocLine) {
                    k = n;
                }
                for _ in 0..k {
                    let c = if self.bal {
                        self.t.of(&['a', ' ', '1', '.', '='])
                    } else {
                        self.t.of(&[
                            'a', ' ', '1', '$', '`', '\\', '"', '\'', '(', ')', '{', '}', '#',
                            ';', '&', '<', '\t', '\u{e9}', '\r',
                        ])
                    };
                    self.out.push(c);
                }
                self.out.push('\n');
            }
            return Word::lit(&self.out);
        }
        let mut sws = Vec::new();
        for _ in 0..n {
            let mut k = self.t.n(4);
            if let Some(n) = self.lots(Dim::DocLine) {
                k = n;
            }
            for _ in 0..k {
                self.interpolated_part(true, &mut sws);
            }
            self.out.push('\n');
            sws.push(Sw::Lit("\n".to_owned()));
        }
        Word(norm_sws(sws).into_iter().map(Part::S).collect())
    }

    /// Keep text from extending the name of a parameter right before it.
    fn seal(&self, s: &mut String) {
        let extends = |c: char| c == '_' || c.is_alphanumeric();
        if self.open_name == self.out.len() && self.open_name > 0 && s.starts_with(extends) {
            s.insert(0, '.');
        }
    }

    // ---- words

    /// A non-empty word. Values of assignments may start with a comment character.
    pub fn word(&mut self, value: bool) -> Word {
        self.budget -= 1;
        let n = match self.lots(Dim::Parts) {
            Some(n) => n,
            None if self.budget > 0 && self.t.chance(1, 2) => 1 + self.t.n(4),
            None => 1,
        };
        let start = self.out.len();
        let mut parts = Vec::new();
        for i in 0..n {
            self.word_part(i == 0, value, &mut parts);
        }
        debug_assert!(self.out.len() > start);
        self.last = Last::Word;
        if self.out.as_bytes()[start..].iter().all(|b| b.is_ascii_digit()) {
            self.last = Last::Strict;
        }
        Word::norm(parts)
    }

    fn word_part(&mut self, first: bool, value: bool, out: &mut Vec<Part>) {
        let c = self.cfg;
        let deep = self.depth >= c.depth + 1 || self.budget <= 0;
        let w = |x: u32| if deep { 0 } else { x };
        match self.t.weighted(&[
            c.lit,
            c.esc,
            if self.plain { 0 } else { c.quote },
            if self.plain { 0 } else { c.quote },
            c.param,
            c.lit / 3,
            w(c.opsub),
            w(c.cmdsub),
            if self.in_tick && self.in_curly { 0 } else { w(c.tick) },
            w(c.arith),
        ]) {
            0 => {
                let mut s = self.literal();
                if first && !value && s.starts_with('#') {
                    s.insert(0, '.');
                }
                self.seal(&mut s);
                self.out.push_str(&s);
                out.push(Part::S(Sw::Lit(s)));
            }
            1 => {
                let ch = self.any_char(false);
                self.out.push('\\');
                self.out.push(ch);
                out.push(Part::S(Sw::Esc(ch.to_string())));
            }
            2 => {
                let mut s = String::new();
                let mut n = self.t.n(6);
                if let Some(k) = self.lots(Dim::Quoted) {
                    n = k;
                }
                for _ in 0..n {
                    let ch = self.any_char(true);
                    if ch != '\'' {
                        self.multiline |= ch == '\n';
                        s.push(ch);
                    }
                }
                self.out.push('\'');
                self.out.push_str(&s);
                self.out.push('\'');
                out.push(Part::SQ(s));
            }
            3 => {
                self.out.push('"');
                let mut v = Vec::new();
                let mut n = self.t.n(5);
                if let Some(k) = self.lots(Dim::Interp) {
                    n = k;
                }
                let was_dq = std::mem::replace(&mut self.in_dq, true);
                let was_curly = std::mem::replace(&mut self.in_curly, false);
                for _ in 0..n {
                    self.interpolated_part(false, &mut v);
                }
                self.in_dq = was_dq;
                self.in_curly = was_curly;
                self.out.push('"');
                out.push(Part::DQ(norm_sws(v)));
            }
            5 => {
                let (s, p) = match self.t.n(8) {
                    0 => ("*", Sw::Star),
                    1 => ("?", Sw::Question),
                    2 => ("[", Sw::SqOpen),
                    3 => ("]", Sw::SqClose),
                    4 => ("~", Sw::Tilde),
                    5 => (":", Sw::Colon),
                    _ => {
                        // A dollar which starts nothing
                        let s = self.t.of(&["$.", "$/", "$%", "$,", "$^", "$+", "$="]);
                        let s = if self.cfg.run { &s[1..] } else { s };
                        (s, Sw::Lit(s.to_owned()))
                    }
                };
                self.out.push_str(s);
                out.push(Part::S(p));
            }
            k => {
                let k = if k == 4 { 4 } else { k };
                let s = self.dollar(k);
                out.push(Part::S(s));
            }
        }
    }

    /// Parameters and substitutions, by the index used for choosing parts of a word.
    fn dollar(&mut self, k: usize) -> Sw {
        let was_dq = self.in_dq;
        let was_curly = self.in_curly;
        if k != 8 {
            self.in_dq = false;
            self.in_curly = false;
        }
        let sw = self.dollar_of(k);
        self.in_dq = was_dq;
        self.in_curly = was_curly;
        sw
    }

    fn dollar_of(&mut self, k: usize) -> Sw {
        match k {
            4 => {
                let p = self.parameter();
                let braces = self.t.chance(1, 3);
                self.put_param(&p, braces);
                Sw::Param(p)
            }
            6 => self.op_subst(),
            7 => {
                self.out.push('$');
                self.depth += 1;
                self.budget -= 2;
                let g = self.parens(0);
                self.depth -= 1;
                Sw::Sub(Box::new(Sub::Cmd(g)))
            }
            8 => self.tick(),
            _ => self.arith_subst(),
        }
    }

    fn interpolated_part(&mut self, doc: bool, v: &mut Vec<Sw>) {
        let c = self.cfg;
        let deep = self.depth >= c.depth + 1 || self.budget <= 0;
        let w = |x: u32| if deep { 0 } else { x };
        match self.t.weighted(&[
            c.lit,
            c.esc,
            c.esc,
            0,
            c.param,
            c.lit / 6 + 1,
            w(c.opsub),
            w(c.cmdsub),
            // (shells do not agree on double quotes within backticks within double quotes)
            if c.common || self.in_tick && self.in_curly { 0 } else { w(c.tick) },
            w(c.arith),
        ]) {
            0 => {
                let mut s = String::new();
                let n = 1 + self.t.n(5);
                for _ in 0..n {
                    let ch = if doc && self.bal {
                        self.t.of(&['a', ' ', '1', '.', '='])
                    } else {
                        self.any_char(true)
                    };
                    if !"$`\\".contains(ch) && (doc || ch != '"') {
                        self.multiline |= ch == '\n';
                        s.push(ch);
                    }
                }
                self.seal(&mut s);
                self.out.push_str(&s);
                v.push(Sw::Lit(s));
            }
            1 if !(doc && self.bal) => {
                let ch = self.t.of(&["$", "`", "\"", "\\", "\n"]);
                // A double quote is nothing special in a heredoc
                if doc && ch == "\"" {
                    self.out.push_str("\\\"");
                    v.push(Sw::Lit("\\\"".to_owned()));
                    return;
                }
                // Shells do go on with a name after it, and differ on tabs after it
                let name = self.open_name == self.out.len() && self.open_name > 0;
                let line = self.out.rsplit('\n').next().unwrap_or("");
                if c.common && ch == "\n" && (name || doc && line.trim().is_empty()) {
                    return;
                }
                // An escaped newline in a heredoc is fine as well
                self.multiline |= ch == "\n";
                self.out.push('\\');
                self.out.push_str(ch);
                v.push(Sw::Esc(ch.to_owned()));
            }
            2 if !(doc && self.bal) => {
                let ch = self.any_char(false);
                if "$`\\\"".contains(ch) {
                    return;
                }
                self.out.push('\\');
                self.out.push(ch);
                v.push(Sw::Lit(format!("\\{}", ch)));
            }
            6 if c.common => {
                self.bare = true;
                let s = self.dollar(6);
                self.bare = false;
                v.push(s);
            }
            4 => {
                let s = self.dollar(4);
                v.push(s);
            }
            5 => {
                let s = self.t.of(&["$.", "$/", "$ ", "$,", "$^", "$+", "$="]);
                let s = if self.cfg.run { &s[1..] } else { s };
                self.out.push_str(s);
                v.push(Sw::Lit(s.to_owned()));
            }
            k if k >= 6 => {
                let s = self.dollar(k);
                v.push(s);
            }
            _ => {}
        }
    }

    fn any_char(&mut self, newline: bool) -> char {
        let c = self.t.of(&[
            'a', 'b', '1', ' ', '.', '_', '-', '=', '/', '$', '`', '\\', '"', '\'', '(', ')', '{',
            '}', '#', ';', '&', '|', '<', '>', '*', '?', '~', '!', '[', ']', ':', '%', '@', '^',
            ',', '+', '\t', '\u{e9}', '\u{4e2d}', '\r', '\n',
        ]);
        if c == '\n' && !newline
            || !self.cfg.unicode && !c.is_ascii()
            || self.plain && (c == '"' || c == '\'')
        {
            'n'
        } else {
            c
        }
    }

    fn literal(&mut self) -> String {
        match self.t.n(8) {
            0 | 1 | 2 => self.name(),
            3 => self.t.of(&["1", "2", "0", "42", "65535", "65536", "007", "9z"]).to_owned(),
            4 => self.t.of(RESERVED).to_owned(),
            5 => self
                .t
                .of(&["a=b", "-n", "--", "-", "{", "}", "!", "#", "+1", "-1", "=", "a=", "x#y"])
                .to_owned(),
            _ => {
                let mut n = 1 + self.t.n(5);
                if let Some(k) = self.lots(Dim::Literal) {
                    n = k;
                }
                let mut s = String::new();
                for _ in 0..n {
                    let c = self.t.of(&[
                        'a', 'b', '1', '.', '/', '-', '_', '%', ',', '@', '^', '+', '=', '{', '}',
                        '!', '#', '\u{e9}', '\u{4e2d}', '\u{661}',
                    ]);
                    if self.cfg.unicode || c.is_ascii() {
                        s.push(c);
                    } else {
                        s.push('u');
                    }
                }
                s
            }
        }
    }

    // ---- parameters

    pub fn parameter(&mut self) -> Param {
        match self.t.n(12) {
            0 | 1 | 2 => Parameter::Var(self.name()),
            3 => Parameter::Positional(self.t.n(10)),
            4 => Parameter::Positional(self.t.of(&[10, 11, 100, 65536, 4_294_967_295])),
            5 => Parameter::At,
            6 => Parameter::Star,
            7 => Parameter::Pound,
            8 => Parameter::Question,
            9 => Parameter::Dash,
            10 => Parameter::Dollar,
            _ if self.cfg.run => Parameter::Question,
            _ => Parameter::Bang,
        }
    }

    fn param_text(p: &Param) -> String {
        match p {
            Parameter::At => "@".to_owned(),
            Parameter::Star => "*".to_owned(),
            Parameter::Pound => "#".to_owned(),
            Parameter::Question => "?".to_owned(),
            Parameter::Dash => "-".to_owned(),
            Parameter::Dollar => "$".to_owned(),
            Parameter::Bang => "!".to_owned(),
            Parameter::Positional(n) => n.to_string(),
            Parameter::Var(v) => v.clone(),
        }
    }

    fn put_param(&mut self, p: &Param, braces: bool) {
        let text = Self::param_text(p);
        let needs = match p {
            Parameter::Positional(n) => *n > 9,
            _ => false,
        };
        if needs || braces {
            let zeros = match p {
                Parameter::Positional(_) if self.t.chance(1, 8) => {
                    "0".repeat(self.lots(Dim::Zeros).unwrap_or(2) as usize)
                }
                Parameter::Positional(_) => String::new(),
                _ => String::new(),
            };
            self.out.push_str(&format!("${{{}{}}}", zeros, text));
        } else {
            self.out.push('$');
            self.out.push_str(&text);
            if let Parameter::Var(_) = p {
                self.open_name = self.out.len();
            }
        }
        self.last = Last::Word;
    }

    fn op_subst(&mut self) -> Sw {
        self.budget -= 1;
        self.depth += 1;
        let p = self.parameter();
        let text = Self::param_text(&p);
        let s = match self.t.n(10) {
            0 | 1 => {
                self.out.push_str(&format!("${{#{}}}", text));
                Sub::Len(p)
            }
            k if k < 7 => {
                let op = self.t.of(&[Op::Default, Op::Assign, Op::Error, Op::Alt]);
                let mut colon = self.t.chance(1, 2);
                let empty = self.t.chance(1, 4);
                if empty && p == Parameter::Pound && (op == Op::Default || op == Op::Error) {
                    colon = true;
                }
                let o = match op {
                    Op::Default => "-",
                    Op::Assign => "=",
                    Op::Error => "?",
                    Op::Alt => "+",
                };
                self.out
                    .push_str(&format!("${{{}{}{}", text, if colon { ":" } else { "" }, o));
                let w = if empty { None } else { self.subst_word(None) };
                let mut op_is_len = false;
                if w.is_none() && p == Parameter::Pound && !colon {
                    op_is_len = op == Op::Default || op == Op::Error;
                }
                self.out.push('}');
                if op_is_len {
                    Sub::Len(if op == Op::Default {
                        Parameter::Dash
                    } else {
                        Parameter::Question
                    })
                } else {
                    Sub::Op(op, colon, p, w)
                }
            }
            _ => {
                let (r, o) = self.t.of(&[
                    (Rem::SmallSuffix, "%"),
                    (Rem::LargeSuffix, "%%"),
                    (Rem::SmallPrefix, "#"),
                    (Rem::LargePrefix, "##"),
                ]);
                self.out.push_str(&format!("${{{}{}", text, o));
                let empty = self.t.chance(1, 4);
                let w = if empty {
                    None
                } else {
                    self.subst_word(o.chars().next())
                };
                self.out.push('}');
                if w.is_none() && p == Parameter::Pound && r == Rem::SmallPrefix {
                    Sub::Len(Parameter::Pound)
                } else {
                    Sub::Rem(r, p, w)
                }
            }
        };
        self.depth -= 1;
        Sw::Sub(Box::new(s))
    }

    /// The word of a parameter substitution, which must not start with the given character.
    fn subst_word(&mut self, not: Option<char>) -> Option<Word> {
        let mut parts = Vec::new();
        self.in_curly = true;
        let n = 1 + self.t.n(4);
        let at = self.out.len();
        for i in 0..n {
            if self.bare {
                // What is a quote, and what is escaped differs in here
                let s = self.t.of(&["a", "b c", "x/y", ".", "b-"]).to_owned();
                self.out.push_str(&s);
                parts.push(Part::S(Sw::Lit(s)));
                continue;
            }
            match self.t.n(4) {
                0 => {
                    let k = 1 + self.t.n(3);
                    let mut s = String::new();
                    for _ in 0..k {
                        let c = self.t.of(&[
                            'a', ' ', ';', '&', '|', '<', '>', '(', ')', '#', '1', '/', '-', '{',
                            '\t', '=', '\n',
                        ]);
                        self.multiline |= c == '\n';
                        s.push(c);
                    }
                    if i == 0 && not.map_or(false, |c| s.starts_with(c)) {
                        s.insert(0, '.');
                    }
                    self.seal(&mut s);
                    self.out.push_str(&s);
                    parts.push(Part::S(Sw::Lit(s)));
                }
                1 if i == 0 && self.t.chance(1, 4) => {
                    self.multiline = true;
                    self.out.push_str("\\\n");
                    parts.push(Part::S(Sw::Esc("\n".to_owned())));
                }
                _ => {
                    let from = self.out.len();
                    let had = parts.len();
                    self.word_part(false, true, &mut parts);
                    // Curly braces must be quoted in here
                    let raw = &self.out[from..];
                    let lit = match parts.get(had) {
                        Some(Part::S(Sw::Lit(s))) => raw == s,
                        _ => false,
                    };
                    if lit {
                        let mut s = raw.replace('}', "]").replace(']', ".");
                        if from == at && not.map_or(false, |c| s.starts_with(c)) {
                            s.insert(0, '.');
                        }
                        self.out.truncate(from);
                        self.out.push_str(&s);
                        parts[had] = Part::S(Sw::Lit(s));
                    }
                }
            }
        }
        if parts.is_empty() {
            None
        } else {
            Some(Word::norm(parts))
        }
    }

    fn tick(&mut self) -> Sw {
        self.has_tick = true;
        self.budget -= 2;
        self.depth += 1;
        let was_bal = self.bal;
        let pend = std::mem::take(&mut self.pend);
        let mp = std::mem::replace(&mut self.maybe_pend, false);
        self.bal = true;
        let was_plain = self.plain;
        self.plain |= self.in_tick && self.in_dq;
        let was_tick = std::mem::replace(&mut self.in_tick, true);
        let was_dq = std::mem::replace(&mut self.in_dq, false);
        let was_curly = std::mem::replace(&mut self.in_curly, false);
        let out = std::mem::take(&mut self.out);
        self.open_name = 0;
        self.last = Last::Open;
        let g = self.group(Term::Tick, 0, self.cfg.cmds.min(2));
        if self.fancy(1, 8) {
            self.blank();
        }
        let content = std::mem::replace(&mut self.out, out);
        self.open_name = 0;
        debug_assert!(self.pend.is_empty());
        self.pend = pend;
        self.maybe_pend = mp;
        self.bal = was_bal;
        self.plain = was_plain;
        self.in_tick = was_tick;
        self.in_dq = was_dq;
        self.in_curly = was_curly;
        self.depth -= 1;
        let enc = self.encode_tick(&content);
        self.out.push('`');
        self.out.push_str(&enc);
        self.out.push('`');
        self.last = Last::Word;
        Sw::Tick(g)
    }

    /// Spell out the contents of backquotes with the backslashes they need.
    pub fn encode_tick(&mut self, s: &str) -> String {
        let c: Vec<char> = s.chars().collect();
        let mut out = String::new();
        let mut i = 0;
        while i < c.len() {
            match c[i] {
                '\\' => match c.get(i + 1) {
                    Some(&n) if n == '\\' || n == '$' || n == '`' => {
                        out.push_str("\\\\\\");
                        out.push(n);
                        i += 2;
                    }
                    Some(&n) => {
                        if "*?~!%=,@^/:+-".contains(n) && self.fancy(1, 6) {
                            out.push('\\');
                        }
                        out.push('\\');
                        out.push(n);
                        i += 2;
                    }
                    None => {
                        out.push_str("\\\\");
                        i += 1;
                    }
                },
                '`' => {
                    out.push_str("\\`");
                    i += 1;
                }
                '$' => {
                    let mut j = i;
                    while j < c.len() && c[j] == '$' {
                        j += 1;
                    }
                    let opens = j < c.len() && (c[j] == '{' || c[j] == '(');
                    let esc = !opens && self.fancy(1, 8);
                    for _ in i..j {
                        if esc {
                            out.push('\\');
                        }
                        out.push('$');
                    }
                    i = j;
                }
                ch => {
                    out.push(ch);
                    i += 1;
                }
            }
        }
        out
    }

    // ---- arithmetic

    fn arith_subst(&mut self) -> Sw {
        self.budget -= 1;
        self.out.push_str("$((");
        self.ablank();
        let e = if self.t.chance(1, 12) {
            None
        } else {
            let e = self.arith(4);
            self.print_arith(&e, 0);
            Some(e)
        };
        self.ablank();
        self.out.push(')');
        if !self.cfg.common {
            self.ablank();
        }
        self.out.push(')');
        self.last = Last::Word;
        Sw::Sub(Box::new(Sub::Arith(e)))
    }

    fn ablank(&mut self) {
        if self.fancy(1, 8) {
            let s = self.t.lof(&[" ", "\t", "  ", " \t "]);
            self.out.push_str(s);
        }
    }

    fn aname(&mut self) -> String {
        if self.cfg.run {
            return self.t.of(&["a", "b", "x1"]).to_owned();
        }
        self.name()
    }

    pub fn arith(&mut self, depth: u32) -> Ar {
        use Arithmetic::*;
        if depth > 1 {
            if let Some(n) = self.lots(Dim::Arith) {
                return self.arith_chain(n);
            }
        }
        if depth == 0 || self.t.chance(1, 4) {
            return if self.t.chance(1, 2) {
                // This one has the same value all the time
                Var(match self.cfg.run && self.t.chance(1, 2) {
                    true => "k9".to_owned(),
                    false => self.aname(),
                })
            } else {
                Literal(match self.t.n(6) {
                    0 => 0,
                    1 => self.t.n(10) as isize,
                    2 => self.t.of(&[8, 9, 15, 16, 63, 64, 255, 4096]),
                    3 => self.t.of(&[isize::MAX, isize::MAX - 1, 1 << 62, 1 << 32]),
                    _ => self.t.n(100_000) as isize,
                })
            };
        }
        let d = depth - 1;
        macro_rules! bin {
            ($c:path) => {{
                let a = self.arith(d);
                let b = self.arith(d);
                $c(Box::new(a), Box::new(b))
            }};
        }
        match self.t.n(34) {
            0 | 1 => bin!(Add),
            2 | 3 => bin!(Sub),
            4 => bin!(Mult),
            5 => bin!(Div),
            6 => bin!(Modulo),
            7 | 8 => bin!(Pow),
            9 => bin!(ShiftLeft),
            10 => bin!(ShiftRight),
            11 => bin!(Less),
            12 => bin!(LessEq),
            13 => bin!(Great),
            14 => bin!(GreatEq),
            15 => bin!(Eq),
            16 => bin!(NotEq),
            17 => bin!(BitwiseAnd),
            18 => bin!(BitwiseXor),
            19 => bin!(BitwiseOr),
            20 => bin!(LogicalAnd),
            21 => bin!(LogicalOr),
            22 => {
                let a = self.arith(d);
                let b = self.arith(d);
                let c = self.arith(d);
                Ternary(Box::new(a), Box::new(b), Box::new(c))
            }
            23 => UnaryPlus(Box::new(self.arith(d))),
            24 => UnaryMinus(Box::new(self.arith(d))),
            25 => LogicalNot(Box::new(self.arith(d))),
            26 => BitwiseNot(Box::new(self.arith(d))),
            27 => PostIncr(self.aname()),
            28 => PostDecr(self.aname()),
            29 => PreIncr(self.aname()),
            30 => PreDecr(self.aname()),
            31 => {
                let v = self.aname();
                let b = self.arith(d);
                Assign(v, Box::new(b))
            }
            32 => {
                let v = self.aname();
                let me = Box::new(Var(v.clone()));
                let b = Box::new(self.arith(d));
                let e = match self.t.n(10) {
                    0 => Add(me, b),
                    1 => Sub(me, b),
                    2 => Mult(me, b),
                    3 => Div(me, b),
                    4 => Modulo(me, b),
                    5 => ShiftLeft(me, b),
                    6 => ShiftRight(me, b),
                    7 => BitwiseAnd(me, b),
                    8 => BitwiseOr(me, b),
                    _ => BitwiseXor(me, b),
                };
                Assign(v, Box::new(e))
            }
            _ => {
                let n = 2 + self.t.n(2);
                let v = (0..n).map(|_| self.arith(d)).collect();
                Sequence(v)
            }
        }
    }

    /// A long expression which needs no parens around its parts.
    fn arith_chain(&mut self, n: u32) -> Ar {
        use Arithmetic::*;
        let kind = self.t.n(12);
        if kind == 0 {
            return Sequence((0..n.max(2)).map(|_| self.arith(1)).collect());
        }
        let n = if kind < 8 { n } else { n.min(50) };
        let mut e = self.arith(1);
        let op = self.t.n(3);
        for _ in 0..n {
            let me = Box::new(e);
            let other = Box::new(self.arith(0));
            e = match kind {
                1 => match self.t.n(2) {
                    0 => Add(me, other),
                    _ => Sub(me, other),
                },
                2 => match self.t.n(3) {
                    0 => Mult(me, other),
                    1 => Div(me, other),
                    _ => Modulo(me, other),
                },
                3 => match self.t.n(2) {
                    0 => ShiftLeft(me, other),
                    _ => ShiftRight(me, other),
                },
                4 => match self.t.n(4) {
                    0 => Less(me, other),
                    1 => LessEq(me, other),
                    2 => Great(me, other),
                    _ => GreatEq(me, other),
                },
                5 => match op {
                    0 => BitwiseAnd(me, other),
                    1 => BitwiseXor(me, other),
                    _ => BitwiseOr(me, other),
                },
                6 => match op {
                    0 => LogicalAnd(me, other),
                    _ => LogicalOr(me, other),
                },
                7 => match self.t.n(2) {
                    0 => Eq(me, other),
                    _ => NotEq(me, other),
                },
                8 => Pow(other, me),
                9 => Assign(self.aname(), me),
                10 => {
                    let g = Box::new(self.arith(0));
                    Ternary(g, other, me)
                }
                _ => match self.t.n(4) {
                    0 => UnaryPlus(me),
                    1 => UnaryMinus(me),
                    2 => LogicalNot(me),
                    _ => BitwiseNot(me),
                },
            };
        }
        e
    }

    fn aput(&mut self, s: &str) {
        let glued = match (self.out.chars().last(), s.chars().next()) {
            (Some(a), Some(b)) => a == b && (a == '+' || a == '-'),
            _ => false,
        };
        if glued {
            self.out.push(' ');
        } else {
            self.ablank();
        }
        self.out.push_str(s);
    }

    fn aop(&mut self, s: &str) {
        self.aput(s);
        if self.fancy(1, 30) && !self.cfg.common {
            self.out.push_str("\\\n");
        }
    }

    fn avar(&mut self, v: &str) {
        if self.t.lchance(1, 4) && (!self.cfg.run || v == "k9") {
            self.aput("$");
        }
        self.out_name(v);
    }

    fn out_name(&mut self, v: &str) {
        if self.out.ends_with('$') {
            self.out.push_str(v);
        } else {
            self.aput(v);
        }
    }

    /// Print an expression where operators of at least the given level may appear.
    pub fn print_arith(&mut self, e: &Ar, level: u32) {
        use Arithmetic::*;
        let own = match e {
            Sequence(_) => 0,
            Assign(..) => 1,
            Ternary(..) => 2,
            LogicalOr(..) => 3,
            LogicalAnd(..) => 4,
            BitwiseOr(..) => 5,
            BitwiseXor(..) => 6,
            BitwiseAnd(..) => 7,
            Eq(..) | NotEq(..) => 8,
            Less(..) | LessEq(..) | Great(..) | GreatEq(..) => 9,
            ShiftLeft(..) | ShiftRight(..) => 10,
            Add(..) | Sub(..) => 11,
            Mult(..) | Div(..) | Modulo(..) => 12,
            Pow(..) => 13,
            UnaryPlus(_) | UnaryMinus(_) | LogicalNot(_) | BitwiseNot(_) | PreIncr(_)
            | PreDecr(_) => 14,
            Var(_) | Literal(_) | PostIncr(_) | PostDecr(_) => 15,
        };
        if own < level || self.fancy(1, 30) {
            self.aput("(");
            self.print_arith(e, 0);
            self.aput(")");
            return;
        }
        macro_rules! left {
            ($a:expr, $op:expr, $b:expr) => {{
                self.print_arith($a, own);
                self.aop($op);
                self.print_arith($b, own + 1);
            }};
        }
        match e {
            Sequence(v) => {
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        self.aop(",");
                    }
                    self.print_arith(e, 1);
                }
            }
            Assign(v, e) => {
                self.avar(v);
                let me = |x: &Ar| *x == Var(v.clone());
                let compound = match &**e {
                    Add(a, b) if me(a) => Some(("+=", b)),
                    Sub(a, b) if me(a) => Some(("-=", b)),
                    Mult(a, b) if me(a) => Some(("*=", b)),
                    Div(a, b) if me(a) => Some(("/=", b)),
                    Modulo(a, b) if me(a) => Some(("%=", b)),
                    ShiftLeft(a, b) if me(a) => Some(("<<=", b)),
                    ShiftRight(a, b) if me(a) => Some((">>=", b)),
                    BitwiseAnd(a, b) if me(a) => Some(("&=", b)),
                    BitwiseOr(a, b) if me(a) => Some(("|=", b)),
                    BitwiseXor(a, b) if me(a) => Some(("^=", b)),
                    _ => None,
                };
                match compound {
                    Some((op, b)) if self.t.l(3) != 1 => {
                        self.aput(op);
                        self.print_arith(b, 1);
                    }
                    _ => {
                        self.aput("=");
                        self.print_arith(e, 1);
                    }
                }
            }
            Ternary(g, a, b) => {
                self.print_arith(g, 3);
                self.aop("?");
                // dash knows of no commas
                self.print_arith(a, if self.cfg.common { 1 } else { 0 });
                self.aop(":");
                self.print_arith(b, 2);
            }
            LogicalOr(a, b) => left!(a, "||", b),
            LogicalAnd(a, b) => left!(a, "&&", b),
            BitwiseOr(a, b) => left!(a, "|", b),
            BitwiseXor(a, b) => left!(a, "^", b),
            BitwiseAnd(a, b) => left!(a, "&", b),
            Eq(a, b) => left!(a, "==", b),
            NotEq(a, b) => left!(a, "!=", b),
            Less(a, b) => left!(a, "<", b),
            LessEq(a, b) => left!(a, "<=", b),
            Great(a, b) => left!(a, ">", b),
            GreatEq(a, b) => left!(a, ">=", b),
            ShiftLeft(a, b) => left!(a, "<<", b),
            ShiftRight(a, b) => left!(a, ">>", b),
            Add(a, b) => left!(a, "+", b),
            Sub(a, b) => left!(a, "-", b),
            Mult(a, b) => left!(a, "*", b),
            Div(a, b) => left!(a, "/", b),
            Modulo(a, b) => left!(a, "%", b),
            Pow(a, b) => {
                self.print_arith(a, 14);
                self.aop("**");
                self.print_arith(b, 13);
            }
            UnaryPlus(a) => {
                self.aput("+");
                self.print_arith(a, 14);
            }
            UnaryMinus(a) => {
                self.aput("-");
                self.print_arith(a, 14);
            }
            LogicalNot(a) => {
                self.aput("!");
                self.print_arith(a, 14);
            }
            BitwiseNot(a) => {
                self.aput("~");
                self.print_arith(a, 14);
            }
            PreIncr(v) => {
                self.aput("++");
                self.avar(v);
            }
            PreDecr(v) => {
                self.aput("--");
                self.avar(v);
            }
            PostIncr(v) => {
                self.avar(v);
                self.ablank();
                self.out.push_str("++");
            }
            PostDecr(v) => {
                self.avar(v);
                self.ablank();
                self.out.push_str("--");
            }
            Var(v) => self.avar(v),
            Literal(n) => {
                let s = match self.t.l(5) {
                    0 | 1 => n.to_string(),
                    2 => match self.lots(Dim::Zeros) {
                        Some(k) => format!("{}{:o}", "0".repeat(k as usize), n),
                        None => format!("0{:o}", n),
                    },
                    3 => format!("0x{:x}", n),
                    _ if *n == 0 => self.t.lof(&["0x", "0X", "00", "0X0"]).to_owned(),
                    _ => format!("0X00{:X}", n),
                };
                self.aput(&s);
            }
        }
    }
}

/// The text starts like an assignment
fn starts_assignment(s: &str) -> bool {
    let mut it = s.char_indices();
    match it.next() {
        Some((_, c)) if c == '_' || c.is_alphabetic() => {}
        _ => return false,
    }
    for (_, c) in it {
        if c == '=' {
            return true;
        }
        if !(c == '_' || c.is_alphabetic() || c.is_ascii_digit()) {
            return false;
        }
    }
    false
}

/// Which lines go on with the one before, as an escaped newline does not end a line (but may be
/// one of its own).
fn joined_lines(text: &str) -> Vec<bool> {
    let mut joined = vec![false];
    for l in text.split('\n') {
        let goes_on = *joined.last().unwrap();
        let escapes = l.len() - l.trim_end_matches('\\').len();
        joined.push(escapes % 2 == 1 && (goes_on || l.len() > 1));
    }
    joined
}
