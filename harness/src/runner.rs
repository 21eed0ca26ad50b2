//! Running the checks of a property, in a process of their own, and reporting on them.

use crate::props::{self, Prop, Source};
use crate::tape::{self, Beat, Failure, Job, Recording, Summary, EXIT_STUCK};
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const USAGE: &str = "usage: harness run ID | replay FILE | list";

fn root() -> String {
    std::env::var("HARNESS_ROOT").unwrap_or_else(|_| "..".to_owned())
}

fn seed() -> u64 {
    match std::env::var("VERIF_SEED") {
        Ok(s) => s.trim().parse().unwrap_or_else(|_| tape::hash64(&s)),
        Err(_) => 1,
    }
}

fn scale() -> f64 {
    std::env::var("HARNESS_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if crate::thorough() { 12.0 } else { 1.0 })
}

fn find(id: &str) -> Option<Prop> {
    props::all().into_iter().find(|p| p.id == id)
}

fn find_part<'a>(p: &'a Prop, name: &str) -> Option<(u64, &'a Source)> {
    p.parts
        .iter()
        .enumerate()
        .find(|(_, p)| p.name == name)
        .map(|(i, p)| (i as u64, p))
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    match args.as_slice() {
        ["list"] => {
            for p in props::all() {
                let parts: Vec<_> = p.parts.iter().map(|p| (p.name, p.quick)).collect();
                println!("{} {} {:?}", p.id, p.level, parts);
            }
            0
        }
        ["run", id] => supervise(id),
        ["inner", id, beat] => inner(id, beat),
        ["one", id, part, index, journal] => one(id, part, index, journal),
        ["tape", file] => replay(file, true),
        ["replay", file] => replay(file, false),
        ["try", file] => {
            let src = std::fs::read_to_string(file).unwrap();
            println!("{:#?}\n{:#?}", props::parse(&src), crate::refp::parse(&src));
            0
        }
        _ => {
            eprintln!("{}", USAGE);
            2
        }
    }
}

fn job<'a>(name: &'a str, number: u64, part: &Source) -> Job<'a> {
    Job {
        name,
        number,
        check: part.check,
        enumerate: part.enumerate,
        seed: seed(),
        cases: (part.quick as f64 * scale()) as u64,
        deadline: Instant::now() + Duration::from_secs(3600),
        on_failure: Box::new(|_| ()),
    }
}

// ---- the actual work

fn inner(id: &str, beat: &str) -> i32 {
    let prop = match find(id) {
        Some(p) => p,
        None => {
            eprintln!("there is no property {}", id);
            return 2;
        }
    };
    let start = Instant::now();
    let limit: u64 = std::env::var("HARNESS_SECONDS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if crate::thorough() { 720 } else { 600 });
    let known = crate::known::report(&root(), id);
    let raw = format!("{}.raw", beat);
    let beat = Beat::new(Some(beat));
    let mut runs: Vec<(&Source, Summary)> = Vec::new();
    let weight: u64 = prop.parts.iter().map(|p| p.quick).sum();
    let mut left = weight;
    for (i, part) in prop.parts.iter().enumerate() {
        let name = format!("{}/{}", prop.id, part.name);
        let mut job = job(&name, i as u64, part);
        // Parts get their share of the time which is left
        let remaining = (limit as f64 - start.elapsed().as_secs_f64()).max(1.0);
        let share = remaining * (part.quick as f64 / left as f64).max(0.2).min(1.0);
        left -= part.quick;
        job.deadline = Instant::now() + Duration::from_secs_f64(share);
        job.on_failure = Box::new(|f| {
            let text = replay_text(prop.id, part.name, &f.tape, &f.message, &f.input);
            let _ = std::fs::write(&raw, text);
        });
        let at = Instant::now();
        let s = tape::run(&job, &beat);
        println!(
            "{} {}: {} cases, {} distinct and non-trivial, {:.1} s{}",
            prop.id,
            part.name,
            s.evaluations,
            s.distinct_nontrivial,
            at.elapsed().as_secs_f64(),
            if s.cut_short { ", cut short" } else { "" }
        );
        let failed = s.failure.is_some();
        runs.push((part, s));
        if failed {
            break;
        }
    }
    let mut violations = 0;
    if let Some((part, s)) = runs.last() {
        if let Some(f) = &s.failure {
            violations = 1;
            violation(&prop, part, f);
        }
    }
    evidence(&prop, &runs, &known, violations, start);
    violations
}

fn violation(prop: &Prop, part: &Source, f: &Failure) {
    let dir = format!("{}/replay", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.replay", dir, prop.id, part.name);
    let path = match std::fs::write(&path, replay_text(prop.id, part.name, &f.tape, &f.message, &f.input)) {
        Ok(()) => path,
        Err(e) => {
            eprintln!("cannot write {}: {}", path, e);
            path
        }
    };
    println!("input:\n{}", f.input);
    println!("message: {}", f.message);
    println!("(case {}, {} attempts at shrinking it)", f.index, f.shrink_steps);
    println!("VIOLATION property={} replay={}", prop.id, path);
}

fn numbers(v: &[u32]) -> String {
    v.iter().map(u32::to_string).collect::<Vec<_>>().join(" ")
}

fn replay_text(id: &str, part: &str, tape: &Recording, message: &str, input: &str) -> String {
    format!(
        "property: {}\npart: {}\ntier: {}\nstruct: {}\nlayout: {}\nmessage: {:?}\ninput: {:?}\n",
        id,
        part,
        if crate::thorough() { "thorough" } else { "quick" },
        numbers(&tape[0]),
        numbers(&tape[1]),
        message,
        input
    )
}

fn replay(file: &str, quiet: bool) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {}", file, e);
            return 2;
        }
    };
    let field = |name: &str| -> String {
        text.lines()
            .find_map(|l| l.strip_prefix(name))
            .unwrap_or("")
            .trim()
            .to_owned()
    };
    if field("tier:") == "thorough" {
        std::env::set_var("VERIF_TIER", "thorough");
    }
    let draws = |name: &str| -> Vec<u32> {
        field(name)
            .split_whitespace()
            .filter_map(|s| s.parse().ok())
            .collect()
    };
    let rec: Recording = [draws("struct:"), draws("layout:")];
    let prop = match find(&field("property:")) {
        Some(p) => p,
        None => return 2,
    };
    let check = match find_part(&prop, &field("part:")) {
        Some((_, p)) => p.check,
        None => return 2,
    };
    let (r, cx) = tape::on_big_stack(move || tape::replay_tape(check, rec));
    if !quiet {
        println!("input:\n{}", cx.input);
    }
    match r {
        Ok(()) => {
            if !quiet {
                println!("passes");
            }
            0
        }
        Err(e) => {
            if !quiet {
                println!("message: {}", e);
                println!("VIOLATION property={} replay={}", prop.id, file);
            }
            1
        }
    }
}

fn one(id: &str, part: &str, index: &str, journal: &str) -> i32 {
    let prop = find(id).unwrap();
    let (n, p) = find_part(&prop, part).unwrap();
    let name = format!("{}/{}", id, part);
    let mut job = job(&name, n, p);
    job.cases = u64::MAX;
    let t = match tape::tape_of(&job, index.parse().unwrap()) {
        Some(t) => t,
        None => return 0,
    };
    let mut t = t.journaled(journal);
    let check = p.check;
    let r = tape::on_big_stack(move || {
        let mut cx = tape::Cx::default();
        tape::run_case(check, &mut t, &mut cx)
    });
    r.is_err() as i32
}

// ---- looking after it

enum Fate {
    Code(i32),
    Killed,
    Hung,
}

fn spawn(args: &[&str], timeout: Option<Duration>, quiet: bool) -> Fate {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.args(args);
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    let mut child = c.spawn().expect("cannot start the checks");
    let start = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return s.code().map_or(Fate::Killed, Fate::Code),
            Ok(None) => {}
            Err(_) => return Fate::Killed,
        }
        if timeout.map_or(false, |t| start.elapsed() > t) {
            let _ = child.kill();
            let _ = child.wait();
            return Fate::Hung;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

const PATIENCE: Duration = Duration::from_secs(30);

fn supervise(id: &str) -> i32 {
    let prop = match find(id) {
        Some(p) => p,
        None => {
            eprintln!("there is no property {}", id);
            return 2;
        }
    };
    let start = Instant::now();
    let tmp = std::env::temp_dir().join(format!("conch-harness-{}", std::process::id()));
    if std::fs::create_dir_all(&tmp).is_err() {
        eprintln!("no place for temporary files");
        return 3;
    }
    let path = |n: &str| tmp.join(n).to_string_lossy().into_owned();
    let code = match spawn(&["inner", id, &path("beat")], None, false) {
        Fate::Code(c) if c == 0 || c == 1 || c == 2 => c,
        fate => {
            let how = match fate {
                Fate::Code(EXIT_STUCK) => "did not come to an end".to_owned(),
                Fate::Code(c) => format!("exited with {}", c),
                _ => "crashed".to_owned(),
            };
            println!("the checks {}; looking for the case", how);
            // They may have been shrinking a failure
            if let Ok(text) = std::fs::read_to_string(path("beat.raw")) {
                let part = text.lines().find_map(|l| l.strip_prefix("part: "));
                let dir = format!("{}/replay", root());
                let _ = std::fs::create_dir_all(&dir);
                let file = format!("{}/{}-{}.replay", dir, prop.id, part.unwrap_or("?"));
                let _ = std::fs::write(&file, &text);
                println!("{}", text);
                println!("VIOLATION property={} replay={}", prop.id, file);
                evidence(&prop, &[], &[], 1, start);
                let _ = std::fs::remove_dir_all(&tmp);
                return 1;
            }
            autopsy(&prop, &path, start)
        }
    };
    let _ = std::fs::remove_dir_all(&tmp);
    code
}

/// Find the case which took the process down with it.
fn autopsy(prop: &Prop, path: &dyn Fn(&str) -> String, start: Instant) -> i32 {
    let bad = |f: &Fate| match f {
        Fate::Code(0) | Fate::Code(1) => None,
        Fate::Hung => Some("does not end"),
        _ => Some("crashes"),
    };
    for (part, index) in Beat::read(&path("beat")) {
        let part = match prop.parts.get(part as usize) {
            Some(p) => p,
            None => continue,
        };
        let journal = path("journal");
        let fate = spawn(
            &["one", prop.id, part.name, &index.to_string(), &journal],
            Some(PATIENCE),
            true,
        );
        let what = match bad(&fate) {
            Some(w) => w,
            None => continue,
        };
        let mut rec: Recording = Default::default();
        for l in std::fs::read_to_string(&journal).unwrap_or_default().lines() {
            if let Some((s, v)) = l.split_once(' ') {
                if let (Ok(s), Ok(v)) = (s.parse::<usize>(), v.parse()) {
                    if s < 2 {
                        rec[s].push(v);
                    }
                }
            }
        }
        if let Some(f) = part.enumerate {
            rec = f(index).unwrap_or(rec);
        }
        let file = path("tape");
        let patience = if what == "crashes" { PATIENCE } else { Duration::from_secs(5) };
        let fails = |r: &Recording| {
            std::fs::write(&file, replay_text(prop.id, part.name, r, "", "")).ok()?;
            bad(&spawn(&["tape", &file], Some(patience), true)).map(|_| r.clone())
        };
        let deadline = Instant::now() + Duration::from_secs(60);
        let (tape, shrink_steps) = tape::shrink(rec, 3000, deadline, &fails);
        let f = Failure {
            index,
            tape,
            message: format!("parsing {}", what),
            input: String::from("(see the replay file)"),
            shrink_steps,
        };
        violation(prop, part, &f);
        evidence(prop, &[], &[], 1, start);
        return 1;
    }
    eprintln!("no single case fails again");
    4
}

// ---- evidence

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(", "))
}

fn evidence(prop: &Prop, runs: &[(&Source, Summary)], known: &[String], violations: i32, start: Instant) {
    let sum = |f: fn(&Summary) -> u64| runs.iter().map(|r| f(&r.1)).sum::<u64>();
    let mut parts = Vec::new();
    for (p, s) in runs {
        let classes: Vec<_> = s
            .classes
            .iter()
            .map(|(k, v)| format!("{}: {}", json(k), v))
            .collect();
        parts.push(format!(
            "{{\"name\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"enumerated\": {}, \
             \"excluded_known\": {}, \"cut_short\": {}, \"classes\": {{{}}}}}",
            json(p.name),
            s.evaluations,
            s.distinct_nontrivial,
            p.enumerate.is_some(),
            s.excluded,
            s.cut_short,
            classes.join(", ")
        ));
    }
    let samples: Vec<&String> = runs.iter().flat_map(|r| r.1.samples.iter().take(4)).collect();
    let text = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": \
         {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": {},\n  \
         \"parts\": [{}], \"known_findings\": {}}},\n \"assumptions\": {}, \"wall_s\": {:.3}, \
         \"violations\": {}}}\n",
        json(prop.id),
        json(if crate::thorough() { "thorough" } else { "quick" }),
        seed() as i64,
        json(prop.level),
        sum(|s| s.evaluations),
        sum(|s| s.distinct_nontrivial),
        json(prop.rule),
        list(samples, |s| json(s)),
        parts.join(", "),
        list(known, |s| json(s)),
        list(prop.assumptions, |s| json(s)),
        start.elapsed().as_secs_f64(),
        violations
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, prop.id), text) {
        eprintln!("cannot write evidence: {}", e);
    }
}
