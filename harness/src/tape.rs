//! Property testing engine: choice tapes, shrinking, and the (deterministic) case runner.

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV based, so that it is stable across runs and toolchains
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            splitmix(&mut x)
        }
        fn write(&mut self, b: &[u8]) {
            for &b in b {
                self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
            }
        }
    }
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    h.finish()
}

pub const STRUCT: usize = 0;
pub const LAYOUT: usize = 1;
pub type Recording = [Vec<u32>; 2];

/// A recording of bounded draws, in two independent streams.
#[derive(Debug)]
pub struct Tape {
    data: Recording,
    pos: [usize; 2],
    rng: Option<[u64; 2]>,
    /// Where each fresh draw is recorded at once, for cases which may kill the process
    journal: Option<std::fs::File>,
}

impl Tape {
    pub fn fresh(seed: u64) -> Tape {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Tape {
            data: Default::default(),
            pos: [0; 2],
            rng: Some([a, b]),
            journal: None,
        }
    }

    pub fn replay(data: Recording) -> Tape {
        Tape {
            data,
            pos: [0; 2],
            rng: None,
            journal: None,
        }
    }

    pub fn journaled(mut self, path: &str) -> Tape {
        self.journal = std::fs::File::create(path).ok();
        self
    }

    fn raw(&mut self, stream: usize, n: u32) -> u32 {
        let n = n.max(1);
        let p = self.pos[stream];
        self.pos[stream] += 1;
        if p < self.data[stream].len() {
            let v = self.data[stream][p];
            if v >= n {
                self.data[stream][p] = v % n;
            }
            return v % n;
        }
        let v = match &mut self.rng {
            Some(r) => (((splitmix(&mut r[stream]) >> 32) * u64::from(n)) >> 32) as u32,
            None => 0,
        };
        self.data[stream].push(v);
        if let Some(f) = &mut self.journal {
            use std::io::Write;
            let _ = f.write_all(format!("{} {}\n", stream, v).as_bytes());
        }
        v
    }

    /// A structural choice in `0..n`; 0 is the simplest one.
    pub fn n(&mut self, n: u32) -> u32 {
        self.raw(STRUCT, n)
    }

    /// A layout choice in `0..n`; 0 is the simplest one.
    pub fn l(&mut self, n: u32) -> u32 {
        self.raw(LAYOUT, n)
    }

    /// True with a chance of `a` in `b`; false is simplest.
    pub fn chance(&mut self, a: u32, b: u32) -> bool {
        self.n(b) >= b - a
    }

    pub fn lchance(&mut self, a: u32, b: u32) -> bool {
        self.l(b) >= b - a
    }

    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.n(v.len() as u32) as usize]
    }

    pub fn of<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.n(v.len() as u32) as usize]
    }

    pub fn lof<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.l(v.len() as u32) as usize]
    }

    /// Index chosen in proportion to the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.n(total);
        for (i, &w) in w.iter().enumerate() {
            if x < w {
                return i;
            }
            x -= w;
        }
        0
    }

    pub fn mark(&self) -> usize {
        self.pos[STRUCT]
    }

    /// Go back to replay structural choices once more (with new layout choices).
    pub fn rewind(&mut self, mark: usize) {
        self.pos[STRUCT] = mark;
    }

    pub fn consumed(self) -> Recording {
        let Tape {
            mut data, pos, ..
        } = self;
        data[0].truncate(pos[0]);
        data[1].truncate(pos[1]);
        data
    }
}

/// What a case reports about itself.
#[derive(Debug, Default)]
pub struct Cx {
    /// The generated input, written out
    pub input: String,
    pub nontrivial: bool,
    pub classes: BTreeMap<&'static str, u64>,
    /// The case fell into a class which is excluded because of a known finding
    pub excluded: bool,
}

impl Cx {
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }
}

pub type Check = fn(&mut Tape, &mut Cx) -> Result<(), String>;

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run a piece of code, turning panics into errors.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", last_panic()))
}

pub fn run_case(check: Check, tape: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    conch_parser::verif::set_fuel(u64::MAX);
    match guarded(|| check(tape, cx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

#[derive(Debug)]
pub struct Failure {
    pub index: u64,
    pub tape: Recording,
    pub message: String,
    pub input: String,
    pub shrink_steps: u64,
}

#[derive(Debug, Default)]
pub struct Summary {
    pub evaluations: u64,
    pub excluded: u64,
    pub distinct_nontrivial: u64,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    /// Time ran out before all cases were run
    pub cut_short: bool,
    /// An enumeration came to its end
    pub exhausted: bool,
}

pub fn case_seed(seed: u64, prop: &str, index: u64) -> u64 {
    hash64(&(seed, prop, index))
}

/// Shrink a failing recording. The attempt returns what was consumed of a recording if it
/// still fails.
pub fn shrink(
    start: Recording,
    max_evals: u64,
    deadline: Instant,
    fails: &dyn Fn(&Recording) -> Option<Recording>,
) -> (Recording, u64) {
    let evals = std::cell::Cell::new(0u64);
    let attempt = |data: &Recording| -> Option<Recording> {
        if evals.get() >= max_evals || Instant::now() > deadline {
            evals.set(max_evals);
            return None;
        }
        evals.set(evals.get() + 1);
        fails(data)
    };
    let size = |d: &Recording| {
        (
            d[0].len() + d[1].len(),
            d[0].iter().chain(&d[1]).map(|&x| u64::from(x)).sum::<u64>(),
        )
    };

    let mut best = match attempt(&start) {
        Some(b) => b,
        None => return (start, evals.get()),
    };
    loop {
        let before = size(&best);
        // Drop the layout altogether
        for s in [LAYOUT, STRUCT] {
            for keep in [0, best[s].len() / 4, best[s].len() / 2] {
                if keep < best[s].len() {
                    let mut c = best.clone();
                    c[s].truncate(keep);
                    if let Some(b) = attempt(&c) {
                        if size(&b) < size(&best) {
                            best = b;
                        }
                    }
                }
            }
        }
        // Delete or zero runs
        for s in [STRUCT, LAYOUT] {
            for &k in &[32usize, 16, 8, 4, 3, 2, 1] {
                let mut i = 0;
                while i + k <= best[s].len() {
                    let mut c = best.clone();
                    c[s].drain(i..i + k);
                    let mut ok = false;
                    if let Some(b) = attempt(&c) {
                        if size(&b) < size(&best) {
                            best = b;
                            ok = true;
                        }
                    }
                    if !ok && best[s][i..i + k].iter().any(|&x| x != 0) {
                        let mut c = best.clone();
                        for x in &mut c[s][i..i + k] {
                            *x = 0;
                        }
                        if let Some(b) = attempt(&c) {
                            if size(&b) < size(&best) {
                                best = b;
                            }
                        }
                    }
                    if !ok {
                        i += k.max(1);
                    }
                    if evals.get() >= max_evals {
                        return (best, evals.get());
                    }
                }
            }
            // Lower single values
            let mut i = 0;
            while i < best[s].len() {
                let mut hi = best[s][i];
                let mut lo = 0;
                while lo < hi && i < best[s].len() {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    c[s][i] = mid;
                    match attempt(&c) {
                        Some(b) if size(&b) < size(&best) => {
                            best = b;
                            hi = mid;
                        }
                        _ => lo = mid + 1,
                    }
                }
                i += 1;
                if evals.get() >= max_evals {
                    return (best, evals.get());
                }
            }
        }
        if size(&best) >= before {
            return (best, evals.get());
        }
    }
}

pub fn replay_tape(check: Check, data: Recording) -> (Result<(), String>, Cx) {
    let mut t = Tape::replay(data);
    let mut cx = Cx::default();
    let r = run_case(check, &mut t, &mut cx);
    (r, cx)
}

pub fn fails_in_process(check: Check) -> impl Fn(&Recording) -> Option<Recording> {
    move |data| {
        let mut t = Tape::replay(data.clone());
        let mut cx = Cx::default();
        if run_case(check, &mut t, &mut cx).is_err() && !cx.excluded {
            Some(t.consumed())
        } else {
            None
        }
    }
}

/// Which cases are running right now, kept in a file so that it outlives the process.
pub struct Beat(Option<std::fs::File>);

pub const IDLE: u64 = u64::MAX;

impl Beat {
    pub fn new(path: Option<&str>) -> Beat {
        Beat(path.and_then(|p| std::fs::OpenOptions::new().write(true).create(true).open(p).ok()))
    }
    fn set(&self, thread: usize, part: u64, index: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&part.to_le_bytes());
            b[8..].copy_from_slice(&index.to_le_bytes());
            let _ = f.write_all_at(&b, thread as u64 * 16);
        }
    }
    pub fn read(path: &str) -> Vec<(u64, u64)> {
        let b = std::fs::read(path).unwrap_or_default();
        b.chunks_exact(16)
            .map(|c| {
                let mut x = [0; 8];
                let mut y = [0; 8];
                x.copy_from_slice(&c[..8]);
                y.copy_from_slice(&c[8..]);
                (u64::from_le_bytes(x), u64::from_le_bytes(y))
            })
            .filter(|&(_, i)| i != IDLE)
            .collect()
    }
}

/// The process gave up since a single case ran for too long.
pub const EXIT_STUCK: i32 = 5;
const STUCK_SECONDS: u64 = 60;

/// One source of cases.
pub struct Job<'a> {
    /// Seeds of cases depend on this name
    pub name: &'a str,
    pub number: u64,
    pub check: Check,
    /// Cases which are enumerated rather than drawn
    pub enumerate: Option<fn(u64) -> Option<Recording>>,
    pub seed: u64,
    pub cases: u64,
    pub deadline: Instant,
    /// Told about a failure before it is shrunk
    pub on_failure: Box<dyn Fn(&Failure) + Sync + 'a>,
}

pub fn tape_of(job: &Job<'_>, index: u64) -> Option<Tape> {
    match job.enumerate {
        Some(f) => f(index).map(Tape::replay),
        None => Some(Tape::fresh(case_seed(job.seed, job.name, index))),
    }
}

/// Run a fixed number of cases on all cores.
pub fn run(job: &Job<'_>, beat: &Beat) -> Summary {
    const CHUNK: u64 = 32;
    let next = AtomicU64::new(0);
    let first_fail = AtomicU64::new(u64::MAX);
    let total: Mutex<(Summary, HashSet<u64>)> = Mutex::new(Default::default());
    let threads = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(2, 8);
    let progress: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let done = std::sync::atomic::AtomicBool::new(false);

    std::thread::scope(|s| {
        let handles: Vec<_> = (0..threads)
            .map(|me| {
                let (next, first_fail, total) = (&next, &first_fail, &total);
                let progress = &progress;
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let mut seen = HashSet::new();
                        let mut sum = Summary::default();
                        'work: loop {
                            let start = next.fetch_add(CHUNK, Ordering::SeqCst);
                            if start >= job.cases || start > first_fail.load(Ordering::SeqCst) {
                                break;
                            }
                            if Instant::now() > job.deadline {
                                sum.cut_short = true;
                                break;
                            }
                            for i in start..(start + CHUNK).min(job.cases) {
                                let mut t = match tape_of(job, i) {
                                    Some(t) => t,
                                    None => {
                                        sum.exhausted = true;
                                        break 'work;
                                    }
                                };
                                progress[me].fetch_add(1, Ordering::SeqCst);
                                beat.set(me, job.number, i);
                                let mut cx = Cx::default();
                                let r = run_case(job.check, &mut t, &mut cx);
                                sum.evaluations += 1;
                                if cx.excluded {
                                    sum.excluded += 1;
                                    continue;
                                }
                                if cx.nontrivial {
                                    seen.insert(hash64(&cx.input));
                                }
                                for (k, v) in cx.classes {
                                    *sum.classes.entry(k).or_insert(0) += v;
                                }
                                if (i == 7 || i == 77 || i % 4999 == 4) && sum.samples.len() < 3 {
                                    let mut s = cx.input.clone();
                                    if s.len() > 600 {
                                        let mut e = 600;
                                        while !s.is_char_boundary(e) {
                                            e -= 1;
                                        }
                                        s.truncate(e);
                                    }
                                    sum.samples.push(s);
                                }
                                if let Err(message) = r {
                                    if first_fail.fetch_min(i, Ordering::SeqCst) > i {
                                        sum.failure = Some(Failure {
                                            index: i,
                                            tape: t.consumed(),
                                            message,
                                            input: cx.input,
                                            shrink_steps: 0,
                                        });
                                    }
                                    break;
                                }
                            }
                        }
                        beat.set(me, job.number, IDLE);
                        progress[me].store(u64::MAX, Ordering::SeqCst);
                        let mut t = total.lock().unwrap();
                        t.0.evaluations += sum.evaluations;
                        t.0.excluded += sum.excluded;
                        t.0.cut_short |= sum.cut_short;
                        t.0.exhausted |= sum.exhausted;
                        for (k, v) in sum.classes {
                            *t.0.classes.entry(k).or_insert(0) += v;
                        }
                        t.0.samples.extend(sum.samples);
                        t.1.extend(seen);
                        if let Some(f) = sum.failure {
                            if t.0.failure.as_ref().map_or(true, |o| o.index > f.index) {
                                t.0.failure = Some(f);
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();

        // A case takes about a millisecond. If one takes ages, then let another process decide
        // whether it ever ends.
        let (progress, done) = (&progress, &done);
        s.spawn(move || {
            let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); threads];
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(50));
                for (i, l) in last.iter_mut().enumerate() {
                    let now = progress[i].load(Ordering::SeqCst);
                    if now != l.0 || now == u64::MAX {
                        *l = (now, Instant::now());
                    } else if l.1.elapsed().as_secs() > STUCK_SECONDS {
                        eprintln!("a case does not seem to end");
                        std::process::exit(EXIT_STUCK);
                    }
                }
            }
        });
        for h in handles {
            let _ = h.join();
        }
        done.store(true, Ordering::SeqCst);
    });

    let (mut sum, seen) = total.into_inner().unwrap();
    sum.distinct_nontrivial = seen.len() as u64;
    sum.samples.sort_by_key(|s| hash64(s));
    sum.samples.truncate(5);

    if let Some(f) = sum.failure.take() {
        (job.on_failure)(&f);
        let check = job.check;
        sum.failure = Some(on_big_stack(move || {
            let deadline = Instant::now() + std::time::Duration::from_secs(60);
            let (tape, steps) = shrink(f.tape.clone(), 6000, deadline, &fails_in_process(check));
            let (r, cx) = replay_tape(check, tape.clone());
            match r {
                Err(message) => Failure {
                    tape,
                    message,
                    input: cx.input,
                    shrink_steps: steps,
                    ..f
                },
                Ok(()) => Failure {
                    shrink_steps: steps,
                    ..f
                },
            }
        }));
    }
    sum
}

pub fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap()
}
