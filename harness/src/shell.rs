//! Runs generated programs in real shells: as a user without any rights, in a directory of its
//! own, without any external commands, and within limits.

use std::io::Read;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

const NOBODY: u32 = 65534;

/// `$1`: what to do, the rest: sources, each to be worked on in a directory of its own
const DRIVER: &str = r#"
PATH=; HOME=/h; n=0; mode=$1; shift
ulimit -t 3; ulimit -f 1000
[ -z "$BASH_VERSION" ] || set +B
p() {
    printf '<%s>' "$@"; echo
    while IFS= read -r REPLY || [ -n "$REPLY" ]; do printf '{%s}\n' "$REPLY"; done
    return $(($# % 2))
}
a() { p a "$@"; }; b() { p b "$@"; }; foo() { p foo "$@"; }; bar() { p bar "$@"; }
x1() { p x1 "$@"; }; _y() { p _y "$@"; }; Z() { p Z "$@"; }; qux_2() { p qux_2 "$@"; }
e() { p e "$@"; }; u() { p u "$@"; }
one() {
    cd "$n" || exit 99
    exec </dev/null 2>/dev/null
    k9=5 a=3 b=12 foo=foo bar='b a r' x1=7 Z='*'
    shift "$#"
    set -- 1 'b  c' '' 4 foo '*' 7 8 9 ten 11
    eval "
$src"
}
for src do
    n=$((n + 1))
    case $mode in
    d) (
        eval "f__() {
$src
}" && declare -f f__) 2>/dev/null || printf 'no syntax';;
    e) if [ $n != 1 ] || (eval "f__() {
$src
}") 2>/dev/null; then
            (one); printf '[%s]' "$?"
        else
            printf 'no syntax'
        fi;;
    esac
    printf '\n\001\n'
done
"#;

pub struct Shell {
    dir: PathBuf,
    /// Whether there is such a user
    drop: bool,
}

static COUNT: AtomicU64 = AtomicU64::new(0);

impl Shell {
    /// The results of running each of the sources.
    pub fn run(&self, shell: &str, mode: &str, sources: &[&str]) -> Option<Vec<Vec<u8>>> {
        let dir = self.dir.join(COUNT.fetch_add(1, Ordering::Relaxed).to_string());
        let r = self.run_in(&dir, shell, mode, sources);
        let _ = std::fs::remove_dir_all(&dir);
        r
    }

    fn run_in(&self, dir: &Path, shell: &str, mode: &str, src: &[&str]) -> Option<Vec<Vec<u8>>> {
        let open = |d: &Path| {
            std::fs::create_dir(d).ok()?;
            std::fs::set_permissions(d, PermissionsExt::from_mode(0o777)).ok()
        };
        open(dir)?;
        if mode == "e" {
            for i in 1..=src.len() {
                open(&dir.join(i.to_string()))?;
            }
        }
        let mut c = Command::new(shell);
        c.arg("-c").arg(DRIVER).arg("sh").arg(mode).args(src);
        c.current_dir(dir).env_clear().env("LC_ALL", "C.UTF-8");
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
        c.process_group(0);
        if self.drop {
            c.uid(NOBODY).gid(NOBODY);
        }
        let mut child = c.spawn().ok()?;
        let mut out = child.stdout.take()?;
        let id = child.id();
        let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        watch(id, done.clone());
        let mut text = Vec::new();
        let ok = (&mut out).take(1 << 20).read_to_end(&mut text).is_ok();
        done.store(true, Ordering::SeqCst);
        if text.len() == 1 << 20 {
            let _ = child.kill();
        }
        let status = child.wait().ok()?;
        if !ok || status.code().is_none() {
            return None;
        }
        let mut v: Vec<Vec<u8>> = Vec::new();
        let mark = b"\n\x01\n";
        let mut rest = &text[..];
        while let Some(i) = rest.windows(3).position(|w| w == mark) {
            v.push(rest[..i].to_vec());
            rest = &rest[i + 3..];
        }
        if v.len() == src.len() {
            Some(v)
        } else {
            None
        }
    }
}

impl Shell {
    /// Whether a shell takes this for a program, which it never runs, and what it says.
    pub fn syntax(&self, shell: &[&str], src: &str) -> Option<(bool, String)> {
        let mut c = Command::new(shell[0]);
        // Not to be taken for an option
        let src = format!("\n{}", src);
        c.args(&shell[1..]).arg("-n").arg("-c").arg(src).arg("sh");
        c.current_dir(&self.dir).env_clear().env("LC_ALL", "C.UTF-8").env("PATH", "");
        c.stdin(Stdio::null());
        if self.drop {
            c.uid(NOBODY).gid(NOBODY);
        }
        let out = c.output().ok()?;
        out.status.code()?;
        let text = String::from_utf8_lossy(&out.stderr).into_owned();
        Some((out.status.success(), text))
    }

    pub fn new() -> Option<Shell> {
        let dir = std::env::temp_dir().join(format!("conch-verif-{}", std::process::id()));
        std::fs::create_dir(&dir).ok()?;
        std::fs::set_permissions(&dir, PermissionsExt::from_mode(0o755)).ok()?;
        let mut s = Shell { dir, drop: true };
        for drop in [true, false] {
            s.drop = drop;
            if s.run("/bin/bash", "e", &["echo x"]) == Some(vec![b"x\n[0]".to_vec()]) {
                return Some(s);
            }
        }
        None
    }
}

static SHELL: OnceLock<Option<Shell>> = OnceLock::new();

pub fn get() -> Option<&'static Shell> {
    SHELL.get_or_init(Shell::new).as_ref()
}

/// To be called at the end.
pub fn clean_up() {
    if let Some(Some(s)) = SHELL.get() {
        let _ = std::fs::remove_dir_all(&s.dir);
    }
}

type Watched = Vec<(u32, Instant, std::sync::Arc<std::sync::atomic::AtomicBool>)>;

/// Kill what takes much too long.
fn watch(id: u32, done: std::sync::Arc<std::sync::atomic::AtomicBool>) {
    use std::sync::{Mutex, Once};
    static ALL: Mutex<Watched> = Mutex::new(Vec::new());
    static START: Once = Once::new();
    ALL.lock().unwrap().push((id, Instant::now(), done));
    START.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(200));
            let mut all = ALL.lock().unwrap();
            all.retain(|w| !w.2.load(Ordering::SeqCst));
            for w in all.iter() {
                if w.1.elapsed() > Duration::from_secs(20) {
                    let _ = Command::new("/bin/kill")
                        .args(["-9", "--", &format!("-{}", w.0)])
                        .status();
                }
            }
        });
    });
}
