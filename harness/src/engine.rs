//! Case execution, statistics, shrinking, worker processes and reporting.

use crate::src::{hash_bytes, mix, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub enum Stop {
    /// The case is outside what this check decides (resource cap reached, ...)
    Discard(&'static str),
    /// The property is violated
    Fail(String),
}
pub type R<T = ()> = Result<T, Stop>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::engine::Stop::Fail(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::engine::Stop::Fail(format!($($a)*))); } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub tier: Tier,
    pub evaluations: u64,
    pub discards: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    max_samples: usize,
    mode_tag: u64,
    /// exhaustive enumeration: index of the current leaf, my part, number of parts
    leaf: Option<(u64, u64, u64)>,
    /// print the description of the case before running it
    pub want_desc: bool,
    begun: bool,
}

impl Ctx {
    fn new(tier: Tier, mode: &str) -> Ctx {
        Ctx {
            tier,
            evaluations: 0,
            discards: 0,
            nontrivial: HashSet::new(),
            labels: BTreeMap::new(),
            samples: vec![],
            max_samples: 3,
            mode_tag: hash_bytes(mode.as_bytes()),
            leaf: None,
            want_desc: false,
            begun: false,
        }
    }
    /// Must be called by a case once its input is completely generated.
    /// Returns false if this process must not run the case.
    pub fn begin(&mut self, hash: u64, nontrivial: bool, desc: impl FnOnce() -> String) -> bool {
        if let Some((i, p, n)) = self.leaf {
            if i % n != p {
                return false;
            }
        }
        self.begun = true;
        self.evaluations += 1;
        if nontrivial {
            self.nontrivial.insert(mix(hash ^ self.mode_tag));
        }
        if self.want_desc {
            println!("CASE {}", esc(&desc()));
            let _ = std::io::stdout().flush();
        } else if nontrivial
            && self.samples.len() < self.max_samples
            && self.evaluations % (1 + 7 * self.samples.len() as u64) == 0
        {
            let mut s = desc();
            if s.len() > 600 {
                let mut cut = 600;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.samples.push(s);
        }
        true
    }
    pub fn label(&mut self, l: &str) {
        self.count(l, 1)
    }
    pub fn count(&mut self, l: &str, n: u64) {
        if let Some(x) = self.labels.get_mut(l) {
            *x += n;
        } else {
            self.labels.insert(l.to_string(), n);
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> R;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Prof {
    /// 3 of 4 jobs with run-time checks (debug assertions, overflow checks), 1 of 4 plain release
    Mixed,
    /// every case in both builds
    Both,
}

pub struct Mode {
    pub name: &'static str,
    pub run: CaseFn,
    /// Some(parts) for exhaustive enumeration: (quick parts executed, total parts)
    pub exhaustive: bool,
    /// random: number of cases. exhaustive: ignored
    pub quick: u64,
    pub thorough: u64,
    /// random: cases per worker process; exhaustive: number of parts
    pub chunk: u64,
    /// exhaustive modes only run in this tier or above
    pub fresh_thread: bool,
    pub prof: Prof,
    pub thorough_only: bool,
}

impl Mode {
    pub fn random(name: &'static str, run: CaseFn, quick: u64, thorough: u64, chunk: u64) -> Mode {
        Mode {
            name,
            run,
            exhaustive: false,
            quick,
            thorough,
            chunk,
            fresh_thread: false,
            prof: Prof::Mixed,
            thorough_only: false,
        }
    }
    pub fn exh(name: &'static str, run: CaseFn, parts: u64) -> Mode {
        Mode {
            name,
            run,
            exhaustive: true,
            quick: 0,
            thorough: 0,
            chunk: parts,
            fresh_thread: false,
            prof: Prof::Mixed,
            thorough_only: false,
        }
    }
    pub fn thread(mut self) -> Mode {
        self.fresh_thread = true;
        self
    }
    pub fn both(mut self) -> Mode {
        self.prof = Prof::Both;
        self
    }
    pub fn thorough_only(mut self) -> Mode {
        self.thorough_only = true;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub modes: Vec<Mode>,
}

// ---------------------------------------------------------------- execution

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {m}")));
    }));
}

/// Run f, turning a panic into Err(message)
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

enum Verdict {
    Ok,
    Skipped,
    Discard(&'static str),
    Fail(String),
}

const STACK: usize = 256 << 20;

fn run_case(mode: &Mode, src: &mut Src, ctx: &mut Ctx) -> Verdict {
    ctx.begun = false;
    let run = mode.run;
    let body = |src: &mut Src, ctx: &mut Ctx| match no_panic(|| run(src, ctx)) {
        Ok(Ok(())) => None,
        Ok(Err(s)) => Some(s),
        Err(p) => Some(Stop::Fail(p)),
    };
    let r = if mode.fresh_thread {
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || body(src, ctx))
                .expect("spawn")
                .join()
        })
        .unwrap_or_else(|_| Some(Stop::Fail("panic outside the case".into())))
    } else {
        body(src, ctx)
    };
    match r {
        None => {
            if ctx.begun {
                Verdict::Ok
            } else {
                Verdict::Skipped
            }
        }
        Some(Stop::Discard(d)) => {
            ctx.discards += 1;
            ctx.count(&format!("discard:{d}"), 1);
            Verdict::Discard(d)
        }
        Some(Stop::Fail(m)) => Verdict::Fail(m),
    }
}

fn case_seed(seed: u64, prop: &str, mode: &str, index: u64) -> u64 {
    let a = hash_bytes(format!("{prop}/{mode}").as_bytes());
    mix(mix(seed ^ a).wrapping_add(index))
}

fn esc(s: &str) -> String {
    s.chars()
        .flat_map(|c| match c {
            '\\' => "\\\\".chars().collect::<Vec<_>>(),
            '\n' => "\\n".chars().collect(),
            '\r' => "\\r".chars().collect(),
            c => vec![c],
        })
        .collect()
}
fn unesc(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => r.push('\n'),
                Some('r') => r.push('\r'),
                Some(x) => r.push(x),
                None => {}
            }
        } else {
            r.push(c)
        }
    }
    r
}

fn choices_to_string(c: &[u64]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn choices_from_string(s: &str) -> Vec<u64> {
    s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

/// Result of one worker as written to its output file
#[derive(Default)]
struct WorkerOut {
    evaluations: u64,
    discards: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    hashes: Vec<u64>,
    fail: Option<(Vec<u64>, String)>,
    /// the cases that the same worker ran just before the failing one
    before: Vec<Vec<u64>>,
    complete: bool,
}

/// The last cases a worker ran: state that leaks from one case into the next
/// ones makes a failure depend on them
#[derive(Default)]
struct Recent {
    cases: VecDeque<Vec<u64>>,
    size: usize,
}
impl Recent {
    fn push(&mut self, c: &[u64]) {
        self.size += c.len() + 8;
        self.cases.push_back(c.to_vec());
        while self.size > 400_000 || self.cases.len() > 2048 {
            match self.cases.pop_front() {
                Some(c) => self.size -= c.len() + 8,
                None => break,
            }
        }
    }
}

fn write_out(path: &Path, ctx: &Ctx, fail: Option<(&[u64], &str)>, before: &Recent) {
    let mut s = String::new();
    s.push_str(&format!("evals {}\ndiscards {}\n", ctx.evaluations, ctx.discards));
    for (k, v) in &ctx.labels {
        s.push_str(&format!("label {} {}\n", v, k));
    }
    for x in &ctx.samples {
        s.push_str(&format!("sample {}\n", esc(x)));
    }
    if let Some((c, m)) = fail {
        for b in &before.cases {
            s.push_str(&format!("before {}\n", choices_to_string(b)));
        }
        s.push_str(&format!("choices {}\nmsg {}\n", choices_to_string(c), esc(m)));
    }
    s.push_str("complete\n");
    let mut b = Vec::with_capacity(ctx.nontrivial.len() * 8);
    for h in &ctx.nontrivial {
        b.extend_from_slice(&h.to_le_bytes());
    }
    let _ = fs::write(path.with_extension("hash"), b);
    let tmp = path.with_extension("tmp");
    fs::write(&tmp, s).expect("write worker output");
    fs::rename(&tmp, path).expect("rename worker output");
}

fn read_out(path: &Path) -> WorkerOut {
    let mut w = WorkerOut::default();
    let mut choices = None;
    if let Ok(s) = fs::read_to_string(path) {
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "evals" => w.evaluations = v.parse().unwrap_or(0),
                "discards" => w.discards = v.parse().unwrap_or(0),
                "label" => {
                    if let Some((n, name)) = v.split_once(' ') {
                        *w.labels.entry(name.to_string()).or_insert(0) += n.parse().unwrap_or(0)
                    }
                }
                "sample" => w.samples.push(unesc(v)),
                "before" => w.before.push(choices_from_string(v)),
                "choices" => choices = Some(choices_from_string(v)),
                "msg" => w.fail = Some((choices.take().unwrap_or_default(), unesc(v))),
                "complete" => w.complete = true,
                _ => {}
            }
        }
    }
    if let Ok(b) = fs::read(path.with_extension("hash")) {
        w.hashes = b
            .chunks_exact(8)
            .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
            .collect();
    }
    w
}

fn big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, f)
            .expect("spawn")
            .join()
            .expect("worker thread")
    })
}

/// worker: run cases start..start+count of a random mode, or part `start` of
/// `count` parts of an exhaustive one
pub fn worker(prop: &Prop, mode: &Mode, tier: Tier, seed: u64, start: u64, count: u64, out: &Path) {
    let progress = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(out.with_extension("progress"))
        .expect("progress file");
    big_stack(move || {
        let mut ctx = Ctx::new(tier, mode.name);
        let mut recent = Recent::default();
        let announce = |i: u64| {
            let _ = progress.write_at(&i.to_le_bytes(), 0);
        };
        // development aid: report slow cases
        let slow: Option<u128> = std::env::var("VH_SLOW").ok().and_then(|x| x.parse().ok());
        if !mode.exhaustive {
            for i in start..start + count {
                announce(i);
                let mut src = Src::random(case_seed(seed, prop.id, mode.name, i));
                let t0 = Instant::now();
                if let Verdict::Fail(m) = run_case(mode, &mut src, &mut ctx) {
                    write_out(out, &ctx, Some((&src.rec, &m)), &recent);
                    return;
                }
                recent.push(&src.rec);
                if slow.is_some_and(|x| t0.elapsed().as_millis() >= x) {
                    println!("slow {i} {} ms: {:?}", t0.elapsed().as_millis(), choices_to_string(&src.rec));
                }
            }
        } else {
            let mut prefix = Some(vec![]);
            let mut leaf = 0u64;
            while let Some(p) = prefix {
                ctx.leaf = Some((leaf, start, count));
                if leaf % count == start {
                    announce(leaf);
                }
                let mut src = Src::exhaustive(p);
                if let Verdict::Fail(m) = run_case(mode, &mut src, &mut ctx) {
                    write_out(out, &ctx, Some((&src.rec, &m)), &recent);
                    return;
                }
                if ctx.begun {
                    recent.push(&src.rec);
                }
                prefix = src.next_prefix();
                leaf += 1;
            }
        }
        write_out(out, &ctx, None, &recent);
    });
}

fn run_choices(mode: &Mode, tier: Tier, choices: &[u64], want_desc: bool) -> (Verdict, Vec<u64>) {
    let mut ctx = Ctx::new(tier, mode.name);
    ctx.want_desc = want_desc;
    let mut src = Src::replay(choices);
    let v = run_case(mode, &mut src, &mut ctx);
    (v, src.rec.clone())
}

/// Greedy choice-sequence shrinking.
fn shrink_with(mut best: Vec<u64>, mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>, limit: Duration) -> Vec<u64> {
    let t0 = Instant::now();
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut improved = true;
    while improved && t0.elapsed() < limit {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < limit {
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                if let Some(r) = test(&c) {
                    if better(&r, &best) {
                        best = r;
                        improved = true;
                        continue;
                    }
                }
                i += size.max(1);
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks, then lower single values
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < limit {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some(r) = test(&c) {
                        if better(&r, &best) {
                            best = r;
                            improved = true;
                        }
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() && t0.elapsed() < limit {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && t0.elapsed() < limit {
                let mid = lo + (hi - lo) / 2;
                if i >= best.len() {
                    break;
                }
                let mut c = best.clone();
                c[i] = mid;
                match test(&c) {
                    Some(r) if better(&r, &best) => {
                        best = r;
                        improved = true;
                        hi = mid;
                    }
                    _ => lo = mid + 1,
                }
            }
            // decrement this and delete the next ones (for counts)
            if i < best.len() && best[i] > 0 && i + 1 < best.len() {
                for d in 1..=4usize {
                    if i + 1 + d > best.len() {
                        break;
                    }
                    let mut c = best.clone();
                    if c[i] == 0 {
                        break;
                    }
                    c[i] -= 1;
                    c.drain(i + 1..i + 1 + d);
                    if let Some(r) = test(&c) {
                        if better(&r, &best) {
                            best = r;
                            improved = true;
                            if i >= best.len() || i + 1 >= best.len() {
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}

/// `vh shrink`: in-process shrinking of a failing case (panics or check failures)
pub fn shrink_cmd(mode: &Mode, tier: Tier, file: &Path, seconds: u64) {
    let c = choices_from_string(&fs::read_to_string(file).expect("choices file"));
    let file = file.to_path_buf();
    big_stack(move || {
        let best = shrink_with(
            c,
            |c| {
                let (v, rec) = run_choices(mode, tier, c, false);
                match v {
                    Verdict::Fail(_) => {
                        // keep the best so far on disk, in case this process is killed
                        Some(rec)
                    }
                    _ => None,
                }
            },
            Duration::from_secs(seconds),
        );
        fs::write(file.with_extension("shrunk"), choices_to_string(&best)).expect("write");
    });
}

/// `vh one`: run one case; prints the outcome. exit code 1 = fails, 0 = passes
pub fn one_cmd(mode: &Mode, tier: Tier, file: &Path) -> i32 {
    // one case per line, run in this order
    let text = fs::read_to_string(file).expect("choices file");
    let cases: Vec<Vec<u64>> = if text.is_empty() { vec![vec![]] } else { text.lines().map(choices_from_string).collect() };
    big_stack(move || {
        let last = cases.len().saturating_sub(1);
        for (i, c) in cases.iter().enumerate() {
            let (v, _) = run_choices(mode, tier, c, i == last);
            match v {
                Verdict::Fail(m) => {
                    println!("MSG {}", esc(&m));
                    return 1;
                }
                Verdict::Discard(d) if i == last => println!("DISCARD {d}"),
                _ => (),
            }
        }
        0
    })
}

// ------------------------------------------------------------- orchestrator

struct Job {
    mode: usize,
    start: u64,
    count: u64,
    release: bool,
}

pub struct Paths {
    pub verif: PathBuf,
    pub checked: PathBuf,
    pub release: PathBuf,
}

pub fn paths() -> Paths {
    let exe = std::env::current_exe().expect("exe");
    let target = exe.parent().unwrap().parent().unwrap().to_path_buf();
    let verif = std::env::var("VH_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"));
    Paths {
        verif,
        checked: target.join("checked/vh"),
        release: target.join("release/vh"),
    }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

struct Running {
    job: usize,
    child: Child,
    out: PathBuf,
    last_progress: Vec<u8>,
    last_change: Instant,
}

struct Failure {
    mode: usize,
    release: bool,
    choices: Option<Vec<u64>>,
    before: Vec<Vec<u64>>,
    /// the job of the worker: its first case and number of cases
    job: (u64, u64),
    index: Option<u64>,
    msg: String,
    crash: bool,
}

/// a case that makes no progress for so long is given up (inconclusive)
const STALL: Duration = Duration::from_secs(150);

pub fn check(prop: &Prop, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let ps = paths();
    let scratch = std::env::temp_dir().join(format!("vh-{}-{}", prop.id, std::process::id()));
    let _ = fs::remove_dir_all(&scratch);
    fs::create_dir_all(&scratch).expect("scratch dir");
    let ev_file = ps.verif.join("evidence").join(format!("{}.json", prop.id));
    let _ = fs::create_dir_all(ps.verif.join("evidence"));
    let _ = fs::remove_file(&ev_file);

    let mut jobs: Vec<Job> = vec![];
    for (mi, m) in prop.modes.iter().enumerate() {
        if m.thorough_only && tier == Tier::Quick {
            continue;
        }
        let profs = |k: u64| match m.prof {
            Prof::Both => vec![false, true],
            Prof::Mixed => vec![k % 4 == 3],
        };
        if m.exhaustive {
            for p in 0..m.chunk {
                for r in profs(p) {
                    jobs.push(Job { mode: mi, start: p, count: m.chunk, release: r });
                }
            }
        } else {
            let n = if tier == Tier::Quick { m.quick } else { m.thorough };
            let mut i = 0;
            let mut k = 0;
            while i < n {
                let c = m.chunk.min(n - i);
                for r in profs(k) {
                    jobs.push(Job { mode: mi, start: i, count: c, release: r });
                }
                i += c;
                k += 1;
            }
        }
    }
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 8);
    let mut next = 0;
    let mut running: Vec<Running> = vec![];
    let mut total = WorkerOut::default();
    let mut by_mode: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut samples: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let mut by_prof = [0u64; 2];
    let mut failure: Option<Failure> = None;
    let mut errors: Vec<String> = vec![];

    loop {
        while failure.is_none() && running.len() < workers && next < jobs.len() {
            let j = &jobs[next];
            let m = &prop.modes[j.mode];
            let out = scratch.join(format!("job{next}.out"));
            let child = Command::new(if j.release { &ps.release } else { &ps.checked })
                .args(["worker", prop.id, m.name, tier_name(tier)])
                .args([seed.to_string(), j.start.to_string(), j.count.to_string()])
                .arg(&out)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn worker");
            running.push(Running {
                job: next,
                child,
                out,
                last_progress: vec![],
                last_change: Instant::now(),
            });
            next += 1;
        }
        if running.is_empty() {
            break;
        }
        let mut i = 0;
        let mut any = false;
        while i < running.len() {
            let st = running[i].child.try_wait().expect("wait");
            if let Some(st) = st {
                any = true;
                let r = running.swap_remove(i);
                let j = &jobs[r.job];
                let m = &prop.modes[j.mode];
                let o = read_out(&r.out);
                let prog = fs::read(r.out.with_extension("progress")).unwrap_or_default();
                for e in ["out", "hash", "progress", "tmp"] {
                    let _ = fs::remove_file(r.out.with_extension(e));
                }
                let _ = fs::remove_file(&r.out);
                if o.complete {
                    total.evaluations += o.evaluations;
                    total.discards += o.discards;
                    by_prof[j.release as usize] += o.evaluations;
                    let e = by_mode.entry(m.name).or_insert((0, 0));
                    e.0 += o.evaluations;
                    e.1 += o.discards;
                    for (k, v) in o.labels {
                        *total.labels.entry(k).or_insert(0) += v;
                    }
                    nontrivial.extend(o.hashes);
                    let sm = samples.entry(j.mode).or_default();
                    for s in o.samples {
                        if sm.len() < 4 && !sm.contains(&s) {
                            sm.push(s);
                        }
                    }
                    if let Some((c, msg)) = o.fail {
                        if failure.is_none() {
                            failure = Some(Failure {
                                mode: j.mode,
                                release: j.release,
                                choices: Some(c),
                                before: o.before,
                                job: (j.start, j.count),
                                index: None,
                                msg,
                                crash: false,
                            });
                        }
                    }
                } else {
                    let idx = if prog.len() == 8 {
                        Some(u64::from_le_bytes(prog[..8].try_into().unwrap()))
                    } else {
                        None
                    };
                    let desc = format!(
                        "worker died: mode {} index {:?} status {:?} signal {:?}",
                        m.name,
                        idx,
                        st.code(),
                        st.signal()
                    );
                    // 6 = abort, 11 = segv (stack overflow), 4/7/8: other faults.
                    // SIGKILL is the memory guard: inconclusive
                    if matches!(st.signal(), Some(4 | 6 | 7 | 8 | 11)) && idx.is_some() && failure.is_none() {
                        failure = Some(Failure {
                            mode: j.mode,
                            release: j.release,
                            choices: None,
                            before: vec![],
                            job: (j.start, j.count),
                            index: idx,
                            msg: desc.clone(),
                            crash: true,
                        });
                    }
                    errors.push(desc);
                }
                continue;
            }
            let r = &mut running[i];
            if r.last_change.elapsed() > Duration::from_secs(5) {
                let p = fs::read(r.out.with_extension("progress")).unwrap_or_default();
                if p != r.last_progress {
                    r.last_progress = p;
                    r.last_change = Instant::now();
                } else if r.last_change.elapsed() > STALL {
                    let j = &jobs[r.job];
                    errors.push(format!(
                        "no progress for {:?}: mode {} progress {:?}",
                        STALL, prop.modes[j.mode].name, r.last_progress
                    ));
                    let _ = r.child.kill();
                    let _ = r.child.wait();
                    running.swap_remove(i);
                    continue;
                }
            }
            i += 1;
        }
        if failure.is_some() {
            for r in running.iter_mut() {
                let _ = r.child.kill();
                let _ = r.child.wait();
            }
            break;
        }
        if !any {
            std::thread::sleep(Duration::from_millis(3));
        }
        // stop early when hopeless: many stalled workers
        if errors.len() >= 8 {
            next = jobs.len();
        }
    }

    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = failure {
        violations = 1;
        code = 1;
        report_failure(prop, tier, seed, &ps, &scratch, f, &mut code, &mut errors);
        if code != 1 {
            violations = 0;
        }
    }
    if code == 0 && !errors.is_empty() {
        code = 2;
    }
    for e in &errors {
        eprintln!("[{}] error: {e}", prop.id);
    }

    // evidence
    let mut sm: Vec<String> = vec![];
    for (mi, v) in &samples {
        for s in v {
            sm.push(format!("[{}] {}", prop.modes[*mi].name, s));
        }
    }
    let all_exh = jobs.iter().all(|j| prop.modes[j.mode].exhaustive) && code == 0;
    let mut ev = String::from("{\n");
    ev.push_str(&format!(
        " \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n",
        json_str(prop.id),
        json_str(tier_name(tier)),
        seed as i64
    ));
    ev.push_str(" \"coverage\": {\n");
    ev.push_str(&format!("  \"evaluations\": {},\n", total.evaluations));
    ev.push_str(&format!("  \"distinct_nontrivial\": {},\n", nontrivial.len()));
    ev.push_str(&format!("  \"rule\": {},\n", json_str(prop.rule)));
    ev.push_str(&format!(
        "  \"samples\": [{}],\n",
        sm.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n    ")
    ));
    if all_exh {
        ev.push_str("  \"exhaustive\": true,\n");
    }
    ev.push_str(&format!("  \"discarded\": {},\n", total.discards));
    ev.push_str(&format!(
        "  \"modes\": {{{}}},\n",
        by_mode
            .iter()
            .map(|(k, v)| {
                let m = prop.modes.iter().find(|m| m.name == *k).unwrap();
                format!(
                    "{}: {{\"kind\": {}, \"evaluations\": {}, \"discarded\": {}}}",
                    json_str(k),
                    json_str(if m.exhaustive { "exhaustive enumeration" } else { "random" }),
                    v.0,
                    v.1
                )
            })
            .collect::<Vec<_>>()
            .join(", ")
    ));
    ev.push_str(&format!(
        "  \"profiles\": {{\"with debug assertions and overflow checks\": {}, \"release\": {}}},\n",
        by_prof[0], by_prof[1]
    ));
    ev.push_str(&format!(
        "  \"labels\": {{{}}},\n",
        total
            .labels
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(", ")
    ));
    ev.push_str(&format!(
        "  \"errors\": [{}]\n }},\n",
        errors.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")
    ));
    ev.push_str(&format!(
        " \"assumptions\": [{}],\n",
        prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")
    ));
    ev.push_str(&format!(
        " \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        t0.elapsed().as_secs_f64(),
        violations
    ));
    fs::write(&ev_file, ev).expect("write evidence");
    let _ = fs::remove_dir_all(&scratch);
    println!(
        "[{}] {} seed={} cases={} distinct_nontrivial={} discarded={} wall={:.1}s -> {}",
        prop.id,
        tier_name(tier),
        seed,
        total.evaluations,
        nontrivial.len(),
        total.discards,
        t0.elapsed().as_secs_f64(),
        match code {
            0 => "held on everything explored",
            1 => "VIOLATED",
            _ => "ERROR (no verdict)",
        }
    );
    code
}

/// runs `vh one`; Some(true) fails / Some(false) passes / None did not end normally
fn run_one(bin: &Path, prop: &Prop, mode: &Mode, tier: Tier, file: &Path, limit: Duration) -> (Option<i32>, Option<i32>, String) {
    let out = file.with_extension("one");
    let of = fs::File::create(&out).expect("create");
    let mut ch = match Command::new(bin)
        .args(["one", prop.id, mode.name, tier_name(tier)])
        .arg(file)
        .stdin(Stdio::null())
        .stdout(of)
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return (None, None, String::new()),
    };
    let t0 = Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            return (st.code(), st.signal(), fs::read_to_string(&out).unwrap_or_default());
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return (None, None, String::new());
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

#[allow(clippy::too_many_arguments)]
fn run_worker(
    bin: &Path,
    prop: &Prop,
    mode: &Mode,
    tier: Tier,
    seed: u64,
    job: (u64, u64),
    out: &Path,
    limit: Duration,
) -> (Option<i32>, Option<i32>) {
    let _ = fs::remove_file(out);
    let ch = Command::new(bin)
        .args(["worker", prop.id, mode.name, tier_name(tier)])
        .args([seed.to_string(), job.0.to_string(), job.1.to_string()])
        .arg(out)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn();
    let Ok(mut ch) = ch else {
        return (None, None);
    };
    let t0 = Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            return (st.code(), st.signal());
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return (None, None);
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

#[allow(clippy::too_many_arguments)]
fn report_failure(
    prop: &Prop,
    tier: Tier,
    seed: u64,
    ps: &Paths,
    scratch: &Path,
    f: Failure,
    code: &mut i32,
    errors: &mut Vec<String>,
) {
    let mode = &prop.modes[f.mode];
    let bin = if f.release { &ps.release } else { &ps.checked };
    let file = scratch.join("case.choices");
    let fatal = |sig: Option<i32>| matches!(sig, Some(4 | 6 | 7 | 8 | 11));
    let choices: Option<Vec<u64>> = match (&f.choices, f.index) {
        (Some(c), _) => Some(c.clone()),
        (None, Some(i)) => {
            // a crash: recover the choices with a generator that logs them
            let log = scratch.join("crash.choices");
            let _ = Command::new(bin)
                .args(["crashlog", prop.id, mode.name, tier_name(tier)])
                .args([seed.to_string(), i.to_string()])
                .arg(&log)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status();
            fs::read_to_string(&log).ok().map(|s| choices_from_string(&s))
        }
        _ => None,
    };
    // run the job of the worker again: it fails in the same way if the failure
    // depends on everything that the worker did before
    let again = |msg: &mut String| {
        let out = scratch.join("again.out");
        let (_, sig) = run_worker(bin, prop, mode, tier, seed, f.job, &out, Duration::from_secs(200));
        let o = read_out(&out);
        match o.fail {
            Some((_, m)) => {
                *msg = m;
                true
            }
            None => fatal(sig),
        }
    };
    let mut whole_job = false;
    let Some(orig) = choices else {
        errors.push(format!("could not recover the failing case: {}", f.msg));
        *code = 2;
        return;
    };
    let mut best = orig.clone();
    if f.crash {
        fs::write(&file, choices_to_string(&orig)).expect("write");
        let (_, sig, _) = run_one(bin, prop, mode, tier, &file, Duration::from_secs(120));
        if !fatal(sig) {
            if !again(&mut f.msg.clone()) {
                errors.push(format!("crash not reproduced: {}", f.msg));
                *code = 2;
                return;
            }
            whole_job = true;
        } else {
            best = shrink_with(
                best,
                |c| {
                    fs::write(&file, choices_to_string(c)).expect("write");
                    let (_, sig, _) = run_one(bin, prop, mode, tier, &file, Duration::from_secs(10));
                    if fatal(sig) {
                        Some(c.to_vec())
                    } else {
                        None
                    }
                },
                Duration::from_secs(20),
            );
        }
    } else {
        fs::write(&file, choices_to_string(&orig)).expect("write");
        if let Ok(mut ch) = Command::new(bin)
            .args(["shrink", prop.id, mode.name, tier_name(tier)])
            .arg(&file)
            .arg("25")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
        {
            let t0 = Instant::now();
            loop {
                if let Ok(Some(_)) = ch.try_wait() {
                    break;
                }
                if t0.elapsed() > Duration::from_secs(60) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
        if let Ok(s) = fs::read_to_string(file.with_extension("shrunk")) {
            best = choices_from_string(&s);
        }
    }
    // confirm in a fresh process, the shrunk one first
    let mut case = String::new();
    let mut msg = f.msg.clone();
    let mut confirmed = false;
    for cand in [best.clone(), orig.clone()] {
        if whole_job {
            break;
        }
        fs::write(&file, choices_to_string(&cand)).expect("write");
        for _ in 0..5 {
            let (st, sig, out) = run_one(bin, prop, mode, tier, &file, Duration::from_secs(120));
            if st == Some(1) || fatal(sig) {
                confirmed = true;
                for l in out.lines() {
                    if let Some(x) = l.strip_prefix("CASE ") {
                        case = unesc(x);
                    } else if let Some(x) = l.strip_prefix("MSG ") {
                        msg = unesc(x);
                    }
                }
                break;
            }
        }
        if confirmed {
            best = cand;
            break;
        }
    }
    // a failure that needs the cases before it
    let mut before: Vec<Vec<u64>> = vec![];
    if !confirmed && !f.before.is_empty() {
        let t0 = Instant::now();
        let text = |b: &[Vec<u64>]| b.iter().chain([&orig]).map(|c| choices_to_string(c)).collect::<Vec<_>>().join("\n");
        let mut fails = |b: &[Vec<u64>]| {
            fs::write(&file, text(b)).expect("write");
            let (st, sig, out) = run_one(bin, prop, mode, tier, &file, Duration::from_secs(60));
            let bad = st == Some(1) || fatal(sig);
            if bad {
                for l in out.lines() {
                    if let Some(x) = l.strip_prefix("CASE ") {
                        case = unesc(x);
                    } else if let Some(x) = l.strip_prefix("MSG ") {
                        msg = unesc(x);
                    }
                }
            }
            bad
        };
        let mut k = 1;
        while t0.elapsed() < Duration::from_secs(90) {
            let b = &f.before[f.before.len().saturating_sub(k)..];
            if fails(b) {
                confirmed = true;
                before = b.to_vec();
                break;
            }
            if k >= f.before.len() {
                break;
            }
            k *= 2;
        }
        // leave out what is not needed
        let t0 = Instant::now();
        let mut size = before.len() / 2;
        while size >= 1 && t0.elapsed() < Duration::from_secs(40) {
            let mut i = 0;
            while i < before.len() && t0.elapsed() < Duration::from_secs(40) {
                let mut b = before.clone();
                b.drain(i..(i + size).min(b.len()));
                if fails(&b) {
                    before = b;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        if confirmed {
            best = orig.clone();
        }
    }
    if !confirmed {
        whole_job = whole_job || again(&mut msg);
        confirmed = whole_job;
        // describe the case
        best = orig.clone();
        fs::write(&file, choices_to_string(&orig)).expect("write");
        let (_, _, out) = run_one(bin, prop, mode, tier, &file, Duration::from_secs(60));
        for l in out.lines() {
            if let Some(x) = l.strip_prefix("CASE ") {
                case = unesc(x);
            }
        }
    }
    let dir = ps.verif.join("replays");
    let _ = fs::create_dir_all(&dir);
    let h = hash_bytes(choices_to_string(&best).as_bytes());
    let path = dir.join(format!("{}-{}-{:08x}.replay", prop.id, mode.name, h as u32));
    let text = format!(
        "property {}\nmode {}\nprofile {}\ntier {}\nseed {}\nconfirmed {}\nchoices {}\ncase {}\nmessage {}\n",
        prop.id,
        mode.name,
        if f.release { "release" } else { "checked" },
        tier_name(tier),
        seed,
        confirmed,
        choices_to_string(&best),
        esc(&case),
        esc(&msg)
    );
    let text = before.iter().fold(text, |t, b| t + &format!("before {}\n", choices_to_string(b)));
    let text = if whole_job { text + &format!("job {} {}\n", f.job.0, f.job.1) } else { text };
    fs::write(&path, text).expect("write replay");
    println!("violation of {}: {}", prop.id, msg);
    println!("  case: {}", case);
    if !before.is_empty() {
        println!("  (fails after {} other cases in the same process)", before.len());
    }
    if whole_job {
        println!("  (fails only after the other cases of its worker, which the replay runs too)");
    }
    if !confirmed {
        println!("  (observed once; did not fail again when rerun alone)");
    }
    println!("VIOLATION property={} replay={}", prop.id, path.display());
    let _ = std::io::stdout().flush();
}

/// `vh crashlog`: run case `index`, flushing every choice to a file
pub fn crashlog_cmd(prop: &Prop, mode: &Mode, tier: Tier, seed: u64, index: u64, out: &Path) {
    // The generator consumes choices before the crate runs on them, but lazily
    // generated cases interleave: find the choices by replaying the stream.
    let out = out.to_path_buf();
    big_stack(move || {
        let mut src = if mode.exhaustive {
            let mut prefix = Some(vec![]);
            let mut leaf = 0u64;
            let mut ctx = Ctx::new(tier, mode.name);
            let mut found = vec![];
            while let Some(p) = prefix {
                if leaf == index {
                    found = p;
                    break;
                }
                // never executes: part 1 of 0..: leaf % (leaf+1) is leaf, part u64::MAX
                ctx.leaf = Some((leaf, u64::MAX, u64::MAX));
                let mut s = Src::exhaustive(p);
                let _ = run_case(mode, &mut s, &mut ctx);
                prefix = s.next_prefix();
                leaf += 1;
            }
            Src::exhaustive(found)
        } else {
            Src::random(case_seed(seed, prop.id, mode.name, index))
        };
        src.log = Some(fs::File::create(&out).expect("log"));
        let mut ctx = Ctx::new(tier, mode.name);
        let _ = run_case(mode, &mut src, &mut ctx);
    });
}

/// `vh replay FILE`
pub fn replay_cmd(props: &[Prop], file: &Path) -> i32 {
    let s = fs::read_to_string(file).expect("replay file");
    let get = |k: &str| {
        s.lines()
            .find_map(|l| l.strip_prefix(k).and_then(|x| x.strip_prefix(' ')))
            .unwrap_or("")
            .to_string()
    };
    let prop = props.iter().find(|p| p.id == get("property")).expect("property");
    let mode = prop.modes.iter().find(|m| m.name == get("mode")).expect("mode");
    let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let ps = paths();
    let bin = if get("profile") == "release" { &ps.release } else { &ps.checked };
    let tmp = std::env::temp_dir().join(format!("vh-replay-{}.choices", std::process::id()));
    let mut cases: Vec<&str> = s.lines().filter_map(|l| l.strip_prefix("before ")).collect();
    let last = get("choices");
    cases.push(&last);
    fs::write(&tmp, cases.join("\n")).expect("write");
    let job: Vec<u64> = get("job").split(' ').filter_map(|x| x.parse().ok()).collect();
    let (st, sig, out) = if let [start, count] = job[..] {
        let (_, sig) = run_worker(
            bin,
            prop,
            mode,
            tier,
            get("seed").parse().unwrap_or(1),
            (start, count),
            &tmp,
            Duration::from_secs(600),
        );
        let o = read_out(&tmp);
        for e in ["hash", "progress", "tmp"] {
            let _ = fs::remove_file(tmp.with_extension(e));
        }
        match o.fail {
            Some((_, m)) => (Some(1), None, format!("MSG {}", esc(&m))),
            None if o.complete => (Some(0), None, String::new()),
            None => (None, sig, String::new()),
        }
    } else {
        run_one(bin, prop, mode, tier, &tmp, Duration::from_secs(300))
    };
    let _ = fs::remove_file(&tmp);
    let _ = fs::remove_file(tmp.with_extension("one"));
    for l in out.lines() {
        println!("{}", unesc(l));
    }
    match (st, sig) {
        (Some(0), _) => {
            println!("{}: the case passes", prop.id);
            0
        }
        (Some(1), _) | (None, Some(4 | 6 | 7 | 8 | 11)) => {
            println!("VIOLATION property={} replay={}", prop.id, file.display());
            1
        }
        _ => 2,
    }
}
