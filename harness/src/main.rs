//! Generated-input checks of ledger-rs-lib. See /verif/DESIGN.md.
mod alloc;
mod ast;
mod dec;
mod model;
mod props;
mod render;
mod hook;
mod snap;
mod src;

use src::Src;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::{Seek, SeekFrom, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Poison = alloc::Poison::new();

/// The seed of the hash maps made from here on (see `getrandom`).
pub static HASH_SEED: AtomicU64 = AtomicU64::new(0);

/// The standard library takes the keys of its hash maps from here, once per thread. Answering from
/// the case's own seed makes every case a function of its choices.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut rng = src::Rng::new(HASH_SEED.load(Ordering::Relaxed));
    for i in 0..len {
        *buf.add(i) = rng.next() as u8;
    }
    len as isize
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs library code. A panic is the library's way to refuse, and is returned as an error.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub struct Ctx {
    /// The case, written out.
    pub text: String,
    pub nontrivial: bool,
    pub classes: Vec<String>,
    pub scratch: PathBuf,
    /// This many library evaluations happened in the case (fault points, permutations...).
    pub evals: u64,
}
impl Ctx {
    pub fn class(&mut self, c: &str) {
        if !self.classes.iter().any(|x| x == c) {
            self.classes.push(c.to_string());
        }
    }
    pub fn class_if(&mut self, cond: bool, c: &str) {
        if cond {
            self.class(c)
        }
    }
}

/// Which of the library's ways to read a journal this case takes, where it does not matter.
pub static ENTRY: AtomicU64 = AtomicU64::new(0);

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub case: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

fn mix(seed: u64, id: &str, index: u64) -> u64 {
    let mut h = seed ^ 0x51_7c_c1_b7_27_22_0a_95;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = src::Rng::new(h.wrapping_add(index.wrapping_mul(0xD1B54A32D192ED03)));
    r.next()
}

enum Outcome {
    Ok,
    Violation(String),
}

fn run_case(p: &Prop, mut s: Src, scratch: &Path) -> (Outcome, Ctx, Src) {
    HASH_SEED.store(s.below(1 << 16), Ordering::Relaxed);
    ENTRY.store(s.below(8), Ordering::Relaxed);
    let mut ctx = Ctx { text: String::new(), nontrivial: false, classes: vec![], scratch: scratch.to_path_buf(), evals: 1 };
    let case = p.case;
    // A thread of its own: fresh hash map keys and a deep stack.
    let out = std::thread::scope(|sc| {
        let (s, ctx) = (&mut s, &mut ctx);
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, move || match lib(|| case(s, ctx)) {
                Ok(Ok(())) => Outcome::Ok,
                Ok(Err(m)) => Outcome::Violation(m),
                // no check panics of itself: what the library returned was not fit to be looked at
                Err(m) => Outcome::Violation(format!("what the library returned could not be examined: {}", m)),
            })
            .expect("thread")
            .join()
            .expect("join")
    });
    (out, ctx, s)
}

fn json(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out += "\\\"",
            '\\' => out += "\\\\",
            '\n' => out += "\\n",
            '\r' => out += "\\r",
            '\t' => out += "\\t",
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out + "\""
}

fn hash_text(t: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in t.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn clip(t: &str, n: usize) -> String {
    if t.chars().count() > n {
        t.chars().take(n).collect::<String>() + " [...]"
    } else {
        t.to_string()
    }
}

/// A case that takes up all memory, or all the time, is a violation and must not take the sandbox along.
const CASE_LIMIT: Duration = Duration::from_secs(60);
const MEMORY_LIMIT: u64 = 3 << 30;

fn limit_memory() {
    extern "C" {
        fn setrlimit(resource: i32, limits: *const [u64; 2]) -> i32;
    }
    unsafe { setrlimit(9, &[MEMORY_LIMIT, MEMORY_LIMIT]) };
}

/// worker ID SEED START STEP COUNT DIR
fn worker(args: &[String]) -> i32 {
    let p = props::find(&args[0]).expect("property");
    let seed: u64 = args[1].parse().unwrap();
    let start: u64 = args[2].parse().unwrap();
    let step: u64 = args[3].parse().unwrap();
    let count: u64 = args[4].parse().unwrap();
    let dir = PathBuf::from(&args[5]);
    limit_memory();
    let scratch = dir.join(format!("w{}", start));
    fs::create_dir_all(&scratch).unwrap();
    std::env::set_current_dir(&scratch).unwrap();
    let mut state = fs::File::create(dir.join(format!("state{}", start))).unwrap();
    let (mut evals, mut cases, mut hashes) = (0u64, 0u64, HashSet::new());
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut i = start;
    while i < count {
        state.seek(SeekFrom::Start(0)).unwrap();
        state.write_all(format!("{:020}", i).as_bytes()).unwrap();
        let (out, ctx, s) = run_case(p, Src::random(mix(seed, p.id, i)), &scratch);
        match out {
            Outcome::Ok => (),
            Outcome::Violation(m) => {
                let c: Vec<String> = s.choices.iter().map(|x| x.to_string()).collect();
                fs::write(dir.join(format!("violation{}", start)), format!("{}\n{}\n{}", i, c.join(" "), m)).unwrap();
                return 10;
            }
        }
        cases += 1;
        evals += ctx.evals;
        for c in ctx.classes {
            *classes.entry(c).or_default() += 1;
        }
        if ctx.nontrivial {
            if hashes.insert(hash_text(&ctx.text)) && samples.len() < 2 && ctx.text.len() < 1500 {
                samples.push(ctx.text);
            }
        }
        i += step;
    }
    let mut out = format!("{} {}\n", cases, evals);
    for (c, n) in &classes {
        let _ = writeln!(out, "class {} {}", n, c);
    }
    for s in &samples {
        let _ = writeln!(out, "sample {}", json(s));
    }
    fs::write(dir.join(format!("stats{}", start)), out).unwrap();
    let bytes: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    fs::write(dir.join(format!("hashes{}", start)), bytes).unwrap();
    0
}

/// eval ID CHOICES-FILE SCRATCH: exit 0 holds, 10 violated (message on stderr), 2 harness error
fn eval(args: &[String]) -> i32 {
    let p = props::find(&args[0]).expect("property");
    let text = fs::read_to_string(&args[1]).unwrap();
    let choices: Vec<u64> = text.split_whitespace().map(|x| x.parse().unwrap()).collect();
    let scratch = PathBuf::from(&args[2]);
    limit_memory();
    fs::create_dir_all(&scratch).unwrap();
    let shown = args.get(3).map(PathBuf::from);
    if let Some(f) = &shown {
        // written first, in case the case ends the process
        let _ = fs::write(f, "");
    }
    std::env::set_current_dir(&scratch).unwrap();
    let (out, ctx, s) = run_case(p, Src::replay(choices), &scratch);
    if let Some(f) = &shown {
        let _ = fs::write(f, &ctx.text);
    }
    match out {
        Outcome::Ok => 0,
        Outcome::Violation(m) => {
            eprintln!("{}\n{}", s.used(), m);
            10
        }
    }
}

const HUNG: &str = "the library did not come to an end";

/// Some(message) if the case violates the property.
fn try_choices(exe: &Path, id: &str, choices: &[u64], dir: &Path, shown: Option<&Path>) -> Option<(String, usize)> {
    let file = dir.join("eval-choices");
    fs::write(&file, choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
    let mut cmd = Command::new(exe);
    cmd.arg("eval").arg(id).arg(&file).arg(dir.join("eval-scratch"));
    if let Some(s) = shown {
        cmd.arg(s);
    }
    let errfile = dir.join("eval-err");
    let mut child = cmd
        .stdout(Stdio::null())
        .stderr(fs::File::create(&errfile).unwrap())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    let status = loop {
        if let Some(st) = child.try_wait().unwrap() {
            break st;
        }
        if t0.elapsed() > Duration::from_secs(20) {
            let _ = child.kill();
            let _ = child.wait();
            return Some((HUNG.to_string(), choices.len()));
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    if let Some(sig) = status.signal() {
        if sig == 9 {
            return None;
        }
        return Some((ended(sig), choices.len()));
    }
    if status.code() == Some(10) {
        let err = fs::read_to_string(&errfile).unwrap_or_default();
        let (used, msg) = err.split_once('\n').unwrap_or(("0", &err));
        return Some((msg.trim_end().to_string(), used.parse().unwrap_or(choices.len())));
    }
    None
}

fn ended(sig: i32) -> String {
    format!("the process was ended by signal {} (memory corruption, or memory or stack exhausted)", sig)
}

fn shrink(exe: &Path, id: &str, mut best: Vec<u64>, mut msg: String, dir: &Path) -> (Vec<u64>, String) {
    let t0 = Instant::now();
    let limit = Duration::from_secs(if std::env::var("VERIF_NOSHRINK").is_ok() { 0 } else { 90 });
    let mut evals = 0;
    loop {
        let before = best.clone();
        let mut size = best.len().next_power_of_two() / 2;
        // delete blocks
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > limit || evals > 6000 {
                    return (best, msg);
                }
                let mut c = best.clone();
                c.drain(i..(i + size).min(c.len()));
                evals += 1;
                if let Some((m, used)) = try_choices(exe, id, &c, dir, None) {
                    c.truncate(used.max(1));
                    best = c;
                    msg = m;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        // smaller values
        let mut i = 0;
        while i < best.len() {
            for v in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if best.get(i).map_or(true, |b| v >= *b) {
                    continue;
                }
                if t0.elapsed() > limit || evals > 6000 {
                    return (best, msg);
                }
                let mut c = best.clone();
                c[i] = v;
                evals += 1;
                if let Some((m, used)) = try_choices(exe, id, &c, dir, None) {
                    c.truncate(used.max(1));
                    best = c;
                    msg = m;
                }
            }
            i += 1;
        }
        if best == before {
            return (best, msg);
        }
    }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// run ID TIER SEED VERIF-DIR
fn run(args: &[String]) -> i32 {
    let t0 = Instant::now();
    let p = match props::find(&args[0]) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {}", args[0]);
            return 2;
        }
    };
    if !hook::AVAILABLE && (p.id == "C10" || p.id == "C11") {
        eprintln!("{} cannot be decided: the hook into the price history does not build", p.id);
        return 2;
    }
    let tier = args[1].as_str();
    let seed: u64 = args[2].parse().unwrap_or(1);
    let verif = PathBuf::from(&args[3]);
    dec::self_test();
    let count = if tier == "thorough" { p.thorough } else { p.quick };
    let count = match std::env::var("VERIF_CASES") {
        Ok(v) => v.parse().unwrap(),
        Err(_) => count,
    };
    let jobs = std::env::var("VERIF_JOBS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16) as u64
    });
    let exe = std::env::current_exe().unwrap();
    let dir = Scratch(std::env::temp_dir().join(format!("verif-{}-{}", p.id.to_lowercase(), std::process::id())));
    fs::create_dir_all(&dir.0).unwrap();
    let mut children: Vec<_> = (0..jobs)
        .map(|w| {
            let c = Command::new(&exe)
                .args(["worker", p.id, &seed.to_string(), &w.to_string(), &jobs.to_string(), &count.to_string()])
                .arg(&dir.0)
                .stdout(Stdio::null())
                .stderr(fs::File::create(dir.0.join(format!("stderr{}", w))).unwrap())
                .spawn()
                .expect("worker");
            (w, Some(c), None)
        })
        .collect();
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 780 });
    // Wait for all; after the first violation the others need not go on.
    let mut stop = false;
    let mut progress: Vec<(Vec<u8>, Instant)> = vec![(vec![], Instant::now()); jobs as usize];
    let mut hung: Option<u64> = None;
    loop {
        let mut alive = false;
        for (w, c, status) in children.iter_mut() {
            if let Some(child) = c {
                if stop {
                    let _ = child.kill();
                }
                match child.try_wait().unwrap() {
                    Some(st) => {
                        if !st.success() && !stop {
                            stop = true;
                        }
                        *status = Some(st);
                        *c = None;
                        let _ = w;
                    }
                    None => {
                        alive = true;
                        let now = fs::read(dir.0.join(format!("state{}", w))).unwrap_or_default();
                        let (last, since) = &mut progress[*w as usize];
                        if now != *last {
                            *last = now;
                            *since = Instant::now();
                        } else if !stop && since.elapsed() > CASE_LIMIT {
                            hung = String::from_utf8_lossy(&now).parse().ok();
                            stop = true;
                        }
                    }
                }
            }
        }
        if !alive {
            break;
        }
        if t0.elapsed() > limit {
            eprintln!("time limit reached: no answer");
            for (_, c, _) in children.iter_mut() {
                if let Some(c) = c {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            return 2;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    // gather
    let mut found: Option<(u64, Vec<u64>, String)> = hung.map(|i| (i, vec![], HUNG.to_string()));
    let mut error = None;
    let (mut cases, mut evals) = (0u64, 0u64);
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut hashes: HashSet<[u8; 8]> = HashSet::new();
    for (w, _, status) in &children {
        let st = status.unwrap();
        if let Some(sig) = st.signal() {
            if sig != 9 {
                let idx: u64 = fs::read_to_string(dir.0.join(format!("state{}", w))).unwrap().parse().unwrap();
                if found.as_ref().map_or(true, |f| idx < f.0) {
                    found = Some((idx, vec![], ended(sig)));
                }
            } else if !stop {
                error = Some(format!("worker {} was killed", w));
            }
            continue;
        }
        match st.code() {
            Some(0) => {
                let text = fs::read_to_string(dir.0.join(format!("stats{}", w))).unwrap();
                for (i, line) in text.lines().enumerate() {
                    if i == 0 {
                        let mut it = line.split(' ').map(|x| x.parse::<u64>().unwrap());
                        cases += it.next().unwrap();
                        evals += it.next().unwrap();
                    } else if let Some(r) = line.strip_prefix("class ") {
                        let (n, c) = r.split_once(' ').unwrap();
                        *classes.entry(c.to_string()).or_default() += n.parse::<u64>().unwrap();
                    } else if let Some(r) = line.strip_prefix("sample ") {
                        samples.push(r.to_string());
                    }
                }
                for h in fs::read(dir.0.join(format!("hashes{}", w))).unwrap().chunks(8) {
                    hashes.insert(h.try_into().unwrap());
                }
            }
            Some(10) => {
                let text = fs::read_to_string(dir.0.join(format!("violation{}", w))).unwrap();
                let mut it = text.splitn(3, '\n');
                let idx: u64 = it.next().unwrap().parse().unwrap();
                let ch = it.next().unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
                let msg = it.next().unwrap_or("").to_string();
                if found.as_ref().map_or(true, |f| idx < f.0) {
                    found = Some((idx, ch, msg));
                }
            }
            _ => {
                let mut m = fs::read_to_string(dir.0.join(format!("error{}", w))).unwrap_or_default();
                m += &clip(&fs::read_to_string(dir.0.join(format!("stderr{}", w))).unwrap_or_default(), 600);
                error = Some(m);
            }
        }
    }
    if found.is_none() {
        if let Some(e) = error {
            eprintln!("harness error: {}", e);
            return 2;
        }
    }
    let mut violations = 0;
    let mut code = 0;
    if let Some((idx, mut choices, msg)) = found {
        violations = 1;
        code = 1;
        if choices.is_empty() {
            // ended by a signal: the choices are those of the generator, without running the library
            choices = regenerate(&exe, p, seed, idx, &dir.0);
        }
        let (small, msg) = match try_choices(&exe, p.id, &choices, &dir.0, None) {
            Some((m, _)) => shrink(&exe, p.id, choices, m, &dir.0),
            None => (choices, msg),
        };
        let shown = dir.0.join("shown");
        let _ = try_choices(&exe, p.id, &small, &dir.0, Some(&shown));
        let text = fs::read_to_string(&shown).unwrap_or_default();
        let rdir = verif.join("evidence").join("replay");
        fs::create_dir_all(&rdir).unwrap();
        let replay = rdir.join(format!("{}.replay", p.id));
        let c: Vec<String> = small.iter().map(|x| x.to_string()).collect();
        fs::write(
            &replay,
            format!("property {}\nseed {} case {}\nchoices {}\nmessage {}\n----\n{}\n", p.id, seed, idx, c.join(" "), msg.replace('\n', "\n  "), text),
        )
        .unwrap();
        println!("{}: {}", p.id, clip(&msg, 1500));
        println!("{}", clip(&text, 3000));
        println!("VIOLATION property={} replay={}", p.id, replay.display());
    } else if p.id == "C16" && deep_account(&exe, &dir.0) {
        // a fixed input, known or not
        let known = fs::read_to_string(verif.join("KNOWN_FINDINGS.txt")).unwrap_or_default();
        if known.lines().any(|l| l.starts_with("known: property=C16 deep-account-name ")) {
            println!("KNOWN-FINDING: property=C16 deep-account-name: an account name of {} levels overflows the stack", DEEP);
        } else {
            violations = 1;
            code = 1;
            let rdir = verif.join("evidence").join("replay");
            fs::create_dir_all(&rdir).unwrap();
            let replay = rdir.join("C16.replay");
            fs::write(&replay, deep_text()).unwrap();
            println!("C16: an account name of {} levels ends the program by a signal", DEEP);
            println!("VIOLATION property={} replay={}", p.id, replay.display());
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    samples.truncate(6);
    let cl: Vec<String> = classes.iter().map(|(c, n)| format!("{}: {}", json(c), n)).collect();
    let ev = format!(
        "{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"{}\", \"coverage\": {{\"evaluations\": {}, \"cases\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"classes\": {{{}}}, \"samples\": [{}]}}, \"wall_s\": {:.2}, \"violations\": {}}}\n",
        p.id, tier, seed, level(p.id), evals, cases, hashes.len(), json(p.rule), cl.join(", "), samples.join(", "), wall, violations
    );
    fs::create_dir_all(verif.join("evidence")).unwrap();
    fs::write(verif.join("evidence").join(format!("{}.json", p.id)), ev).unwrap();
    if code == 0 {
        println!("{}: held on {} cases ({} evaluations, {} distinct non-trivial), {:.1} s", p.id, cases, evals, hashes.len(), wall);
    }
    code
}

/// The levels of the account name that is given to the program.
const DEEP: usize = 50_000;

fn deep_text() -> String {
    format!("2023-01-01 Payee\n    {}  1 EUR\n    b\n", vec!["a"; DEEP].join(":"))
}

/// Whether the program, with the usual stack, is ended by a signal of its own.
fn deep_account(exe: &Path, dir: &Path) -> bool {
    use std::os::unix::process::ExitStatusExt;
    let file = dir.join("deep.ledger");
    fs::write(&file, deep_text()).unwrap();
    let Ok(mut child) = Command::new("sh")
        .args(["-c", "ulimit -s 8192; exec \"$0\" b -f \"$1\""])
        .arg(exe.with_file_name("repo-cli"))
        .arg(&file)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    else {
        return false;
    };
    let t0 = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(status)) => return status.signal().is_some(),
            Ok(None) if t0.elapsed() < Duration::from_secs(5) => std::thread::sleep(Duration::from_millis(20)),
            _ => {
                // it works on; how long it takes is not the subject
                let _ = child.kill();
                let _ = child.wait();
                return false;
            }
        }
    }
}

fn level(id: &str) -> &'static str {
    if id == "C19" {
        "fault_enumeration"
    } else {
        "exploration"
    }
}

/// The choices of a case that ends the process: the worker records them as it draws them.
fn regenerate(exe: &Path, p: &Prop, seed: u64, idx: u64, dir: &Path) -> Vec<u64> {
    let file = dir.join("regen");
    let mut child = Command::new(exe)
        .args(["record", p.id, &seed.to_string(), &idx.to_string()])
        .arg(&file)
        .arg(dir.join("regen-scratch"))
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    while child.try_wait().unwrap().is_none() {
        if t0.elapsed() > Duration::from_secs(20) {
            let _ = child.kill();
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    let bytes = fs::read(&file).unwrap_or_default();
    bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

fn record(args: &[String]) -> i32 {
    let p = props::find(&args[0]).expect("property");
    let (seed, idx): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let f = fs::File::create(&args[3]).unwrap();
    let scratch = PathBuf::from(&args[4]);
    limit_memory();
    fs::create_dir_all(&scratch).unwrap();
    std::env::set_current_dir(&scratch).unwrap();
    let mut s = Src::random(mix(seed, p.id, idx));
    s.record = Some(f);
    let _ = run_case(p, s, &scratch);
    0
}

/// replay FILE
fn replay(args: &[String]) -> i32 {
    let text = fs::read_to_string(&args[0]).unwrap();
    let mut id = "";
    let mut choices = vec![];
    for line in text.lines() {
        if let Some(x) = line.strip_prefix("property ") {
            id = x;
        } else if let Some(x) = line.strip_prefix("choices ") {
            choices = x.split_whitespace().map(|x| x.parse().unwrap()).collect();
        } else if line == "----" {
            break;
        }
    }
    let dir = Scratch(std::env::temp_dir().join(format!("verif-replay-{}", std::process::id())));
    fs::create_dir_all(&dir.0).unwrap();
    let shown = dir.0.join("shown");
    match try_choices(&std::env::current_exe().unwrap(), id, &choices, &dir.0, Some(&shown)) {
        Some((m, _)) => {
            println!("{}\n{}", fs::read_to_string(&shown).unwrap_or_default(), m);
            println!("VIOLATION property={} replay={}", id, args[0]);
            1
        }
        None => {
            println!("{}: holds on the replayed case", id);
            0
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", m, at));
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rest = if args.is_empty() { &[][..] } else { &args[1..] };
    let code = match args.first().map(|x| x.as_str()) {
        Some("run") => run(rest),
        Some("worker") => worker(rest),
        Some("eval") => eval(rest),
        Some("record") => record(rest),
        Some("replay") => replay(rest),
        Some("list") => {
            for p in props::ALL {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("run ID TIER SEED DIR | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
