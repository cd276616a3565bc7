//! Choice-sequence engine: every generated case is a pure function of a list of recorded
//! choices, so cases replay exactly and shrink by editing that list.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
#[cfg(unix)]
use std::os::unix::fs::FileExt;
use std::time::Instant;

pub struct Ch {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    /// Write choices here as they are made, for cases which take the process down with them.
    log: Option<std::fs::File>,
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Ch {
    pub fn random(seed: u64) -> Ch {
        let mut rng = seed;
        splitmix(&mut rng);
        Ch { rng, replay: None, pos: 0, rec: vec![], log: None }
    }
    pub fn replay(v: Vec<u64>) -> Ch {
        Ch { rng: 0, replay: Some(v), pos: 0, rec: vec![], log: None }
    }
    fn note(&mut self, v: u64) {
        self.pos += 1;
        self.rec.push(v);
        #[cfg(target_family = "wasm")]
        LOG.with(|l| l.borrow_mut().push(v));
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
    }
    /// A number in 0..n (n > 0); 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => splitmix(&mut self.rng) % n,
        };
        self.note(v);
        v
    }
    pub fn raw(&mut self) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0),
            None => splitmix(&mut self.rng),
        };
        self.note(v);
        v
    }
    pub fn n(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }
    /// true with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.n(xs.len())]
    }
    /// Index chosen according to weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let mut v = self.below(ws.iter().sum());
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    pub fn u128(&mut self) -> u128 {
        (self.raw() as u128) << 64 | self.raw() as u128
    }
}

pub enum Stop {
    Discard(&'static str),
    Fail(String),
}
pub type R<T = ()> = Result<T, Stop>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Stop::Fail(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Stop::Fail(format!($($t)*))) } };
}

#[derive(Default)]
pub struct Cx {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub key: Option<u64>,
    pub sample: Option<String>,
    /// evaluate the description even if it isn't needed for a sample.
    pub verbose: bool,
    /// known findings which were avoided while generating this case.
    pub excluded: u64,
}
impl Cx {
    pub fn label(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.labels.contains(&s) {
            self.labels.push(s)
        }
    }
    pub fn key<T: std::hash::Hash + ?Sized>(&mut self, t: &T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        if let Some(k) = self.key {
            h.write_u64(k);
        }
        t.hash(&mut h);
        self.key = Some(h.finish());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.sample = Some(f())
        }
    }
}

pub type CheckFn = fn(&mut Ch, &mut Cx) -> R;

#[derive(Clone, Copy)]
pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CheckFn,
}
#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub parts: &'static [Part],
    /// Things to run once, outside of the generated cases, which demonstrate known findings. Each gives
    /// back whether the finding is still there.
    pub known: &'static [(&'static str, fn() -> Option<String>)],
}

#[derive(Default)]
struct Stats {
    evals: u64,
    discards: BTreeMap<String, u64>,
    labels: BTreeMap<String, u64>,
    keys: HashSet<u64>,
    nontrivial: u64,
    samples: Vec<String>,
    excluded: u64,
}

fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

fn run_case(f: CheckFn, ch: &mut Ch, cx: &mut Cx) -> R {
    match catch_unwind(AssertUnwindSafe(|| f(ch, cx))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Stop::Fail(format!("panic: {m}")))
        }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(m));
    }));
}

struct Failure {
    part: Part,
    thread: u64,
    case: u64,
    choices: Vec<u64>,
    msg: String,
}

type Attempt<'a> = &'a mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, String)>;

/// Run a case in this process, giving back what it chose and why it failed.
fn attempt(part: Part, cand: &[u64]) -> Option<(Vec<u64>, String)> {
    let mut ch = Ch::replay(cand.to_vec());
    match run_case(part.run, &mut ch, &mut Cx::default()) {
        Err(Stop::Fail(m)) => Some((ch.rec, m)),
        _ => None,
    }
}

fn shrink(run: Attempt, mut best: Vec<u64>, mut msg: String) -> (Vec<u64>, String) {
    let start = Instant::now();
    let mut execs = 0u32;
    let mut try_it = |cand: &[u64], best: &mut Vec<u64>, msg: &mut String| -> bool {
        if execs > 20000 || start.elapsed().as_secs() > 45 {
            return false;
        }
        execs += 1;
        if let Some((mut rec, m)) = run(cand) {
            // Trailing zeros are implied.
            while rec.last() == Some(&0) {
                rec.pop();
            }
            let smaller = rec.len() < best.len() || (rec.len() == best.len() && rec < *best);
            if smaller {
                *best = rec;
                *msg = m;
                return true;
            }
        }
        false
    };
    while best.last() == Some(&0) {
        best.pop();
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1).min(512);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                i = i.saturating_sub(size);
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    try_it(&c, &mut best, &mut msg);
                }
                if i == 0 {
                    break;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        for size in [32usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    try_it(&c, &mut best, &mut msg);
                }
                i += size;
            }
        }
        // lower values, also deleting what follows a lowered one
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if try_it(&c, &mut best, &mut msg) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            if i < best.len() && best[i] > 0 {
                for del in 1..=4usize {
                    if i + 1 + del <= best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + del);
                        if try_it(&c, &mut best, &mut msg) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    (best, msg)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

pub struct Args {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub replay: Option<String>,
    pub evidence: String,
    pub replay_dir: String,
    pub known_file: String,
    pub scale: f64,
    pub extra: Vec<String>,
    /// internal: where to say which cases are being run.
    pub progress: Option<String>,
    /// internal: run this one case (part, and either the seed or the file with choices), logging choices to a file.
    pub one: Vec<String>,
}

pub fn parse_args() -> Args {
    let mut a = Args {
        property: String::new(),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        replay: None,
        evidence: String::new(),
        replay_dir: "/verif/replays".into(),
        known_file: "/verif/known_findings.txt".into(),
        scale: 1.0,
        extra: vec![],
        progress: None,
        one: vec![],
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().unwrap_or_else(|| {
            eprintln!("missing value");
            std::process::exit(2)
        });
        match x.as_str() {
            "--property" => a.property = v(),
            "--tier" => a.tier = v(),
            "--seed" => a.seed = v().parse().unwrap_or(1),
            "--replay" => a.replay = Some(v()),
            "--evidence" => a.evidence = v(),
            "--replay-dir" => a.replay_dir = v(),
            "--known" => a.known_file = v(),
            "--scale" => a.scale = v().parse().unwrap_or(1.0),
            "--progress" => a.progress = Some(v()),
            "--one" => a.one = vec![v(), v(), v(), v()],
            _ => a.extra.push(x),
        }
    }
    a
}

fn case_seed(seed: u64, id: &str, part: &str, thread: u64, case: u64) -> u64 {
    let mut sd = seed
        .wrapping_mul(0x9E3779B97F4A7C15)
        .wrapping_add(hash_str(id))
        .wrapping_add(hash_str(part).rotate_left(17))
        .wrapping_add(thread.wrapping_mul(0xA24BAED4963EE407))
        .wrapping_add(case.wrapping_mul(0x9FB21C651E98DF25));
    splitmix(&mut sd)
}

const THREADS: u64 = 8;
const STACK: usize = 512 << 20;
/// How long a case may take, before we look at whether it ends. (They usually take much less than a millisecond.)
#[cfg(unix)]
const STUCK: std::time::Duration = std::time::Duration::from_secs(120);

#[cfg(target_family = "wasm")]
thread_local! {
    /// What the current case has chosen so far.
    static LOG: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(vec![]) };
}

/// For running cases where there are no threads, files or clocks.
pub mod bare {
    use super::*;
    fn list(cs: &[u64]) -> String {
        let cs: Vec<String> = cs.iter().map(|c| format!("\"{c}\"")).collect();
        format!("[{}]", cs.join(","))
    }
    fn result(r: R, ch: &Ch, cx: Cx) -> String {
        let (kind, msg) = match r {
            Ok(()) => ("pass", String::new()),
            Err(Stop::Discard(why)) => ("discard", why.to_string()),
            Err(Stop::Fail(m)) => ("fail", m),
        };
        format!("{{\"result\":\"{kind}\",\"msg\":{},\"choices\":{},\"sample\":{}}}", json_str(&msg), list(&ch.rec), json_str(&clip(&cx.sample.unwrap_or_default(), 3000)))
    }
    /// Where the current case's choices are, and how many there are.
    pub fn log() -> (*const u64, usize) {
        #[cfg(target_family = "wasm")]
        return LOG.with(|l| {
            let l = l.borrow();
            (l.as_ptr(), l.len())
        });
        #[cfg(not(target_family = "wasm"))]
        (core::ptr::null(), 0)
    }
    fn clear() {
        #[cfg(target_family = "wasm")]
        LOG.with(|l| l.borrow_mut().clear());
    }
    /// Do as asked, giving back some JSON.
    pub fn command(props: &[Prop], cmd: &str) -> String {
        let w: Vec<&str> = cmd.split_whitespace().collect();
        let num = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        let Some(prop) = w.get(1).and_then(|id| props.iter().find(|p| p.id == *id)) else { return "null".into() };
        if w[0] == "parts" {
            let ps: Vec<String> = prop.parts.iter().map(|p| format!("{{\"name\":\"{}\",\"quick\":{},\"thorough\":{}}}", p.name, p.quick, p.thorough)).collect();
            return format!("[{}]", ps.join(","));
        }
        let part = prop.parts[num(2) as usize];
        clear();
        match w[0] {
            // cases PROP PART SEED THREAD FROM N
            "cases" => {
                let mut st = Stats::default();
                for case in num(5)..num(5) + num(6) {
                    clear();
                    let mut ch = Ch::random(case_seed(num(3), prop.id, part.name, num(4), case));
                    let mut cx = Cx { verbose: case % 4096 == 0, ..Default::default() };
                    let r = run_case(part.run, &mut ch, &mut cx);
                    st.evals += 1;
                    match r {
                        Ok(()) if cx.nontrivial => {
                            st.nontrivial += 1;
                            let mut c2 = Cx::default();
                            c2.key(&ch.rec);
                            st.keys.insert(cx.key.or(c2.key).unwrap());
                            if let (Some(s), 0) = (cx.sample, st.samples.len()) {
                                st.samples.push(s);
                            }
                        }
                        Ok(()) => (),
                        Err(Stop::Discard(_)) => *st.discards.entry(String::new()).or_default() += 1,
                        r => return result(r, &ch, cx),
                    }
                }
                let d: u64 = st.discards.values().sum();
                let k: Vec<String> = st.keys.iter().map(|k| format!("\"{k:x}\"")).collect();
                let s: Vec<String> = st.samples.iter().map(|s| json_str(&clip(s, 600))).collect();
                format!("{{\"result\":\"pass\",\"evals\":{},\"nontrivial\":{},\"keys\":[{}],\"discards\":{d},\"samples\":[{}]}}", st.evals, st.nontrivial, k.join(","), s.join(","))
            }
            // one PROP PART choices..
            _ => {
                let mut ch = Ch::replay(w[3..].iter().filter_map(|c| c.parse().ok()).collect());
                let mut cx = Cx { verbose: true, ..Default::default() };
                let r = run_case(part.run, &mut ch, &mut cx);
                result(r, &ch, cx)
            }
        }
    }
}

/// Run a property; gives back the process exit code.
pub fn run_main(props: &'static [Prop]) -> i32 {
    let args = parse_args();
    install_panic_hook();
    if args.extra.iter().any(|x| x == "list") {
        for p in props {
            println!("{}", p.id);
        }
        return 0;
    }
    let Some(prop) = props.iter().find(|p| p.id == args.property) else {
        eprintln!("unknown property {}", args.property);
        return 2;
    };
    if let Some(file) = &args.replay {
        return replay_file(prop, file);
    }
    if !args.one.is_empty() {
        return one_case(prop, &args);
    }
    let Some(progress) = &args.progress else { return supervise(prop, &args) };
    let progress = std::fs::File::create(progress).ok();
    let start = Instant::now();
    let thorough = args.tier == "thorough";
    let stop = AtomicBool::new(false);
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let all: Mutex<BTreeMap<u64, Stats>> = Mutex::new(BTreeMap::new());
    let (seed, scale) = (args.seed, args.scale);
    std::thread::scope(|s| {
        for t in 0..THREADS {
            let (stop, failures, all, progress) = (&stop, &failures, &all, &progress);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    'parts: for (part_ix, part) in prop.parts.iter().enumerate() {
                        let total = if thorough { part.thorough } else { part.quick };
                        let total = ((total as f64) * scale).ceil() as u64;
                        let n = total / THREADS + u64::from(t < total % THREADS);
                        for case in 0..n {
                            if stop.load(Ordering::Relaxed) {
                                break 'parts;
                            }
                            mark(progress, t, part_ix as u64, case);
                            let mut ch = Ch::random(case_seed(seed, prop.id, part.name, t, case));
                            let mut cx = Cx { verbose: st.samples.len() < 3 || case % 4096 == 0, ..Default::default() };
                            let r = run_case(part.run, &mut ch, &mut cx);
                            st.evals += 1;
                            st.excluded += cx.excluded;
                            match r {
                                Ok(()) => {
                                    *st.labels.entry(format!("part:{}", part.name)).or_default() += 1;
                                    for l in cx.labels {
                                        *st.labels.entry(l).or_default() += 1;
                                    }
                                    if cx.nontrivial {
                                        st.nontrivial += 1;
                                        let mut h = cx.key;
                                        if h.is_none() {
                                            let mut c2 = Cx::default();
                                            c2.key(&ch.rec);
                                            h = c2.key;
                                        }
                                        st.keys.insert(h.unwrap() ^ hash_str(part.name));
                                        if st.samples.len() < 12 {
                                            if let Some(s) = cx.sample {
                                                st.samples.push(format!("{}: {}", part.name, clip(&s, 600)));
                                            }
                                        }
                                    }
                                }
                                Err(Stop::Discard(why)) => *st.discards.entry(why.to_string()).or_default() += 1,
                                Err(Stop::Fail(msg)) => {
                                    stop.store(true, Ordering::Relaxed);
                                    failures.lock().unwrap().push(Failure { part: *part, thread: t, case, choices: ch.rec, msg });
                                    break 'parts;
                                }
                            }
                        }
                    }
                    mark(progress, t, u64::MAX, 0);
                    all.lock().unwrap().insert(t, st);
                })
                .unwrap();
        }
    });
    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| (f.choices.len(), f.thread, f.case));
    let mut m = Stats::default();
    let per = all.into_inner().unwrap();
    for (_, st) in per {
        m.evals += st.evals;
        m.nontrivial += st.nontrivial;
        m.excluded += st.excluded;
        for (k, v) in st.discards {
            *m.discards.entry(k).or_default() += v;
        }
        for (k, v) in st.labels {
            *m.labels.entry(k).or_default() += v;
        }
        m.keys.extend(st.keys);
        m.samples.extend(st.samples.into_iter().take(2));
    }
    let mut exit = 0;
    let mut violations = 0;
    if !failures.is_empty() {
        let f = failures.remove(0);
        let (part, choices, msg) = (f.part, f.choices, f.msg);
        // Looking for a smaller one might not end; then this is what's left.
        save(prop, &args, part.name, &choices, &msg, "");
        let (best, msg) = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || shrink(&mut |c| attempt(part, c), choices, msg))
                .unwrap()
                .join()
                .unwrap()
        });
        let desc = std::thread::scope(|s| {
            let b = best.clone();
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut ch = Ch::replay(b);
                    let mut cx = Cx { verbose: true, ..Default::default() };
                    let _ = run_case(part.run, &mut ch, &mut cx);
                    cx.sample.unwrap_or_default()
                })
                .unwrap()
                .join()
                .unwrap()
        });
        report(prop, &args, part.name, &best, &msg, &desc);
        violations = 1;
        exit = 1;
    }
    // Known findings:
    let listed: Vec<String> = std::fs::read_to_string(&args.known_file)
        .unwrap_or_default()
        .lines()
        .filter(|l| l.starts_with(&format!("known: property={} ", prop.id)))
        .map(|l| l.to_string())
        .collect();
    for (key, f) in prop.known {
        if let Some(what) = f() {
            if listed.iter().any(|l| l.contains(&format!("[{key}]"))) {
                println!("KNOWN-FINDING: property={} [{key}] {what}", prop.id);
            } else {
                println!("finding [{key}] {what} is not listed");
                let path = format!("{}/{}.{}.replay", args.replay_dir, prop.id, key);
                let _ = std::fs::create_dir_all(&args.replay_dir);
                let _ = std::fs::write(&path, format!("property {}\nfinding {}\n{}\n", prop.id, key, what));
                println!("VIOLATION property={} replay={}", prop.id, path);
                violations += 1;
                exit = 1;
            }
        }
    }
    let wall = start.elapsed().as_secs_f64();
    if !args.evidence.is_empty() {
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
            json_str(prop.id),
            json_str(if thorough { "thorough" } else { "quick" }),
            args.seed,
            m.evals,
            m.keys.len(),
            json_str(prop.rule)
        );
        let _ = write!(o, "  \"nontrivial_cases\": {},\n  \"discarded\": {{", m.nontrivial);
        for (i, (k, v)) in m.discards.iter().enumerate() {
            let _ = write!(o, "{}{}: {}", if i > 0 { ", " } else { "" }, json_str(k), v);
        }
        let _ = write!(o, "}},\n  \"excluded_known_findings\": {},\n  \"classes\": {{", m.excluded);
        for (i, (k, v)) in m.labels.iter().enumerate() {
            let _ = write!(o, "{}{}: {}", if i > 0 { ", " } else { "" }, json_str(k), v);
        }
        let _ = write!(o, "}},\n  \"samples\": [");
        for (i, s) in m.samples.iter().enumerate() {
            let _ = write!(o, "{}\n   {}", if i > 0 { "," } else { "" }, json_str(s));
        }
        let _ = write!(o, "\n  ]\n }},\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n", violations, wall);
        if let Some(d) = std::path::Path::new(&args.evidence).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        if let Err(e) = std::fs::write(&args.evidence, o) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} discarded, {:.1}s",
        prop.id,
        m.evals,
        m.keys.len(),
        m.discards.values().sum::<u64>(),
        wall
    );
    exit
}

/// Say which case a thread is at.
fn mark(progress: &Option<std::fs::File>, t: u64, part: u64, case: u64) {
    if let Some(f) = progress {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&part.to_le_bytes());
        b[8..].copy_from_slice(&case.to_le_bytes());
        #[cfg(unix)]
        let _ = f.write_at(&b, t * 16);
        #[cfg(not(unix))]
        let _ = (f, b);
    }
}

/// Run one case, which is expected to bring this process down.
fn one_case(prop: &'static Prop, args: &Args) -> i32 {
    let part = prop.parts[args.one[0].parse::<usize>().unwrap()];
    let mut ch = match args.one[1].as_str() {
        "seed" => Ch::random(args.one[2].parse().unwrap()),
        _ => Ch::replay(read_choices(&args.one[2])),
    };
    ch.log = std::fs::File::create(&args.one[3]).ok();
    let verbose = std::env::var("VERIF_SHOW").is_ok();
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut cx = Cx { verbose, ..Default::default() };
            let _ = run_case(part.run, &mut ch, &mut cx);
        })
        .unwrap()
        .join()
        .map_or(2, |_| 0)
}
fn read_choices(file: &str) -> Vec<u64> {
    std::fs::read(file).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

/// The cases run in a child process, since what's being tested might abort rather than panic (by running out of
/// stack, or asking for ridiculous amounts of memory).
#[cfg(not(unix))]
fn supervise(_: &'static Prop, _: &Args) -> i32 {
    2
}
#[cfg(unix)]
fn newer(a: &str, b: &str) -> bool {
    let at = |f: &str| std::fs::metadata(f).and_then(|m| m.modified()).ok();
    at(a) >= at(b)
}
#[cfg(unix)]
fn supervise(prop: &'static Prop, args: &Args) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let begun = Instant::now();
    let dir = std::env::temp_dir().join(format!("verif-{}-{}", prop.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let file = |n: &str| dir.join(n).to_string_lossy().to_string();
    let exe = std::env::current_exe().expect("own path");
    let child = std::process::Command::new(&exe).args(std::env::args().skip(1)).args(["--progress", &file("progress")]).spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot run cases: {e}");
            return 2;
        }
    };
    let read = || -> Vec<(u64, u64)> {
        let b = std::fs::read(file("progress")).unwrap_or_default();
        b.chunks_exact(16).map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap()))).collect()
    };
    // Wait for it to end, while looking at whether it gets anywhere.
    let mut seen: Vec<(u64, u64)> = vec![];
    let mut since: Vec<Instant> = vec![];
    let mut stuck = vec![];
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => (),
            Err(e) => {
                eprintln!("cannot wait for cases: {e}");
                return 2;
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(100));
        let now = read();
        since.resize(now.len(), Instant::now());
        for (t, at) in now.iter().enumerate() {
            if seen.get(t) != Some(at) {
                since[t] = Instant::now();
            }
        }
        seen = now;
        let late = |t: &usize| since[*t].elapsed() > STUCK;
        stuck = (0..seen.len()).filter(|t| seen[*t].0 != u64::MAX && late(t)).collect();
        let ending = !seen.is_empty() && seen.iter().all(|x| x.0 == u64::MAX) && (0..seen.len()).all(|t| late(&t));
        if !stuck.is_empty() || ending {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    let crash = |s: &std::process::ExitStatus| s.signal().is_some_and(|s| matches!(s, 4 | 6 | 7 | 8 | 11));
    // Runs a case in a process of its own; says if it takes that down, or doesn't end.
    let one = |part: usize, how: &str, what: &str, limit: std::time::Duration| -> Option<(Vec<u64>, String)> {
        let (log, err) = (file("log"), file("stderr"));
        let mut c = std::process::Command::new(&exe)
            .args(["--property", prop.id, "--one", &part.to_string(), how, what, &log])
            .stdout(std::process::Stdio::null())
            .stderr(std::fs::File::create(&err).ok()?)
            .spawn()
            .ok()?;
        let from = Instant::now();
        let mut nap = 1;
        loop {
            if let Some(s) = c.try_wait().ok()? {
                let err = std::fs::read(&err).unwrap_or_default();
                let err = String::from_utf8_lossy(&err);
                return crash(&s).then(|| (read_choices(&log), format!("process aborted: {} ({})", s, clip(err.trim(), 300))));
            }
            if from.elapsed() > limit {
                let _ = c.kill();
                let _ = c.wait();
                return Some((read_choices(&log), "doesn't end".to_string()));
            }
            std::thread::sleep(std::time::Duration::from_millis(nap));
            nap = (nap * 2).min(50);
        }
    };
    let long = std::time::Duration::from_secs(60);
    let smaller = |part: usize, choices: Vec<u64>, msg: String, limit: std::time::Duration| {
        shrink(
            &mut |c| {
                let f = file("choices");
                std::fs::write(&f, c.iter().flat_map(|c| c.to_le_bytes()).collect::<Vec<u8>>()).ok()?;
                one(part, "choices", &f, limit)
            },
            choices,
            msg,
        )
    };
    let mut code = match status {
        Some(s) if crash(&s) => {
            println!("the process running the cases died: {s}");
            let mut code = 2;
            for (t, (part, case)) in read().into_iter().enumerate().filter(|(_, x)| x.0 != u64::MAX) {
                let part = part as usize;
                let seed = case_seed(args.seed, prop.id, prop.parts[part].name, t as u64, case);
                if let Some((choices, msg)) = one(part, "seed", &seed.to_string(), long) {
                    let (best, msg) = smaller(part, choices, msg, long / 6);
                    report(prop, args, prop.parts[part].name, &best, &msg, "");
                    code = 1;
                    break;
                }
            }
            code
        }
        Some(s) => s.code().unwrap_or(2),
        None if !stuck.is_empty() => {
            println!("cases which take very long: {:?}", stuck.iter().map(|t| seen[*t]).collect::<Vec<_>>());
            let mut code = 2;
            for t in stuck {
                let (part, case) = (seen[t].0 as usize, seen[t].1);
                let seed = case_seed(args.seed, prop.id, prop.parts[part].name, t as u64, case);
                if let Some((choices, msg)) = one(part, "seed", &seed.to_string(), long) {
                    let (mut best, mut msg) = (choices.clone(), msg);
                    let (b, m) = smaller(part, choices, msg.clone(), std::time::Duration::from_secs(3));
                    let f = file("choices");
                    let _ = std::fs::write(&f, b.iter().flat_map(|c| c.to_le_bytes()).collect::<Vec<u8>>());
                    // It's a smaller one only if it isn't just somewhat slow.
                    if one(part, "choices", &f, long / 2).is_some() {
                        (best, msg) = (b, m);
                    }
                    report(prop, args, prop.parts[part].name, &best, &msg, "");
                    code = 1;
                    break;
                }
            }
            code
        }
        None => 2,
    };
    // All of the cases ended, so it was looking for a smaller failing case that took too long, or took it down.
    let path = replay_path(prop, args);
    if code == 2 && read().iter().all(|x| x.0 == u64::MAX) && std::path::Path::new(&path).exists() && newer(&path, &file("progress")) {
        println!("{}", clip(&std::fs::read_to_string(&path).unwrap_or_default(), 3000));
        println!("VIOLATION property={} replay={}", prop.id, path);
        code = 1;
    }
    if code == 1 && !matches!(status, Some(s) if s.code() == Some(1)) && !args.evidence.is_empty() {
        // (the cases which did run haven't been written down)
        let ran: u64 = read().iter().filter(|x| x.0 != u64::MAX).map(|x| x.1).sum();
        let e = format!(
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": 1,\n  \"rule\": {},\n  \"samples\": [\"the failing case: {}\"]\n }},\n \"violations\": 1, \"wall_s\": {:.3}\n}}\n",
            json_str(prop.id),
            json_str(&args.tier),
            args.seed,
            ran.max(1),
            json_str(prop.rule),
            replay_path(prop, args),
            begun.elapsed().as_secs_f64()
        );
        if let Some(d) = std::path::Path::new(&args.evidence).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        let _ = std::fs::write(&args.evidence, e);
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Write down a failing case.
fn report(prop: &Prop, args: &Args, part: &str, best: &[u64], msg: &str, desc: &str) {
    let path = save(prop, args, part, best, msg, desc);
    println!("{}", clip(msg, 3000));
    println!("case: {}", clip(desc, 3000));
    println!("VIOLATION property={} replay={}", prop.id, path);
}
fn save(prop: &Prop, args: &Args, part: &str, best: &[u64], msg: &str, desc: &str) -> String {
    let _ = std::fs::create_dir_all(&args.replay_dir);
    let path = replay_path(prop, args);
    let mut o = format!("property {}\npart {}\nseed {}\nchoices", prop.id, part, args.seed);
    for c in best {
        let _ = write!(o, " {c}");
    }
    let _ = write!(o, "\n---\n{}\n--- case\n{}\n", msg, desc);
    if let Err(e) = std::fs::write(&path, o) {
        eprintln!("cannot write {path}: {e}");
    }
    path
}
fn replay_path(prop: &Prop, args: &Args) -> String {
    format!("{}/{}.replay", args.replay_dir, prop.id)
}

fn replay_file(prop: &'static Prop, file: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let mut part = None;
    let mut choices = vec![];
    for l in text.lines() {
        if l == "---" {
            break;
        }
        if let Some(p) = l.strip_prefix("part ") {
            part = prop.parts.iter().find(|x| x.name == p);
        }
        if let Some(c) = l.strip_prefix("choices") {
            choices = c.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        }
    }
    let Some(part) = part else {
        eprintln!("no such part");
        return 2;
    };
    let part = *part;
    let (tell, done) = std::sync::mpsc::channel();
    let _ = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let mut ch = Ch::replay(choices);
        let mut cx = Cx { verbose: true, ..Default::default() };
        let code = match run_case(part.run, &mut ch, &mut cx) {
            Ok(()) => {
                println!("passes; {:?}", cx.sample);
                0
            }
            Err(Stop::Discard(d)) => {
                println!("discarded: {d}; {:?}", cx.sample);
                0
            }
            Err(Stop::Fail(m)) => {
                println!("{m}\ncase: {}", cx.sample.unwrap_or_default());
                println!("VIOLATION property={} replay={}", prop.id, "given");
                1
            }
        };
        let _ = tell.send(code);
    });
    match done.recv_timeout(std::time::Duration::from_secs(90)) {
        Ok(code) => code,
        Err(_) => {
            println!("doesn't end");
            println!("VIOLATION property={} replay={}", prop.id, "given");
            1
        }
    }
}
