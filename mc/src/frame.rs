//! The runner: enumerates the cases of a property's sub-checks on all cores,
//! judges each, and writes the evidence.
//!
//! A sub-check is a closure that enumerates its cases in a fixed order and
//! hands each to `W::case`. Every worker enumerates all of them and runs the
//! ones that are its own (index modulo workers), so a case is identified by
//! (property, tier, sub-check, index), which is what a replay file holds.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// Choose by tier.
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// Why a case failed. `key` names a specific input or history that may be
/// listed as a known finding.
#[derive(Debug, Clone)]
pub struct Fail {
    pub key: Option<String>,
    pub msg: String,
}

impl Fail {
    pub fn known(key: impl Into<String>, msg: impl Into<String>) -> Fail {
        Fail { key: Some(key.into()), msg: msg.into() }
    }
}
impl From<String> for Fail {
    fn from(msg: String) -> Fail {
        Fail { key: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Fail {
        Fail { key: None, msg: msg.to_string() }
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err($crate::Fail::from(format!($($a)*)));
        }
    };
}

/// What is counted while cases run.
#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub transitions: u64,
    pub schedules: u64,
    pub validated: u64,
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
}

impl Stats {
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn outcome(&mut self, b: &[u8]) {
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(crate::h64(b));
        }
    }
}

pub struct W<'r> {
    run: &'r Run,
    id: u64,
    n: u64,
    sub: usize,
    next: u64,
    only: Option<u64>,
    pub st: Stats,
    pub tier: Tier,
    seen_known: HashSet<String>,
}

struct Found {
    sub: usize,
    idx: u64,
    desc: String,
    msg: String,
}

/// Worker slots for the watchdog: (sub + 1) << 48 | index, and a heartbeat.
pub struct Slot {
    cur: AtomicU64,
    since: AtomicU64,
}

const SLOTS: usize = 64;
static CUR: [Slot; SLOTS] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const S: Slot = Slot { cur: AtomicU64::new(0), since: AtomicU64::new(0) };
    [S; SLOTS]
};
static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

pub fn now_ms() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static MY: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

/// Tell the watchdog that a long case is making progress.
pub fn heartbeat() {
    MY.with(|m| {
        let i = m.get();
        if i < SLOTS {
            CUR[i].since.store(now_ms(), SeqCst);
        }
    });
}

/// The message of the last panic on this thread.
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "(unknown panic)".into())
}

/// Run something of the code under test, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", last_panic()))
}

pub struct Run {
    pub prop: String,
    pub tier: Tier,
    level: &'static str,
    best: Mutex<Option<Found>>,
    best_at: AtomicU64,
    known: Vec<(String, String)>,
    known_hit: Mutex<HashSet<String>>,
}

pub type SubFn = Box<dyn Fn(&mut W) + Sync>;

/// What a property's check consists of.
pub struct Check {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<(&'static str, SubFn)>,
    pub exhaustive: bool,
    pub workers: usize,
}

impl Check {
    pub fn new(rule: &'static str) -> Check {
        Check {
            level: "model_checking",
            rule,
            assumptions: vec![],
            subs: vec![],
            exhaustive: true,
            workers: 8,
        }
    }
    pub fn sub(mut self, name: &'static str, f: impl Fn(&mut W) + Sync + 'static) -> Check {
        self.subs.push((name, Box::new(f)));
        self
    }
    pub fn assume(mut self, a: &'static str) -> Check {
        self.assumptions.push(a);
        self
    }
    pub fn level(mut self, l: &'static str) -> Check {
        self.level = l;
        self
    }
}

const STOP: u64 = u64::MAX;

impl<'r> W<'r> {
    /// Run one case, if it is this worker's. `desc` says what it is.
    pub fn case(
        &mut self,
        desc: impl Fn() -> String,
        body: impl FnOnce(&mut Stats) -> Res,
    ) {
        let idx = self.next;
        self.next += 1;
        match self.only {
            Some(o) if o != idx => return,
            None if idx % self.n != self.id => return,
            _ => {}
        }
        let code = ((self.sub as u64 + 1) << 48) | idx;
        if self.run.best_at.load(SeqCst) < code {
            return;
        }
        if self.only.is_some() {
            println!("case: {}", desc());
        }
        let slot = &CUR[self.id as usize];
        slot.since.store(now_ms(), SeqCst);
        slot.cur.store(code, SeqCst);
        self.st.evaluations += 1;
        let st = &mut self.st;
        let r = match catch_unwind(AssertUnwindSafe(|| body(st))) {
            Ok(r) => r,
            Err(_) => Err(Fail::from(format!("panicked: {}", last_panic()))),
        };
        slot.cur.store(0, SeqCst);
        if self.st.samples.len() < 1 || (idx > 1000 && self.st.samples.len() < 2) {
            let d = desc();
            let d = if d.len() > 400 { format!("{}...", d.chars().take(400).collect::<String>()) } else { d };
            self.st.samples.push(d);
        }
        if let Err(f) = r {
            if let Some(k) = &f.key {
                if self.run.known.iter().any(|(kk, _)| kk == k) {
                    if self.seen_known.insert(k.clone()) {
                        self.run.known_hit.lock().unwrap().insert(k.clone());
                    }
                    if self.only.is_some() {
                        println!("known finding {}: {}", k, f.msg);
                    }
                    return;
                }
            }
            let mut b = self.run.best.lock().unwrap();
            if self.run.best_at.load(SeqCst) > code {
                self.run.best_at.store(code, SeqCst);
                let key = f.key.map(|k| format!(" [{}]", k)).unwrap_or_default();
                *b = Some(Found { sub: self.sub, idx, desc: desc(), msg: format!("{}{}", f.msg, key) });
            }
        }
    }

    /// The index the next case will have.
    pub fn at(&self) -> u64 {
        self.next
    }

    /// Whether a violation has been found that makes further cases useless.
    pub fn done(&self) -> bool {
        self.run.best_at.load(SeqCst) < ((self.sub as u64 + 1) << 48 | self.next)
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn load_known(dir: &str, prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", dir)).unwrap_or_default();
    let mut v = vec![];
    for line in text.lines() {
        // known: property=C10 key=<key> <what fails>
        let Some(rest) = line.strip_prefix("known: property=") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (p, k, what) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        if p == prop {
            v.push((k.trim_start_matches("key=").to_string(), what.to_string()));
        }
    }
    v
}

/// The command line of every checker binary:
///   run ID TIER VERIF_DIR        explore, write evidence and the verdict
///   replay FILE VERIF_DIR        run the one case a replay file names
pub fn main(get: impl Fn(&str, Tier) -> Option<Check>) -> ! {
    now_ms();
    unsafe { signal(6, on_abort as *const () as usize) };
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{}{}", m, at)));
        if std::env::var("MC_PANICS").is_ok() {
            eprintln!("panic: {}{}", m, at);
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let tier_of = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let tier = tier_of(&a[3]);
            let only_sub = a.get(5).cloned();
            match get(&a[2], tier) {
                Some(c) => explore(&a[2], tier, c, &a[4], None, only_sub),
                None => {
                    eprintln!("no check for {}", a[2]);
                    2
                }
            }
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&a[2]).expect("replay file");
            let f = |k: &str| {
                text.lines()
                    .find_map(|l| l.strip_prefix(&format!("{}=", k)))
                    .unwrap_or("")
                    .to_string()
            };
            let tier = tier_of(&f("tier"));
            let prop = f("property");
            let c = get(&prop, tier).expect("check");
            let sub = match f("sub").parse::<usize>() {
                Ok(i) => c.subs[i].0.to_string(),
                Err(_) => f("sub"),
            };
            let idx = f("index").parse().expect("index");
            explore(&prop, tier, c, &a[3], Some((sub, idx)), None)
        }
        _ => {
            eprintln!("usage: run ID TIER DIR | replay FILE DIR");
            2
        }
    };
    std::process::exit(code)
}

fn write_replay(dir: &str, prop: &str, tier: Tier, sub: &str, idx: u64, desc: &str, msg: &str) -> String {
    let d = format!("{}/.build/replay", dir);
    let _ = std::fs::create_dir_all(&d);
    let path = format!("{}/{}-{}-{}.txt", d, prop, sub, idx);
    let text = format!(
        "property={}\ntier={}\nsub={}\nindex={}\n\ncase: {}\n\nwhat failed: {}\n\nrun: ./check replay {}\n",
        prop, tier.name(), sub, idx, desc, msg, path
    );
    let _ = std::fs::write(&path, text);
    path
}

fn explore(prop: &str, tier: Tier, check: Check, dir: &str, only: Option<(String, u64)>, only_sub: Option<String>) -> i32 {
    let t0 = Instant::now();
    let run = Run {
        prop: prop.to_string(),
        tier,
        level: check.level,
        best: Mutex::new(None),
        best_at: AtomicU64::new(STOP),
        known: load_known(dir, prop),
        known_hit: Mutex::new(HashSet::new()),
    };
    let n = if only.is_some() { 1 } else { check.workers as u64 };
    let stop = AtomicBool::new(false);
    let limit_ms: u64 = std::env::var("MC_CASE_LIMIT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(60_000);
    let mut per_sub: Vec<(String, u64, u64, u64, u64, f64)> = vec![];
    let mut total = Stats::default();
    let mut states = 0u64;
    let mut outcomes = 0u64;
    std::thread::scope(|s| {
        // A case that never ends is judged by the watchdog: nothing else can.
        s.spawn(|| {
            while !stop.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                for slot in CUR.iter() {
                    let c = slot.cur.load(SeqCst);
                    if c != 0 && now_ms().saturating_sub(slot.since.load(SeqCst)) > limit_ms && slot.cur.load(SeqCst) == c {
                        let sub = (c >> 48) as usize - 1;
                        let idx = c & ((1 << 48) - 1);
                        let msg = format!("the case did not end within {} ms: it is blocked or loops forever", limit_ms);
                        let p = write_replay(dir, prop, tier, check.subs[sub].0, idx, "(see the replay)", &msg);
                        println!("{}: {}", check.subs[sub].0, msg);
                        println!("VIOLATION property={} replay={}", prop, p);
                        std::process::exit(1);
                    }
                }
            }
        });
        for (si, (name, f)) in check.subs.iter().enumerate() {
            if let Some((on, _)) = &only {
                if on != name {
                    continue;
                }
            }
            if let Some(on) = &only_sub {
                if on != name {
                    continue;
                }
            }
            let ts = Instant::now();
            let hs: Vec<_> = (0..n)
                .map(|id| {
                    let run = &run;
                    let only = only.as_ref().map(|x| x.1);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            MY.with(|m| m.set(id as usize));
                            let mut w = W {
                                run,
                                id,
                                n,
                                sub: si,
                                next: 0,
                                only,
                                st: Stats::default(),
                                tier,
                                seen_known: HashSet::new(),
                            };
                            f(&mut w);
                            w.st
                        })
                        .unwrap()
                })
                .collect();
            let mut sub = Stats::default();
            for h in hs {
                match h.join() {
                    Ok(st) => {
                        sub.evaluations += st.evaluations;
                        sub.transitions += st.transitions;
                        sub.schedules += st.schedules;
                        sub.validated += st.validated;
                        sub.states.extend(st.states);
                        sub.outcomes.extend(st.outcomes);
                        if sub.samples.len() < 2 {
                            sub.samples.extend(st.samples);
                            sub.samples.truncate(2);
                        }
                        for n in st.notes {
                            if !sub.notes.contains(&n) {
                                sub.notes.push(n);
                            }
                        }
                    }
                    Err(_) => {
                        eprintln!("checker error: a worker of {} died", name);
                        std::process::exit(2);
                    }
                }
            }
            eprintln!(
                "  {}: {} cases, {} transitions, {} states, {} schedules, {} outcomes, {:.1}s",
                name, sub.evaluations, sub.transitions, sub.states.len(), sub.schedules, sub.outcomes.len(),
                ts.elapsed().as_secs_f64()
            );
            per_sub.push((
                name.to_string(),
                sub.evaluations,
                sub.transitions,
                sub.states.len() as u64,
                sub.schedules,
                ts.elapsed().as_secs_f64(),
            ));
            total.evaluations += sub.evaluations;
            total.transitions += sub.transitions;
            total.schedules += sub.schedules;
            total.validated += sub.validated;
            states += sub.states.len() as u64;
            outcomes += sub.outcomes.len() as u64;
            total.samples.extend(sub.samples.iter().map(|x| format!("{}: {}", name, x)));
            total.notes.extend(sub.notes);
            if run.best_at.load(SeqCst) != STOP {
                break;
            }
        }
        stop.store(true, SeqCst);
    });
    let found = run.best.into_inner().unwrap();
    let hit = run.known_hit.into_inner().unwrap();
    for (k, what) in &run.known {
        if hit.contains(k) {
            println!("KNOWN-FINDING: property={} {} ({})", prop, what, k);
        }
    }
    if only.is_none() {
        let mut o = String::new();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
        o.push_str(&format!(
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n",
            esc(prop), esc(tier.name()), seed, esc(run.level)
        ));
        o.push_str(&format!(
            "  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n",
            states.max(1), total.transitions, total.validated.max(total.evaluations)
        ));
        o.push_str(&format!(
            "  \"evaluations\": {}, \"schedules\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
            total.evaluations, total.schedules, states.max(outcomes), esc(check.rule)
        ));
        o.push_str(&format!("  \"exhaustive\": {},\n", check.exhaustive && found.is_none()));
        o.push_str("  \"sub_checks\": [");
        for (i, s) in per_sub.iter().enumerate() {
            o.push_str(&format!(
                "{}\n   {{\"name\": {}, \"cases\": {}, \"transitions\": {}, \"states\": {}, \"schedules\": {}, \"wall_s\": {:.2}}}",
                if i > 0 { "," } else { "" }, esc(&s.0), s.1, s.2, s.3, s.4, s.5
            ));
        }
        o.push_str("],\n  \"samples\": [");
        for (i, s) in total.samples.iter().take(12).enumerate() {
            o.push_str(&format!("{}\n   {}", if i > 0 { "," } else { "" }, esc(s)));
        }
        o.push_str("],\n  \"known_findings_hit\": [");
        let mut hs: Vec<_> = hit.iter().collect();
        hs.sort();
        for (i, s) in hs.iter().enumerate() {
            o.push_str(&format!("{}{}", if i > 0 { ", " } else { "" }, esc(s)));
        }
        o.push_str("],\n  \"notes\": [");
        for (i, s) in total.notes.iter().take(20).enumerate() {
            o.push_str(&format!("{}{}", if i > 0 { ", " } else { "" }, esc(s)));
        }
        o.push_str("]\n },\n \"assumptions\": [");
        for (i, s) in check.assumptions.iter().enumerate() {
            o.push_str(&format!("{}{}", if i > 0 { ", " } else { "" }, esc(s)));
        }
        o.push_str(&format!(
            "],\n \"violations\": {}, \"wall_s\": {:.2}\n}}\n",
            found.is_some() as u32,
            t0.elapsed().as_secs_f64()
        ));
        let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
        let path = format!("{}/evidence/{}.json", dir, prop);
        if let Err(e) = std::fs::write(&path, o) {
            eprintln!("cannot write {}: {}", path, e);
            return 2;
        }
    }
    match found {
        Some(f) => {
            let name = check.subs[f.sub].0;
            println!("sub-check {} case {}:\n  {}\n  {}", name, f.idx, f.desc, f.msg);
            let p = write_replay(dir, prop, tier, name, f.idx, &f.desc, &f.msg);
            println!("VIOLATION property={} replay={}", prop, p);
            1
        }
        None => {
            eprintln!("{} held: {} cases, {:.1}s", prop, total.evaluations, t0.elapsed().as_secs_f64());
            0
        }
    }
}

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}

/// The code under test aborted the process (a panic while panicking, a stack
/// overflow, an impossible allocation): say which case did, for the driver to
/// confirm by replaying it alone.
extern "C" fn on_abort(_: i32) {
    let me = MY.with(|m| m.get());
    let code = if me < SLOTS { CUR[me].cur.load(SeqCst) } else { 0 };
    let mut buf = *b"\nMC-CRASH 0000000000000000\n";
    for i in 0..16 {
        buf[10 + i] = b"0123456789abcdef"[(code >> (60 - 4 * i)) as usize & 15];
    }
    unsafe {
        write(2, buf.as_ptr().cast(), buf.len());
        _exit(70)
    }
}
