//! A controlled scheduler: runs the threads of a small program as coroutines on
//! one OS thread, switching between them only before an operation on shared
//! memory (taking a shard's lock, an atomic operation), and explores every
//! order of those operations that can make a difference, depth first, by
//! running the program again and again (stateless model checking). Orders which
//! only swap independent neighbouring steps are left out (sleep sets).
//!
//! Two steps depend on each other if they are on the same object and not both
//! only reading, or if one begins a call and the other ends one (so that the
//! real-time order of calls, which linearizability refers to, is explored too).
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering::SeqCst;

// ---------------------------------------------------------------- coroutines

std::arch::global_asm!(
    ".global sched_switch",
    "sched_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".global sched_start",
    "sched_start:",
    "xor ebp, ebp",
    "call {main}",
    "ud2",
    main = sym co_main,
);

extern "C" {
    fn sched_switch(save: *mut *mut u8, to: *mut u8);
    fn sched_start();
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

const STACK: usize = 512 << 10;

thread_local! {
    static STACKS: RefCell<Vec<*mut u8>> = RefCell::new(Vec::new());
    static RUN: Cell<*mut Run> = Cell::new(std::ptr::null_mut());
    static OBJS: Cell<u64> = Cell::new(1);
    static SHARDS: Cell<usize> = Cell::new(1);
    static ATOMICS: RefCell<Vec<(*const u8, usize)>> = RefCell::new(Vec::new());
    static QUIET: Cell<bool> = Cell::new(false);
}

fn new_stack() -> *mut u8 {
    if let Some(s) = STACKS.with(|s| s.borrow_mut().pop()) {
        return s;
    }
    unsafe {
        // Private, anonymous, not reserved; the lowest page is a guard.
        let p = mmap(std::ptr::null_mut(), STACK, 3, 0x2 | 0x20 | 0x4000, -1, 0);
        assert!(p as isize != -1, "no memory for a stack");
        mprotect(p, 4096, 0);
        p
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Read,
    Write,
    Upgradeable,
    Upgrade,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Need {
    Nothing,
    Lock(*const AtomicUsize, Mode),
    /// Another thread has to take a step first: this one is spinning.
    Progress(u64),
}

/// What a step did, as far as it matters to other threads.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Step {
    pub thread: u8,
    /// 0: anything.
    pub obj: u64,
    pub write: bool,
    pub begins: bool,
    pub ends: bool,
}

impl Step {
    pub fn depends(&self, o: &Step) -> bool {
        self.thread == o.thread
            || (self.obj == o.obj || self.obj == 0 || o.obj == 0) && (self.write || o.write)
            || self.begins && o.ends
            || self.ends && o.begins
    }
}

struct Co {
    stack: *mut u8,
    rsp: *mut u8,
    done: bool,
    /// The call that runs next hasn't begun.
    fresh: bool,
    ended: bool,
    obj: u64,
    write: bool,
    need: Need,
    body: Option<Box<dyn FnOnce()>>,
    objs: u64,
}

struct Run {
    main: *mut u8,
    cur: Option<usize>,
    cos: Vec<Co>,
    /// Steps taken.
    step: u64,
}

unsafe extern "C" fn co_main() -> ! {
    let run = RUN.with(|r| r.get());
    let me = (*run).cur.unwrap();
    let body = (&mut (*run).cos)[me].body.take().unwrap();
    let r = catch_unwind(AssertUnwindSafe(body));
    if r.is_err() {
        // Calls catch their own panics.
        eprintln!("checker error: a thread's body panicked");
        std::process::exit(2);
    }
    let co = &mut (&mut (*run).cos)[me];
    co.done = true;
    let main = (*run).main;
    sched_switch(&mut co.rsp, main);
    unreachable!()
}

fn yield_now(obj: u64, write: bool, need: Need) {
    let run = RUN.with(|r| r.get());
    unsafe {
        let me = (*run).cur.unwrap();
        let main = (*run).main;
        let co = &mut (&mut (*run).cos)[me];
        co.obj = obj;
        co.write = write;
        co.need = need;
        sched_switch(&mut co.rsp, main);
    }
}

fn resume(rp: *mut Run, t: usize) {
    unsafe {
        (*rp).cur = Some(t);
        let to = (&mut (*rp).cos)[t].rsp;
        sched_switch(&mut (*rp).main, to);
        (*rp).cur = None;
    }
}

fn running() -> bool {
    let run = RUN.with(|r| r.get());
    !run.is_null() && unsafe { (*run).cur.is_some() }
}

// --------------------------------------------------- called by what is checked

/// How many shards a map gets.
pub fn shards() -> usize {
    SHARDS.with(|s| s.get())
}

pub fn set_shards(n: usize) {
    assert!(n.is_power_of_two());
    SHARDS.with(|s| s.set(n));
}

/// Leave the metrics' locks out of the exploration.
pub fn set_quiet(q: bool) {
    QUIET.with(|s| s.set(q));
}

/// An identity which is the same in every order of independent steps.
pub fn new_obj() -> u64 {
    let run = RUN.with(|r| r.get());
    if !run.is_null() {
        unsafe {
            if let Some(me) = (*run).cur {
                let co = &mut (&mut (*run).cos)[me];
                co.objs += 1;
                return (me as u64 + 1) << 32 | co.objs;
            }
        }
    }
    OBJS.with(|o| {
        let v = o.get();
        o.set(v + 1);
        v
    })
}

pub fn new_lock(key: &str) -> u64 {
    if QUIET.with(|q| q.get()) && key.contains("Metric") {
        0
    } else {
        new_obj()
    }
}

const WRITER: usize = 1;
const UPGRADED: usize = 2;

fn free(v: usize, m: Mode) -> bool {
    match m {
        Mode::Read | Mode::Upgradeable => v & (WRITER | UPGRADED) == 0,
        Mode::Write => v == 0,
        Mode::Upgrade => v == UPGRADED,
    }
}

/// Before taking a lock: another thread may go first, and it has to be free.
pub fn lock(word: &AtomicUsize, obj: u64, mode: Mode) {
    if !running() {
        if !free(word.load(SeqCst), mode) {
            panic!("deadlock: taking a lock that is held, with no other thread running");
        }
        return;
    }
    if obj == 0 && free(word.load(SeqCst), mode) {
        return;
    }
    yield_now(obj, mode != Mode::Read, Need::Lock(word, mode));
}

/// The lock was said to be free.
pub fn unavailable() {
    if running() {
        yield_now(0, true, Need::Progress(steps()));
    } else {
        panic!("deadlock: a lock can't be taken");
    }
}

/// Before an operation on shared memory.
pub fn point(obj: u64, write: bool) {
    if running() {
        yield_now(obj, write, Need::Nothing);
    }
}

/// Before an atomic operation. All of them are one object: what an address is
/// differs between executions.
pub fn atomic(at: *const u8, size: usize, write: bool) {
    if running() {
        yield_now(1 << 63, write, Need::Nothing);
    } else {
        ATOMICS.with(|v| {
            let mut v = v.borrow_mut();
            if !v.contains(&(at, size)) {
                v.push((at, size));
            }
        });
    }
}

/// The addresses and sizes of the atomics used since the last time outside of a
/// program's threads.
pub fn take_atomics() -> Vec<(*const u8, usize)> {
    ATOMICS.with(|v| std::mem::take(&mut *v.borrow_mut()))
}

/// Within a loop that waits for another thread.
pub fn spin() {
    if running() {
        yield_now(0, true, Need::Progress(steps()));
    }
}

fn steps() -> u64 {
    let run = RUN.with(|r| r.get());
    if run.is_null() {
        0
    } else {
        unsafe { (*run).step }
    }
}



/// The hasher of maps: always the same, and keys that differ in the last three
/// bits of their last byte are in different ones of eight shards.
#[derive(Clone, Copy, Debug, Default)]
pub struct RandomState;

impl RandomState {
    pub fn new() -> RandomState {
        RandomState
    }
}

impl std::hash::BuildHasher for RandomState {
    type Hasher = Fnv;
    fn build_hasher(&self) -> Fnv {
        Fnv(0xcbf29ce484222325)
    }
}

pub struct Fnv(u64);

impl std::hash::Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.write(&x.to_be_bytes())
    }
    fn write_u64(&mut self, x: u64) {
        self.write(&x.to_be_bytes())
    }
    fn write_usize(&mut self, x: usize) {
        self.write(&x.to_be_bytes())
    }
    fn write_isize(&mut self, x: isize) {
        self.write(&x.to_be_bytes())
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

// ------------------------------------------------------------------ exploring

/// A call, which answers something.
pub type Call<O> = Box<dyn FnOnce() -> O>;

#[derive(Clone, Debug)]
pub struct Rec<O> {
    /// The steps in which it began and ended.
    pub begin: u64,
    pub end: u64,
    /// What it answered, or its panic.
    pub out: Result<O, String>,
}

impl<O> Rec<O> {
    pub fn before<P>(&self, o: &Rec<P>) -> bool {
        self.end < o.begin
    }
}

/// Of each thread, its calls that ended.
pub type Hist<O> = Vec<Vec<Rec<O>>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Done,
    /// Threads wait for each other, or one for itself.
    Deadlock,
    /// Far too many steps: threads keep on waiting for each other.
    Endless,
}

pub struct Explored {
    pub executions: u64,
    /// Of which were given up as being the same as another.
    pub redundant: u64,
    pub steps: u64,
    pub complete: bool,
    pub preempted: u64,
}

struct Node {
    enabled: Vec<u8>,
    sleep: Vec<Step>,
    explored: Vec<Step>,
    choice: u8,
}

fn panic_text(p: Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "a panic".into()
    }
}

/// Explore all schedules of the program that `make` makes, judging each.
/// `make` returns something to judge with and the calls of each thread; both
/// have to be the same every time. Stops at the first failure.
pub fn explore<S, O: 'static, E>(
    max: u64,
    max_steps: u64,
    mut make: impl FnMut() -> (S, Vec<Vec<Call<O>>>),
    mut judge: impl FnMut(S, &Hist<O>, End, &[u8]) -> Result<(), E>,
) -> Result<Explored, E> {
    let mut ex = Explored { executions: 0, redundant: 0, steps: 0, complete: true, preempted: 0 };
    let mut path: Vec<Node> = Vec::new();
    loop {
        if ex.executions >= max {
            ex.complete = false;
            return Ok(ex);
        }
        ex.executions += 1;
        OBJS.with(|o| o.set(1));
        take_atomics();
        let (s, threads) = make();
        let n = threads.len();
        let hist: Rc<RefCell<Hist<O>>> = Rc::new(RefCell::new((0..n).map(|_| Vec::new()).collect()));
        let mut run = Box::new(Run { main: std::ptr::null_mut(), cur: None, cos: Vec::with_capacity(n), step: 0 });
        let rp: *mut Run = &mut *run;
        for (t, calls) in threads.into_iter().enumerate() {
            let stack = new_stack();
            let hist = hist.clone();
            let body: Box<dyn FnOnce()> = Box::new(move || {
                for c in calls {
                    // The begin is corrected when it turns out that it has steps.
                    let begin = Rc::new(Cell::new(0));
                    unsafe {
                        (&mut (*rp).cos)[t].fresh = true;
                    }
                    BEGIN.with(|b| b.borrow_mut()[t] = Some(begin.clone()));
                    let now = steps();
                    let out = catch_unwind(AssertUnwindSafe(c)).map_err(panic_text);
                    let end = steps();
                    let b = if begin.get() == 0 { now } else { begin.get() };
                    unsafe {
                        (&mut (*rp).cos)[t].ended = true;
                    }
                    hist.borrow_mut()[t].push(Rec { begin: b, end, out });
                }
            });
            unsafe {
                // As `sched_switch` leaves it: six registers and where to go on.
                let top = stack.add(STACK) as *mut usize;
                let sp = top.sub(9);
                for i in 0..6 {
                    *sp.add(i) = 0;
                }
                *sp.add(6) = sched_start as *const () as usize;
                run.cos.push(Co {
                    stack,
                    rsp: sp as *mut u8,
                    done: false,
                    fresh: false,
                    ended: false,
                    obj: 0,
                    write: true,
                    need: Need::Nothing,
                    body: Some(body),
                    objs: 0,
                });
            }
        }
        RUN.with(|r| r.set(rp));
        BEGIN.with(|b| {
            let mut b = b.borrow_mut();
            b.clear();
            b.resize(n, None);
        });
        // Up to the first operation of each.
        for t in 0..n {
            resume(rp, t);
        }
        let mut schedule: Vec<u8> = Vec::new();
        let mut depth = 0;
        let mut sleep: Vec<Step> = Vec::new();
        let mut redundant = false;
        let end = loop {
            let r = unsafe { &mut *rp };
            let enabled: Vec<u8> = (0..n)
                .filter(|&t| {
                    let c = &r.cos[t];
                    !c.done
                        && match c.need {
                            Need::Nothing => true,
                            Need::Lock(w, m) => free(unsafe { (*w).load(SeqCst) }, m),
                            Need::Progress(s) => r.step > s,
                        }
                })
                .map(|t| t as u8)
                .collect();
            if enabled.is_empty() {
                break if r.cos.iter().all(|c| c.done) { End::Done } else { End::Deadlock };
            }
            if r.step >= max_steps {
                break End::Endless;
            }
            let t = if redundant {
                enabled[0]
            } else if depth < path.len() {
                path[depth].choice
            } else {
                match enabled.iter().find(|t| sleep.iter().all(|s| s.thread != **t)) {
                    Some(&t) => {
                        path.push(Node { enabled: enabled.clone(), sleep: sleep.clone(), explored: vec![], choice: t });
                        t
                    }
                    None => {
                        redundant = true;
                        enabled[0]
                    }
                }
            };
            r.step += 1;
            let co = &mut r.cos[t as usize];
            let begins = co.fresh;
            if begins {
                let now = r.step;
                BEGIN.with(|b| {
                    if let Some(b) = &b.borrow()[t as usize] {
                        b.set(now)
                    }
                });
            }
            co.fresh = false;
            co.ended = false;
            let (obj, write) = (co.obj, co.write);
            schedule.push(t);
            resume(rp, t as usize);
            let ends = unsafe { (&mut (*rp).cos)[t as usize].ended };
            let step = Step { thread: t, obj, write, begins, ends };
            if !redundant {
                let node = &mut path[depth];
                debug_assert_eq!(node.choice, t);
                sleep = node.sleep.iter().chain(&node.explored).filter(|s| !s.depends(&step)).copied().collect();
                LAST.with(|l| {
                    let mut l = l.borrow_mut();
                    l.truncate(depth);
                    l.push(step);
                });
                depth += 1;
            }
        };
        ex.steps += run.step;
        RUN.with(|r| r.set(std::ptr::null_mut()));
        for c in &run.cos {
            if c.done {
                STACKS.with(|s| s.borrow_mut().push(c.stack));
            }
            // The stack of one that never ends is left alone, with all it holds.
        }
        if end != End::Done {
            // It still refers to these.
            std::mem::forget(run);
            std::mem::forget(hist.clone());
        }
        if redundant {
            ex.redundant += 1;
            drop(s);
        } else {
            ex.preempted += schedule.windows(2).any(|w| w[0] != w[1]) as u64;
            judge(s, &hist.borrow(), end, &schedule)?;
        }
        // To the next one.
        loop {
            let Some(node) = path.last_mut() else {
                return Ok(ex);
            };
            let step = LAST.with(|l| l.borrow_mut().pop().unwrap());
            node.explored.push(step);
            let next = node.enabled.iter().copied().find(|t| {
                node.sleep.iter().all(|s| s.thread != *t) && node.explored.iter().all(|s| s.thread != *t)
            });
            match next {
                Some(t) => {
                    node.choice = t;
                    break;
                }
                None => {
                    path.pop();
                }
            }
        }
    }
}

thread_local! {
    static BEGIN: RefCell<Vec<Option<Rc<Cell<u64>>>>> = RefCell::new(Vec::new());
    static LAST: RefCell<Vec<Step>> = RefCell::new(Vec::new());
}
