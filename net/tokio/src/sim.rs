//! The simulated network and the executor, both under the harness' control:
//! it decides what every operation on a socket does and which task runs when.
//! There is one per thread.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io::{ErrorKind, Result};
use std::net::{Ipv4Addr, SocketAddr};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

/// What an operation does.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Do {
    /// Go through with at most so many bytes.
    Upto(usize),
    /// Not now, but it can be tried again at once.
    Later,
    /// Not until the harness calls `unblock`.
    Block,
    Fail(ErrorKind),
    /// The operation fails, and the next may not.
    FailOnce(ErrorKind),
}

/// Decides about every operation of the code under test.
pub trait Policy {
    /// Reading when there is something to read.
    fn read(&mut self, _conn: usize, _end: usize, _there: usize, _room: usize) -> Do {
        Do::Upto(usize::MAX)
    }
    fn write(&mut self, _conn: usize, _end: usize, _len: usize) -> Do {
        Do::Upto(usize::MAX)
    }
    fn connect(&mut self, _to: SocketAddr) -> Do {
        Do::Upto(0)
    }
    fn bind(&mut self, _to: SocketAddr) -> Do {
        Do::Upto(0)
    }
}
pub struct Plain;
impl Policy for Plain {}

#[derive(Default)]
struct Pipe {
    data: VecDeque<u8>,
    /// Everything that was ever written.
    all: Vec<u8>,
    fin: bool,
    /// Nobody will read it any more.
    gone: bool,
    rerr: Option<ErrorKind>,
    werr: Option<ErrorKind>,
    rwake: Option<Waker>,
    wwake: Option<Waker>,
    /// Calls made to it since `take_ops`.
    reads: u64,
    writes: u64,
}

impl Pipe {
    fn wake_reader(&mut self) {
        if let Some(w) = self.rwake.take() {
            w.wake()
        }
    }
    fn wake_writer(&mut self) {
        if let Some(w) = self.wwake.take() {
            w.wake()
        }
    }
}

#[derive(Default)]
struct Conn {
    /// From the opener, and to it.
    pipes: [Pipe; 2],
    no_addr: bool,
    closed: [bool; 2],
    accepted: bool,
}

enum Incoming {
    Conn(usize),
    Err(std::io::Error),
}

/// An error of the kind as the system gives it.
fn failure(k: ErrorKind) -> std::io::Error {
    let os = match k {
        ErrorKind::PermissionDenied => 13,
        ErrorKind::Interrupted => 4,
        ErrorKind::WouldBlock => 11,
        ErrorKind::OutOfMemory => 12,
        ErrorKind::InvalidInput => 22,
        ErrorKind::BrokenPipe => 32,
        ErrorKind::AddrInUse => 98,
        ErrorKind::AddrNotAvailable => 99,
        ErrorKind::ConnectionAborted => 103,
        ErrorKind::ConnectionReset => 104,
        ErrorKind::NotConnected => 107,
        ErrorKind::TimedOut => 110,
        ErrorKind::ConnectionRefused => 111,
        _ => return k.into(),
    };
    let e = std::io::Error::from_raw_os_error(os);
    assert_eq!(e.kind(), k);
    e
}

struct World {
    no: u64,
    policy: Rc<RefCell<dyn Policy>>,
    conns: Vec<Conn>,
    backlog: VecDeque<Incoming>,
    bound: Vec<SocketAddr>,
    listening: bool,
    accept_waker: Option<Waker>,
    connect_waker: Option<Waker>,
    connects: Vec<SocketAddr>,
    /// The connection that is the standard input and output, and what was
    /// printed but not flushed.
    stdio: Option<usize>,
    held: Vec<u8>,
    panics: Vec<String>,
    accepts: u64,
    /// The task that runs, and which connections each has used.
    now: usize,
    touched: Vec<(usize, usize)>,
}

impl World {
    fn touch(&mut self, c: usize) {
        let x = (self.now, c);
        if !self.touched.contains(&x) {
            self.touched.push(x)
        }
    }
}

thread_local! {
    static WORLD: RefCell<World> = RefCell::new(new_world(0, Rc::new(RefCell::new(Plain))));
    static TASKS: RefCell<Vec<Task>> = const { RefCell::new(vec![]) };
    static DRIVER: RefCell<Option<*mut (dyn FnMut(&[usize]) -> Step + 'static)>> = const { RefCell::new(None) };
}

fn new_world(no: u64, policy: Rc<RefCell<dyn Policy>>) -> World {
    World {
        no,
        policy,
        conns: vec![],
        backlog: VecDeque::new(),
        bound: vec![],
        listening: false,
        accept_waker: None,
        connect_waker: None,
        connects: vec![],
        stdio: None,
        held: vec![],
        panics: vec![],
        accepts: 0,
        now: usize::MAX,
        touched: vec![],
    }
}

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}

/// Start anew.
pub fn reset(policy: Rc<RefCell<dyn Policy>>) {
    let old = with(|w| {
        let no = w.no + 1;
        std::mem::replace(w, new_world(no, policy))
    });
    drop(old);
    let t = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    drop(t);
}

pub(crate) fn world() -> u64 {
    with(|w| w.no)
}

fn policy() -> Rc<RefCell<dyn Policy>> {
    with(|w| w.policy.clone())
}

// --------------------------------------------------- what the code under test does

pub(crate) fn bind(a: SocketAddr) -> Result<()> {
    with(|w| w.bound.push(a));
    let d = policy().borrow_mut().bind(a);
    match d {
        Do::Fail(k) | Do::FailOnce(k) => Err(failure(k)),
        _ => {
            with(|w| w.listening = true);
            Ok(())
        }
    }
}

pub(crate) fn unbind(no: u64) {
    with(|w| {
        if w.no == no {
            w.listening = false
        }
    })
}

pub(crate) fn poll_accept(cx: &mut Context<'_>) -> Poll<Result<usize>> {
    with(|w| match w.backlog.pop_front() {
        None => {
            w.accept_waker = Some(cx.waker().clone());
            Poll::Pending
        }
        Some(Incoming::Conn(c)) => {
            w.accepts += 1;
            w.conns[c].accepted = true;
            Poll::Ready(Ok(c))
        }
        Some(Incoming::Err(k)) => {
            w.accepts += 1;
            Poll::Ready(Err(k))
        }
    })
}

pub(crate) fn poll_connect(cx: &mut Context<'_>, a: SocketAddr) -> Poll<Result<usize>> {
    let d = policy().borrow_mut().connect(a);
    match d {
        Do::Fail(k) | Do::FailOnce(k) => {
            with(|w| w.connects.push(a));
            Poll::Ready(Err(failure(k)))
        }
        Do::Later => {
            cx.waker().wake_by_ref();
            Poll::Pending
        }
        Do::Block => {
            with(|w| w.connect_waker = Some(cx.waker().clone()));
            Poll::Pending
        }
        Do::Upto(_) => {
            with(|w| w.connects.push(a));
            Poll::Ready(Ok(open()))
        }
    }
}

pub(crate) fn addr(c: usize) -> SocketAddr {
    SocketAddr::new(Ipv4Addr::LOCALHOST.into(), 1024 + (c % 60000) as u16)
}

pub(crate) fn peer_addr(c: usize) -> Result<SocketAddr> {
    if with(|w| w.conns[c].no_addr) {
        return Err(ErrorKind::NotConnected.into());
    }
    Ok(addr(c))
}

fn read(cx: &mut Context<'_>, c: usize, end: usize, buf: &mut [u8], take: bool) -> Poll<Result<usize>> {
    let there = with(|w| {
        w.touch(c);
        let p = &mut w.conns[c].pipes[1 - end];
        p.reads += 1;
        if let Some(k) = p.rerr {
            return Err(Poll::Ready(Err(failure(k))));
        }
        if buf.is_empty() {
            return Err(Poll::Ready(Ok(0)));
        }
        if p.data.is_empty() {
            if p.fin || p.gone {
                return Err(Poll::Ready(Ok(0)));
            }
            p.rwake = Some(cx.waker().clone());
            return Err(Poll::Pending);
        }
        Ok(p.data.len())
    });
    let there = match there {
        Ok(n) => n,
        Err(r) => return r,
    };
    let d = policy().borrow_mut().read(c, end, there, buf.len());
    match d {
        Do::Fail(k) => {
            with(|w| w.conns[c].pipes[1 - end].rerr = Some(k));
            Poll::Ready(Err(failure(k)))
        }
        Do::FailOnce(k) => Poll::Ready(Err(failure(k))),
        Do::Later => {
            cx.waker().wake_by_ref();
            Poll::Pending
        }
        Do::Block => {
            with(|w| w.conns[c].pipes[1 - end].rwake = Some(cx.waker().clone()));
            Poll::Pending
        }
        Do::Upto(n) => {
            let n = n.max(1).min(there).min(buf.len());
            with(|w| {
                let p = &mut w.conns[c].pipes[1 - end];
                for (i, b) in buf[..n].iter_mut().enumerate() {
                    *b = p.data[i];
                }
                if take {
                    p.data.drain(..n);
                }
            });
            Poll::Ready(Ok(n))
        }
    }
}

pub(crate) fn poll_read(cx: &mut Context<'_>, c: usize, end: usize, buf: &mut [u8]) -> Poll<Result<usize>> {
    read(cx, c, end, buf, true)
}

pub(crate) fn poll_peek(cx: &mut Context<'_>, c: usize, end: usize, buf: &mut [u8]) -> Poll<Result<usize>> {
    read(cx, c, end, buf, false)
}

pub(crate) fn poll_write(cx: &mut Context<'_>, c: usize, end: usize, buf: &[u8]) -> Poll<Result<usize>> {
    let bad = with(|w| {
        w.touch(c);
        let p = &mut w.conns[c].pipes[end];
        p.writes += 1;
        if let Some(k) = p.werr {
            return Some(k);
        }
        if p.fin || p.gone {
            return Some(ErrorKind::BrokenPipe);
        }
        None
    });
    if let Some(k) = bad {
        return Poll::Ready(Err(failure(k)));
    }
    if buf.is_empty() {
        return Poll::Ready(Ok(0));
    }
    let d = policy().borrow_mut().write(c, end, buf.len());
    match d {
        Do::Fail(k) => {
            with(|w| w.conns[c].pipes[end].werr = Some(k));
            Poll::Ready(Err(failure(k)))
        }
        Do::FailOnce(k) => Poll::Ready(Err(failure(k))),
        Do::Later => {
            cx.waker().wake_by_ref();
            Poll::Pending
        }
        Do::Block => {
            with(|w| w.conns[c].pipes[end].wwake = Some(cx.waker().clone()));
            Poll::Pending
        }
        Do::Upto(n) => {
            let n = n.max(1).min(buf.len());
            with(|w| {
                let p = &mut w.conns[c].pipes[end];
                p.data.extend(&buf[..n]);
                p.all.extend(&buf[..n]);
                p.wake_reader();
            });
            Poll::Ready(Ok(n))
        }
    }
}

pub(crate) fn shut(no: u64, c: usize, end: usize) {
    with(|w| {
        if w.no == no {
            let p = &mut w.conns[c].pipes[end];
            p.fin = true;
            p.wake_reader();
        }
    })
}

pub(crate) fn shut_read(no: u64, c: usize, end: usize) {
    with(|w| {
        if w.no == no {
            let p = &mut w.conns[c].pipes[1 - end];
            p.gone = true;
            p.wake_reader();
        }
    })
}

pub(crate) fn close(no: u64, c: usize, end: usize) {
    with(|w| {
        if w.no != no {
            return;
        }
        w.conns[c].closed[end] = true;
        let p = &mut w.conns[c].pipes[end];
        p.fin = true;
        p.wake_reader();
        let p = &mut w.conns[c].pipes[1 - end];
        p.gone = true;
        p.wake_writer();
    })
}

/// Write to the standard output, which holds back what follows the last end of
/// a line until it's flushed.
pub(crate) fn poll_print(cx: &mut Context<'_>, c: usize, buf: &[u8]) -> Poll<Result<usize>> {
    let r = poll_write(cx, c, 1, buf);
    if let Poll::Ready(Ok(n)) = r {
        with(|w| {
            let all = &mut w.conns[c].pipes[1].all;
            let at = all.len() - n;
            w.held.extend(all.drain(at..));
            if let Some(i) = w.held.iter().rposition(|b| *b == b'\n') {
                all.extend(w.held.drain(..=i));
            }
        })
    }
    r
}

pub(crate) fn poll_flush(_: &mut Context<'_>, c: usize) -> Poll<Result<()>> {
    with(|w| {
        if let Some(k) = w.conns[c].pipes[1].werr {
            return Poll::Ready(Err(failure(k)));
        }
        let h = std::mem::take(&mut w.held);
        w.conns[c].pipes[1].all.extend(h);
        Poll::Ready(Ok(()))
    })
}

/// The standard input and output.
pub(crate) fn stdio() -> usize {
    with(|w| {
        if w.stdio.is_none() {
            w.conns.push(Conn { accepted: true, ..Default::default() });
            w.stdio = Some(w.conns.len() - 1);
        }
        w.stdio.unwrap()
    })
}

// ------------------------------------------------------------- what the harness does

/// The standard input and output, which the harness is the end 0 of.
pub fn terminal() -> usize {
    stdio()
}

/// A connection to whom is listening.
pub fn open() -> usize {
    with(|w| {
        w.conns.push(Conn::default());
        let c = w.conns.len() - 1;
        w.backlog.push_back(Incoming::Conn(c));
        if let Some(k) = w.accept_waker.take() {
            k.wake()
        }
        c
    })
}

/// Let an accept fail.
pub fn accept_error(k: ErrorKind) {
    refuse(failure(k))
}

/// Let an accept fail with an error number of the system's.
pub fn accept_os_error(n: i32) {
    refuse(std::io::Error::from_raw_os_error(n))
}

fn refuse(e: std::io::Error) {
    with(|w| {
        w.backlog.push_back(Incoming::Err(e));
        if let Some(k) = w.accept_waker.take() {
            k.wake()
        }
    })
}

/// Let the address of a connection's peer be unknown.
pub fn no_addr(c: usize) {
    with(|w| w.conns[c].no_addr = true)
}

/// Write as an end.
pub fn push(c: usize, end: usize, b: &[u8]) {
    with(|w| {
        let p = &mut w.conns[c].pipes[end];
        p.data.extend(b);
        p.all.extend(b);
        p.wake_reader();
    })
}

/// End writing as an end.
pub fn fin(c: usize, end: usize) {
    with(|w| {
        let p = &mut w.conns[c].pipes[end];
        p.fin = true;
        p.wake_reader();
    })
}

/// Close an end.
pub fn hang_up(c: usize, end: usize) {
    let no = world();
    close(no, c, end)
}

/// Let what an end does fail from now on: the connection is lost.
pub fn fail(c: usize, end: usize, reads: Option<ErrorKind>, writes: Option<ErrorKind>) {
    with(|w| {
        let p = &mut w.conns[c].pipes[1 - end];
        if reads.is_some() {
            p.rerr = reads;
            p.wake_reader();
        }
        let p = &mut w.conns[c].pipes[end];
        if writes.is_some() {
            p.werr = writes;
            p.wake_writer();
        }
    })
}

/// Take what an end wrote since the last time.
pub fn take(c: usize, end: usize) -> Vec<u8> {
    with(|w| w.conns[c].pipes[end].data.drain(..).collect())
}

/// All that an end ever wrote.
pub fn sent(c: usize, end: usize) -> Vec<u8> {
    with(|w| w.conns[c].pipes[end].all.clone())
}

/// What an end has written since so many bytes.
pub fn sent_since(c: usize, end: usize, at: usize) -> Vec<u8> {
    with(|w| w.conns[c].pipes[end].all[at..].to_vec())
}

/// How much of what an end wrote has not been read.
pub fn unread(c: usize, end: usize) -> usize {
    with(|w| w.conns[c].pipes[end].data.len())
}

/// Whether an end has been closed, or doesn't write any more.
pub fn closed(c: usize, end: usize) -> bool {
    with(|w| w.conns[c].closed[end])
}
pub fn finished(c: usize, end: usize) -> bool {
    with(|w| w.conns[c].pipes[end].fin)
}
pub fn accepted(c: usize) -> bool {
    with(|w| w.conns[c].accepted)
}

/// Let what was blocked be tried again.
pub fn unblock() {
    with(|w| {
        for c in &mut w.conns {
            for p in &mut c.pipes {
                if p.data.is_empty() && !p.fin && p.rerr.is_none() {
                    // It waits for data.
                } else {
                    p.wake_reader();
                }
                p.wake_writer();
            }
        }
        if let Some(k) = w.connect_waker.take() {
            k.wake()
        }
    })
}

pub fn bound() -> Vec<SocketAddr> {
    with(|w| w.bound.clone())
}
pub fn listening() -> bool {
    with(|w| w.listening)
}
pub fn connects() -> Vec<SocketAddr> {
    with(|w| w.connects.clone())
}
pub fn conns() -> usize {
    with(|w| w.conns.len())
}
/// The connections a task has used so far.
pub fn touched(task: usize) -> Vec<usize> {
    with(|w| w.touched.iter().filter(|x| x.0 == task).map(|x| x.1).collect())
}
/// Connections that were accepted but not used by any task.
pub fn untouched() -> Vec<usize> {
    with(|w| (0..w.conns.len()).filter(|c| w.conns[*c].accepted && !w.touched.iter().any(|x| x.1 == *c)).collect())
}
/// Panics of spawned tasks, each of which ends its task only.
pub fn panics() -> Vec<String> {
    with(|w| w.panics.clone())
}

// -------------------------------------------------------------------- the executor

/// Set when it was woken.
pub struct Flag(AtomicBool);
impl Flag {
    pub fn new() -> Arc<Flag> {
        Arc::new(Flag(AtomicBool::new(true)))
    }
    pub fn is_set(&self) -> bool {
        self.0.load(SeqCst)
    }
    pub fn clear(&self) {
        self.0.store(false, SeqCst)
    }
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}

struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    flag: Arc<Flag>,
    done: bool,
}

pub(crate) fn spawn(f: Pin<Box<dyn Future<Output = ()>>>) {
    TASKS.with(|t| t.borrow_mut().push(Task { fut: Some(f), flag: Flag::new(), done: false }))
}

pub enum Step {
    /// Run a task.
    Run(usize),
    /// The harness did something: go on.
    Acted,
    /// End the program here.
    Stop,
}

struct Stopped;

/// Run something that runs tasks: `drive` is asked for each step, given the
/// tasks that can run. Gives what it gave, or nothing if `drive` stopped it.
pub fn drive<R>(drive: &mut dyn FnMut(&[usize]) -> Step, f: impl FnOnce() -> R) -> Option<R> {
    let p: *mut (dyn FnMut(&[usize]) -> Step + '_) = drive;
    let p: *mut (dyn FnMut(&[usize]) -> Step + 'static) = unsafe { std::mem::transmute(p) };
    DRIVER.with(|d| *d.borrow_mut() = Some(p));
    let r = catch_unwind(AssertUnwindSafe(f));
    DRIVER.with(|d| *d.borrow_mut() = None);
    let t = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    drop(t);
    match r {
        Ok(x) => Some(x),
        Err(e) if e.is::<Stopped>() => None,
        Err(e) => resume_unwind(e),
    }
}

/// Run a future and the tasks it spawns.
pub fn run<F: Future>(f: F) -> F::Output {
    let p = DRIVER.with(|d| *d.borrow()).expect("no simulation is running");
    let mut f = Box::pin(f);
    let main = Flag::new();
    // Task 0 is the future itself.
    let first = TASKS.with(|t| {
        let mut t = t.borrow_mut();
        t.push(Task { fut: None, flag: main.clone(), done: false });
        t.len() - 1
    });
    loop {
        let ready: Vec<usize> = TASKS.with(|t| t.borrow().iter().enumerate().filter(|(_, t)| !t.done && t.flag.is_set()).map(|(i, _)| i).collect());
        let step = unsafe { (*p)(&ready) };
        with(|w| w.now = if let Step::Run(i) = step { i - first } else { usize::MAX });
        match step {
            Step::Acted => {}
            Step::Stop => {
                drop(f);
                resume_unwind(Box::new(Stopped))
            }
            Step::Run(i) if i == first => {
                main.clear();
                let w = Waker::from(main.clone());
                if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                    TASKS.with(|t| t.borrow_mut()[first].done = true);
                    return x;
                }
            }
            Step::Run(i) => {
                let (mut fut, flag) = TASKS.with(|t| {
                    let t = &mut t.borrow_mut()[i];
                    (t.fut.take().expect("the task is there"), t.flag.clone())
                });
                flag.clear();
                let w = Waker::from(flag);
                let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut Context::from_waker(&w)).is_ready()));
                let done = match r {
                    Ok(done) => done,
                    Err(e) => {
                        let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        with(|w| w.panics.push(s));
                        true
                    }
                };
                if done {
                    let _ = catch_unwind(AssertUnwindSafe(|| drop(fut)));
                    TASKS.with(|t| t.borrow_mut()[i].done = true);
                } else {
                    TASKS.with(|t| t.borrow_mut()[i].fut = Some(fut));
                }
            }
        }
    }
}

/// How a program's `main` ended.
pub trait Ended {
    fn ended(self) -> std::result::Result<(), String>;
}
impl Ended for () {
    fn ended(self) -> std::result::Result<(), String> {
        Ok(())
    }
}
impl<E: std::fmt::Debug> Ended for std::result::Result<(), E> {
    fn ended(self) -> std::result::Result<(), String> {
        self.map_err(|e| format!("{:?}", e))
    }
}
impl Ended for std::process::ExitCode {
    fn ended(self) -> std::result::Result<(), String> {
        let s = format!("{:?}", self);
        if s == format!("{:?}", std::process::ExitCode::SUCCESS) {
            Ok(())
        } else {
            Err(s)
        }
    }
}

