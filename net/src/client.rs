//! C18 and C21: the networked client against a peer under the harness' control.
use crate::calls::*;
use crate::choices::*;
use crate::eng::*;
use hop::backend::server::{Error, ServerBackend};
use hop::Client;
use mc::wire::*;
use mc::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::io::ErrorKind::{self, *};
use std::net::SocketAddr;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tokio::sim::{self, Do, Flag, Policy};

const ADDR: &str = "127.0.0.1:46732";

fn named(what: &'static str, k: ErrorKind) -> &'static str {
    thread_local!(static NAMES: RefCell<HashMap<(&'static str, ErrorKind), &'static str>> = Default::default());
    NAMES.with(|n| *n.borrow_mut().entry((what, k)).or_insert_with(|| Box::leak(format!("{} {:?}", what, k).into_boxed_str())))
}

impl Norm for Error {
    fn norm(self) -> CErr {
        match self {
            Error::BadRequest { reason } => CErr::BadRequest(perr_num(reason)),
            Error::BadResponse => CErr::Conn("bad"),
            Error::BuildingRequest { source } => CErr::Build(build_num(&source)),
            Error::Connecting { source } => CErr::Conn(named("connecting", source.kind())),
            Error::ConnectionClosed => CErr::Conn("closed"),
            Error::Dispatching { reason } => CErr::Run(err_num(reason)),
            Error::KeyTypeInvalid { .. } => CErr::TypeInvalid,
            Error::KeyTypeUnsupported { key_type } => CErr::TypeUnsupported(kt_num(key_type)),
            Error::ReadingMessage { source } => CErr::Conn(named("reading", source.kind())),
            Error::WritingMessage { source } => CErr::Conn(named("writing", source.kind())),
        }
    }
}

pub type Out = Result<MVal, CErr>;
type Fut = Pin<Box<dyn Future<Output = Out>>>;

/// A future and its waker.
pub struct Actor {
    fut: Option<Fut>,
    flag: Arc<Flag>,
    pub started: bool,
    pub out: Option<Out>,
}

impl Actor {
    pub fn new(f: impl Future<Output = Out> + 'static) -> Actor {
        Actor { fut: Some(Box::pin(f)), flag: Flag::new(), started: false, out: None }
    }
    pub fn runs(&self) -> bool {
        self.fut.is_some()
    }
    /// Whether polling it would make sense.
    pub fn ready(&self) -> bool {
        self.runs() && self.flag.is_set()
    }
    pub fn poll(&mut self) -> Result<(), String> {
        // A waker of its own each time: only the last one counts.
        self.flag = Flag::new();
        self.flag.clear();
        self.started = true;
        let w = Waker::from(self.flag.clone());
        let f = self.fut.as_mut().expect("it runs");
        if let Poll::Ready(r) = guarded(|| f.as_mut().poll(&mut Context::from_waker(&w)))? {
            self.fut = None;
            self.out = Some(r);
        }
        Ok(())
    }
    pub fn cancel(&mut self) -> Result<(), String> {
        let f = self.fut.take();
        guarded(|| drop(f))
    }
    /// Run it to its end. `idle` acts when it waits, or says there's nothing to do.
    pub fn finish(&mut self, mut idle: impl FnMut() -> Result<bool, Fail>) -> Result<Out, Fail> {
        let mut n = 0;
        while self.runs() {
            n += 1;
            ensure!(n < 200_000, "the call never completes");
            if self.ready() {
                self.poll()?;
            } else if !idle()? {
                return Err("the call waits forever".into());
            }
        }
        Ok(self.out.clone().unwrap())
    }
}

/// A client of either kind on the connection.
#[derive(Clone)]
pub enum On {
    Client(Arc<Client<ServerBackend>>),
    Backend(Arc<ServerBackend>),
}

impl On {
    pub fn start(&self, c: &Call) -> Actor {
        let (s, c) = (self.clone(), c.clone());
        Actor::new(async move {
            match s {
                On::Client(x) => on_client(&*x, &c).await,
                On::Backend(x) => on_backend(&x, &c).await,
            }
        })
    }
}

/// Connect; `backend` says whether the backend itself is used.
pub fn connect(backend: bool) -> Result<Result<On, CErr>, Fail> {
    let out: Rc<RefCell<Option<Result<On, CErr>>>> = Rc::default();
    let o = out.clone();
    let mut a = Actor::new(async move {
        let r = if backend {
            ServerBackend::connect(ADDR).await.map(|b| On::Backend(Arc::new(b)))
        } else {
            Client::connect(ADDR).await.map(|c| On::Client(Arc::new(c)))
        };
        *o.borrow_mut() = Some(r.map_err(|e| e.norm()));
        Ok(MVal::Int(0))
    });
    a.finish(|| Ok(false))?;
    let r = out.borrow_mut().take().unwrap();
    let want: SocketAddr = ADDR.parse().unwrap();
    ensure!(sim::connects().iter().all(|a| *a == want), "connected to {:?}", sim::connects());
    Ok(r)
}

pub fn connected(backend: bool) -> Result<On, Fail> {
    connect(backend)?.map_err(|e| Fail::from(format!("connecting failed: {:?}", e)))
}


fn backend_only(c: &Call) -> bool {
    c.backend_only()
}

/// The peer: it answers requests in order, as the model does.
struct Peer {
    m: MState,
    /// How much of what was sent has been taken.
    at: usize,
    /// The requests answered and what the answers mean to the call that made them.
    done: Vec<(Vec<u8>, Out)>,
}

/// The bytes that tell a request from others: the items of maps and sets come
/// in any order.
fn id(c: &Cmd) -> Vec<u8> {
    let mut c = c.clone();
    if c.op == Op::Set && c.args.len() > 1 {
        let n = if c.ty == Some(T_MAP) { 2 } else { 1 };
        if matches!(c.ty, Some(T_MAP) | Some(T_SET)) {
            let mut l: Vec<Vec<Vec<u8>>> = c.args[1..].chunks(n).map(|x| x.to_vec()).collect();
            l.sort();
            c.args.truncate(1);
            c.args.extend(l.concat());
        }
    }
    enc_req(&c)
}

fn stats_map(m: &MState) -> MVal {
    let n = [("commands_successful", m.ok), ("commands_errored", m.err), ("sessions_started", m.started), ("sessions_ended", m.ended)];
    MVal::Map(n.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.to_be_bytes().to_vec())).collect())
}

impl Peer {
    fn new(setup: &[Cmd]) -> Peer {
        let mut m = MState::default();
        for c in setup {
            m.apply(c).expect("a valid setup");
        }
        Peer { m, at: 0, done: vec![] }
    }
    /// The bytes of the next request's answer, if one is complete.
    fn next(&mut self, calls: &[Call]) -> Result<Option<Vec<u8>>, Fail> {
        let b = sim::sent_since(0, 0, self.at);
        let b = &b[..];
        match parse_req(b) {
            ReqParse::More => Ok(None),
            ReqParse::Bad(e) => Err(Fail::from(format!("the client sent {}, which is no request (error {})", show(b), e))),
            ReqParse::Done(c, n) => {
                let bytes = id(&c);
                let Some(call) = calls.iter().find(|x| x.cmd().is_ok_and(|x| id(&x) == bytes)) else {
                    return Err(Fail::from(format!("the client sent a request that no call makes: {}", c.show())));
                };
                self.at += n;
                let mut m = self.m.clone();
                let r = if c.op == Op::Stats { Ok(stats_map(&m)) } else { m.apply(&c) };
                let out = call.expect(&mut self.m);
                self.done.push((bytes, out));
                Ok(Some(enc_resp(&match r {
                    Ok(v) => MResp::Val(v),
                    Err(e) => MResp::Dispatch(e),
                })))
            }
        }
    }
    /// The same for whatever the client sends.
    fn whatever(&mut self, calls: &[Call]) -> Option<Vec<u8>> {
        let sent = sim::sent(0, 0);
        match parse_req(&sent[self.at..]) {
            ReqParse::More => None,
            ReqParse::Bad(e) => {
                self.at = sent.len();
                Some(enc_resp(&MResp::Parse(e)))
            }
            ReqParse::Done(c, n) => {
                if let Ok(b) = self.next(calls) {
                    return b;
                }
                self.at += n;
                Some(enc_resp(&match self.m.apply(&c) {
                    Ok(v) => MResp::Val(v),
                    Err(e) => MResp::Dispatch(e),
                }))
            }
        }
    }
    fn rest(&self) -> usize {
        sim::sent(0, 0).len() - self.at
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    /// The peer ends the stream.
    Fin,
    /// The peer closes its end.
    HangUp,
    /// Reads and writes fail.
    Reset(ErrorKind),
    /// Writes fail.
    Deaf(ErrorKind),
    /// Reads fail.
    Mute(ErrorKind),
}

impl Fault {
    fn act(self) {
        match self {
            Fault::Fin => sim::fin(0, 1),
            Fault::HangUp => sim::hang_up(0, 1),
            Fault::Reset(k) => sim::fail(0, 0, Some(k), Some(k)),
            Fault::Deaf(k) => {
                // Nothing is answered any more, as nothing arrives.
                sim::fail(0, 0, None, Some(k));
                sim::fin(0, 1);
            }
            Fault::Mute(k) => sim::fail(0, 0, Some(k), None),
        }
    }
    /// Whether it's an error the fault can cause.
    fn causes(self, e: &CErr) -> bool {
        let CErr::Conn(e) = e else { return false };
        if *e == "closed" {
            return true;
        }
        match self {
            Fault::Fin => false,
            Fault::HangUp => *e == named("writing", BrokenPipe),
            Fault::Reset(k) => *e == named("reading", k) || *e == named("writing", k),
            Fault::Deaf(k) => *e == named("writing", k),
            Fault::Mute(k) => *e == named("reading", k),
        }
    }
}

#[derive(Clone, Copy)]
struct Cfg {
    cancels: usize,
    /// Writes that are short or delayed.
    writes: usize,
    /// Answers of which only a byte arrives at first.
    splits: usize,
    /// Polls without having been woken.
    spurious: usize,
    fault: Option<Fault>,
}

#[derive(Clone, Copy)]
enum Act {
    Poll(usize),
    Deliver(bool),
    Fault,
    // What follows isn't needed for the calls to complete.
    Cancel(usize),
    Spurious(usize),
}

/// All interleavings of the calls on one client.
fn race(calls: &[Call], setup: &[Cmd], cfg: Cfg, max: u64, st: &mut Stats) -> Res {
    let backend = calls.iter().any(backend_only);
    let last = Call::Echo(b"the last".to_vec());
    let mut all = calls.to_vec();
    all.push(last.clone());
    let mut states = std::collections::HashSet::new();
    let (mut trans, mut outcomes) = (0u64, std::collections::HashSet::new());
    let r = explore(st, max, |ch, _| {
        fresh(Writes { ch: ch.clone(), left: cfg.writes });
        let on = connected(backend)?;
        let mut peer = Peer::new(setup);
        let mut actors: Vec<Actor> = calls.iter().map(|c| on.start(c)).collect();
        let mut queue: Vec<u8> = vec![];
        let (mut cancels, mut splits, mut spurious, mut fault) = (cfg.cancels, cfg.splits, cfg.spurious, cfg.fault);
        let mut broken: Option<&str> = None;
        let mut log: Vec<String> = vec![];
        let mut used: Vec<bool> = vec![];
        let mut dropped = 0;
        let r: Res = (|| loop {
            trans += 1;
            if queue.is_empty() && (fault.is_some() || cfg.fault.is_none()) {
                if let Some(b) = peer.next(&all)? {
                    queue = b;
                }
            }
            let mut acts = vec![];
            for (i, a) in actors.iter().enumerate() {
                if a.ready() {
                    acts.push(Act::Poll(i));
                }
            }
            let gone = cfg.fault.is_some() && fault.is_none();
            if !queue.is_empty() && !gone {
                acts.push(Act::Deliver(false));
                if splits > 0 && queue.len() > 1 {
                    acts.push(Act::Deliver(true));
                }
            }
            if acts.is_empty() && fault.is_none() {
                // What has to happen has.
                for (i, a) in actors.iter().enumerate() {
                    ensure!(!a.runs(), "`{}` waits forever", calls[i].show());
                }
                break Ok(());
            }
            if fault.is_some() {
                acts.push(Act::Fault);
            }
            for (i, a) in actors.iter().enumerate() {
                if a.started && a.runs() {
                    if cancels > 0 {
                        acts.push(Act::Cancel(i));
                    }
                    if spurious > 0 && !a.ready() {
                        acts.push(Act::Spurious(i));
                    }
                }
            }
            let act = acts[ch.borrow_mut().pick(acts.len())];
            let polled = match act {
                Act::Poll(i) => {
                    log.push(format!("poll {}", i));
                    Some(i)
                }
                Act::Spurious(i) => {
                    log.push(format!("poll {} without need", i));
                    spurious -= 1;
                    Some(i)
                }
                Act::Deliver(one) => {
                    if one {
                        splits -= 1;
                        log.push("a byte arrives".into());
                        sim::push(0, 1, &queue[..1]);
                        queue.remove(0);
                    } else {
                        log.push("the answer arrives".into());
                        sim::push(0, 1, &queue);
                        queue.clear();
                    }
                    None
                }
                Act::Fault => {
                    let f = fault.take().unwrap();
                    log.push(format!("{:?}", f));
                    f.act();
                    broken = Some("fault");
                    None
                }
                Act::Cancel(i) => {
                    log.push(format!("cancel {}", i));
                    cancels -= 1;
                    dropped += 1;
                    broken = broken.or(Some("cancel"));
                    actors[i].cancel()?;
                    None
                }
            };
            let Some(i) = polled else { continue };
            actors[i].poll()?;
            if let Some(out) = actors[i].out.take() {
                log.push(format!("{} gives {}", i, show_out(&out)));
                outcomes.insert(h64(show_out(&out).as_bytes()));
                judge(&calls[i], &out, &peer, &mut used, cfg.fault.filter(|_| fault.is_none()), dropped)?;
            }
        })();
        let told = |f: Fail| Fail { key: f.key, msg: format!("{} ({})", f.msg, log.join(", ")) };
        r.map_err(told)?;
        // The requests are whole, but for an abandoned one.
        ensure!(peer.rest() == 0 || broken.is_some(), "{} bytes of a request were never completed ({})", peer.rest(), log.join(", "));
        for (i, c) in calls.iter().enumerate() {
            if let Ok(cmd) = c.cmd() {
                let b = id(&cmd);
                let n = peer.done.iter().filter(|d| d.0 == b).count();
                let most = calls.iter().filter(|c| c.cmd().is_ok_and(|c| id(&c) == b)).count();
                ensure!(n <= most, "`{}` was sent {} times ({})", calls[i].show(), n, log.join(", "));
            }
        }
        let mut h = vec![];
        for a in &peer.done {
            h.extend(&a.0);
        }
        h.extend(peer.m.canon());
        states.insert(h64(&h));
        // A call afterwards.
        let mut a = on.start(&last);
        let gone = cfg.fault.is_some();
        if !gone {
            sim::push(0, 1, &queue);
        }
        let out = a
            .finish(|| {
                if gone {
                    return Ok(false);
                }
                match peer.next(&all)? {
                    Some(b) => {
                        sim::push(0, 1, &b);
                        Ok(true)
                    }
                    None => Ok(false),
                }
            })
            .map_err(|f| Fail { key: f.key, msg: format!("a call afterwards: {} ({})", f.msg, log.join(", ")) })?;
        judge(&last, &out, &peer, &mut used, cfg.fault, dropped)
            .map_err(|f| Fail { key: f.key, msg: format!("afterwards {} ({})", f.msg, log.join(", ")) })?;
        Ok(())
    });
    st.transitions += trans;
    for s in states {
        st.state(s);
    }
    st.outcomes.extend(outcomes);
    r
}

/// Call after call on one connection: each gets its own answer.
fn call_after_call(calls: &[Call], n: usize, piece: usize, st: &mut Stats) -> Res {
    struct Pieces(usize);
    impl Policy for Pieces {
        fn read(&mut self, _: usize, _: usize, there: usize, room: usize) -> Do {
            Do::Upto(there.min(room).min(self.0))
        }
    }
    fresh(Pieces(piece));
    let on = connected(calls.iter().any(backend_only))?;
    let mut peer = Peer::new(&setup());
    for i in 0..n {
        let c = &calls[i % calls.len()];
        let one = [c.clone()];
        let mut a = on.start(c);
        let out = a
            .finish(|| match peer.next(&one)? {
                Some(b) => {
                    sim::push(0, 1, &b);
                    Ok(true)
                }
                None => Ok(false),
            })
            .map_err(|f| Fail { key: f.key, msg: format!("call {}: {}", i + 1, f.msg) })?;
        st.transitions += 1;
        let want = match c.cmd() {
            Ok(_) => {
                ensure!(peer.done.len() == 1, "call {}, `{}`, sent {} requests", i + 1, c.show(), peer.done.len());
                peer.done.pop().unwrap().1
            }
            Err(e) => Err(e),
        };
        ensure!(c.agrees(&want, &out), "call {}, `{}`, gave {}, expected {}", i + 1, c.show(), show_out(&out), show_out(&want));
    }
    ensure!(peer.rest() == 0, "{} bytes too many were sent", peer.rest());
    st.state(h64(&peer.m.canon()));
    Ok(())
}

/// Many calls on one client at a time, of which those in some places are given
/// up while they wait: each of the others gets its own answer.
fn at_a_time(n: usize, backwards: bool, gone: impl Fn(usize) -> bool, late: bool, st: &mut Stats) -> Res {
    fresh(sim::Plain);
    let on = connected(false)?;
    let mut peer = Peer::new(&setup());
    let calls: Vec<Call> = (0..n).map(|i| if i % 3 == 2 { Call::Inc(false, k("i"), None, None) } else { Call::Echo(format!("call {}", i).into_bytes()) }).collect();
    let mut actors: Vec<Actor> = calls.iter().map(|c| on.start(c)).collect();
    let order: Vec<usize> = if backwards { (0..n).rev().collect() } else { (0..n).collect() };
    let mut left = vec![true; n];
    for &i in &order {
        actors[i].poll()?;
    }
    let mut begun = false;
    for i in 0..n {
        if gone(i) && actors[i].runs() {
            // Only the first one has sent anything.
            begun |= i == order[0];
            actors[i].cancel()?;
            left[i] = false;
        }
    }
    let mut sent = vec![];
    loop {
        st.transitions += 1;
        let mut ran = false;
        for &i in &order {
            if actors[i].ready() {
                actors[i].poll()?;
                ran = true;
            }
        }
        if ran && late {
            continue;
        }
        let one: Vec<Call> = calls.clone();
        match peer.next(&one[..])? {
            Some(b) => {
                sim::push(0, 1, &b);
                sent.push(peer.done.last().unwrap().clone());
            }
            None if !ran => break,
            None => {}
        }
    }
    let mut incs = vec![];
    for (i, a) in actors.iter().enumerate().filter(|x| left[x.0]) {
        let Some(out) = &a.out else { return Err(Fail::from(format!("call {} of {} never completes", i, n))) };
        match out {
            Err(CErr::Conn("closed")) if begun => continue,
            _ => {}
        }
        if i % 3 == 2 {
            let Ok(MVal::Int(x)) = out else { return Err(Fail::from(format!("call {} gave {}", i, show_out(out)))) };
            incs.push(*x);
        } else {
            let want = Ok(MVal::List(vec![format!("call {}", i).into_bytes()]));
            ensure!(calls[i].agrees(&want, out), "call {} of {} gave {}", i, n, show_out(out));
        }
    }
    incs.sort();
    let all: Vec<i64> = peer.done.iter().filter_map(|d| if let Ok(MVal::Int(x)) = &d.1 { Some(*x) } else { None }).collect();
    ensure!(incs.windows(2).all(|w| w[0] != w[1]) && incs.iter().all(|x| all.contains(x)), "increments gave {:?}, and were answered {:?}", incs, all);
    ensure!(begun || incs.len() == all.len(), "{} increments were sent for {} that completed", all.len(), incs.len());
    st.state(h64(format!("{:?}", left).as_bytes()));
    Ok(())
}

/// Whether a call may give that: an answer to it nobody else got, or an error
/// if something happened to the connection.
fn judge(call: &Call, out: &Out, peer: &Peer, used: &mut Vec<bool>, fault: Option<Fault>, dropped: usize) -> Res {
    let cmd = match call.cmd() {
        Ok(c) => c,
        Err(e) => {
            ensure!(call.agrees(&Err(e.clone()), out), "`{}` gave {}, expected {:?}", call.show(), show_out(out), e);
            return Ok(());
        }
    };
    if let Err(e @ CErr::Conn(_)) = out {
        if dropped > 0 && *e == CErr::Conn("closed") {
            return Ok(());
        }
        match fault {
            Some(f) if f.causes(e) => return Ok(()),
            _ => return Err(Fail::from(format!("`{}` gave {:?} without a reason", call.show(), e))),
        }
    }
    let b = id(&cmd);
    used.resize(peer.done.len(), false);
    for (i, (req, want)) in peer.done.iter().enumerate() {
        if !used[i] && *req == b && call.agrees(want, out) {
            used[i] = true;
            return Ok(());
        }
    }
    let l: Vec<String> = peer.done.iter().filter(|d| d.0 == b).map(|d| show_out(&d.1)).collect();
    Err(Fail::from(format!("`{}` gave {}, but was answered [{}]", call.show(), show_out(out), l.join(", "))))
}

fn k(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}

fn setup() -> Vec<Cmd> {
    vec![
        Cmd::new(Op::Set, Some(T_BYTES), &[b"b", b"bytes"]),
        Cmd::new(Op::Set, Some(T_LIST), &[b"l", b"x", b"y"]),
        Cmd::new(Op::Set, Some(T_INT), &[b"i", &7i64.to_be_bytes()]),
    ]
}

/// Different calls whose answers differ.
fn race_calls() -> Vec<Call> {
    vec![
        Call::Echo(k("one")),
        Call::Echo(k("other")),
        Call::Inc(false, k("i"), None, None),
        Call::Get(k("b"), None, false),
        Call::Get(k("l"), Some(T_LIST), false),
        Call::Get(k("none"), None, false),
        Call::Set(k("b"), MVal::Bytes(k("new")), false),
        Call::ExistsOne(k("b")),
    ]
}

pub fn c18(t: Tier) -> Check {
    Check::new("calls on one client, run in all interleavings with each other and the answers' arrival; schedules: interleavings")
        .assume("a call runs from one point where it waits to the next without another one in between")
        .sub("two_calls", move |w| {
            let l = race_calls();
            for a in &l {
                for b in &l {
                    w.case(|| format!("{} | {}", a.show(), b.show()), |st| {
                        race(&[a.clone(), b.clone()], &setup(), Cfg { cancels: 1, writes: t.pick(1, 2), splits: 2, spurious: 1, fault: None }, 3_000_000, st)
                    });
                }
            }
        })
        .sub("call_after_call", move |w| {
            let l = race_calls();
            for a in &l {
                for n in [300usize, 1025, 4097] {
                    w.case(|| format!("{} times {}", n, a.show()), |st| call_after_call(&[a.clone()], n, usize::MAX, st));
                }
            }
            for n in [10usize, 255, 256, 257, 1000, 65_535, 65_537, t.pick(70_000, 1_100_000)] {
                for piece in [usize::MAX, 1000, 1] {
                    w.case(|| format!("{} calls, by turns, read {} at a time", n, piece), |st| call_after_call(&l, n, piece, st));
                }
            }
        })
        .sub("sizes", move |w| {
            // Answers that no one read may bring, by turns with small ones.
            for n in [255usize, 256, 1023, 1024, 1025, 4095, 4096, 4097, 8184, 8191, 8192, 8193, 16_384, 65_535, 65_536, t.pick(200_000, 2_000_000)] {
                let big = |b: u8| Call::Echo((0..n).map(|i| b.wrapping_add((i % 251) as u8)).collect());
                for piece in [usize::MAX, 8192, 4096, 1000] {
                    w.case(|| format!("echoes of {} bytes by turns with small ones, read {} at a time", n, piece), |st| {
                        call_after_call(&[big(1), Call::Inc(false, k("i"), None, None), big(2), Call::Echo(k("one")), Call::Get(k("none"), None, false)], 20, piece, st)
                    });
                }
                for calls in [vec![big(1), big(2)], vec![big(1), Call::Echo(k("one"))], vec![Call::Get(k("none"), None, false), big(1)]] {
                    w.case(|| format!("{} bytes: {}", n, calls.iter().map(|c| c.show().chars().take(20).collect::<String>()).collect::<Vec<_>>().join(" | ")), |st| {
                        race(&calls, &setup(), Cfg { cancels: 1, writes: 1, splits: 0, spurious: 0, fault: None }, 3_000_000, st)
                    });
                }
            }
        })
        .sub("at_a_time", move |w| {
            for n in (1..=40usize).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, t.pick(300, 1025)]) {
                for every in [0usize, 1, 2, 3, 5] {
                    for from in [0usize, 1, 2, n / 2] {
                        if every == 0 && from > 0 {
                            continue;
                        }
                        for (back, late) in [(false, false), (false, true), (true, false), (true, true)] {
                            w.case(
                                || format!("{} calls at a time{}{}, every {} from {} given up", n, if back { ", backwards" } else { "" }, if late { ", answered late" } else { "" }, every, from),
                                |st| at_a_time(n, back, |i| every > 0 && i >= from && (i - from) % every == 0, late, st),
                            );
                        }
                    }
                }
            }
        })
        .sub("two_calls_all_cancelled", move |w| {
            let l = race_calls();
            for a in &l {
                for b in &l {
                    w.case(|| format!("{} | {}", a.show(), b.show()), |st| {
                        race(&[a.clone(), b.clone()], &setup(), Cfg { cancels: 2, writes: 2, splits: 2, spurious: t.pick(0, 1), fault: None }, 3_000_000, st)
                    });
                }
            }
        })
        .sub("three_calls", move |w| {
            let l = race_calls();
            for a in &l {
                for b in &l {
                    for c in &l {
                        w.case(|| format!("{} | {} | {}", a.show(), b.show(), c.show()), |st| {
                            race(&[a.clone(), b.clone(), c.clone()], &setup(), Cfg { cancels: t.pick(1, 2), writes: 1, splits: 0, spurious: 0, fault: None }, 3_000_000, st)
                        });
                    }
                }
            }
        })
        .sub("three_calls_in_full", move |w| {
            let l = race_calls();
            let sets: &[[usize; 3]] = t.pick(&[[0, 1, 2]], &[[0, 1, 2], [0, 0, 0], [2, 2, 2], [2, 3, 6], [4, 5, 7]]);
            for s in sets {
                let c: Vec<Call> = s.iter().map(|i| l[*i].clone()).collect();
                w.case(|| c.iter().map(|c| c.show()).collect::<Vec<_>>().join(" | "), |st| {
                    race(&c, &setup(), Cfg { cancels: 2, writes: 1, splits: t.pick(0, 1), spurious: t.pick(0, 1), fault: None }, 20_000_000, st)
                });
            }
        })
        .sub("four_calls", move |w| {
            let l = race_calls();
            let sets: &[[usize; 4]] = &[[0, 1, 2, 3], [2, 2, 2, 2], [4, 5, 6, 7]];
            for s in sets {
                let c: Vec<Call> = s.iter().map(|i| l[*i].clone()).collect();
                w.case(|| c.iter().map(|c| c.show()).collect::<Vec<_>>().join(" | "), |st| {
                    race(&c, &setup(), Cfg { cancels: t.pick(1, 2), writes: 0, splits: t.pick(0, 1), spurious: 0, fault: None }, 20_000_000, st)
                });
            }
        })
}

// ------------------------------------------------------------------ C21: faults

/// Writes that go through in pieces and fail after so many bytes.
struct Faulty {
    left: usize,
    kind: ErrorKind,
    piece: usize,
    /// Reads of at most so many bytes.
    reads: usize,
}
impl Policy for Faulty {
    fn read(&mut self, _: usize, _: usize, _: usize, _: usize) -> Do {
        Do::Upto(self.reads)
    }
    fn write(&mut self, _: usize, _: usize, len: usize) -> Do {
        let n = len.min(self.piece).min(self.left);
        if n == 0 {
            return Do::Fail(self.kind);
        }
        self.left -= n;
        Do::Upto(n)
    }
}

const KINDS: [ErrorKind; 8] = [ConnectionReset, BrokenPipe, ConnectionAborted, TimedOut, NotConnected, PermissionDenied, InvalidData, Other];

/// One answer of every kind and every method, and requests that are refused.
fn fault_calls() -> Vec<Call> {
    let b = |s: &str| k(s);
    vec![
        Call::Echo(b("one")),
        Call::Get(b("b"), None, false),
        Call::Get(b("l"), Some(T_LIST), false),
        Call::Get(b("none"), None, false),
        Call::Set(b("m"), MVal::Map([(b("x"), b("y")), (b("z"), b(""))].into_iter().collect()), false),
        Call::Set(b("s"), MVal::Set([b("x"), b("yy")].into_iter().collect()), false),
        Call::Set(b("f"), MVal::Float(1.5), false),
        Call::SetValue(b("t"), MVal::Str("é".into())),
        Call::Inc(false, b("i"), None, None),
        Call::Inc(true, b("i"), Some(T_INT), Some(MVal::Int(3))),
        Call::ExistsOne(b("b")),
        Call::Is(T_INT, vec![b("i"), b("b")]),
        Call::Append(b("l"), MVal::List(vec![b("z")])),
        Call::Type(b("l")),
        Call::Length(b("b"), None, false),
        Call::Keys(b("m")),
        Call::Rename(b("b"), b("c")),
        Call::Delete(b("i")),
        Call::Stats,
        Call::BInc(true, b("l"), None),
    ]
}

/// One call after the other, while what the client writes fails after some
/// bytes.
fn write_fault(calls: &[Call], left: usize, kind: ErrorKind, piece: usize, st: &mut Stats) -> Res {
    fresh(Faulty { left, kind, piece, reads: usize::MAX });
    let on = connected(calls.iter().any(backend_only))?;
    let mut peer = Peer::new(&setup());
    let mut used = vec![];
    let mut at = 0;
    for c in calls {
        let n = c.cmd().map_or(0, |c| enc_req(&c).len());
        let mut a = on.start(c);
        let out = a
            .finish(|| {
                Ok(match peer.next(calls)? {
                    Some(b) => {
                        sim::push(0, 1, &b);
                        true
                    }
                    None => false,
                })
            })
            .map_err(|f| Fail::from(format!("`{}`: {}", c.show(), f.msg)))?;
        st.transitions += 1;
        st.outcome(show_out(&out).as_bytes());
        let broke = at + n > left;
        if broke {
            // The first to fail says why, others may.
            let first = at <= left;
            let ok = match &out {
                Err(e) if first => *e == CErr::Conn(named("writing", kind)),
                Err(e) => Fault::Deaf(kind).causes(e),
                Ok(_) => false,
            };
            ensure!(ok, "`{}` gave {} when writing failed after {} bytes", c.show(), show_out(&out), left);
        } else {
            judge(c, &out, &peer, &mut used, None, 0)?;
        }
        at += n;
    }
    Ok(())
}

/// One call after the other, while the answers end or fail after some bytes,
/// which come in pieces; `early` says whether it's known as soon as the bytes
/// were read, or only when the client waits for more.
fn read_fault(calls: &[Call], fault: Fault, left: usize, cut: usize, reads: usize, early: bool, st: &mut Stats) -> Result<bool, Fail> {
    fresh(Faulty { left: usize::MAX, kind: Other, piece: usize::MAX, reads });
    let on = connected(calls.iter().any(backend_only))?;
    let mut peer = Peer::new(&setup());
    let mut used = vec![];
    let mut queue: Vec<u8> = vec![];
    let mut left = left;
    let mut at = 0;
    let mut done = false;
    for c in calls {
        let mut a = on.start(c);
        let mut whole = false;
        let was = done;
        let out = a
            .finish(|| {
                if done {
                    return Ok(false);
                }
                if queue.is_empty() {
                    if let Some(b) = peer.next(calls)? {
                        queue = b;
                    }
                }
                if queue.is_empty() {
                    return Ok(false);
                }
                if left == 0 {
                    done = true;
                    fault.act();
                    return Ok(true);
                }
                let mut n = queue.len().min(left);
                if cut > at {
                    n = n.min(cut - at);
                }
                sim::push(0, 1, &queue[..n]);
                queue.drain(..n);
                at += n;
                left -= n;
                whole = queue.is_empty();
                if left == 0 && early && matches!(fault, Fault::Fin | Fault::HangUp) {
                    done = true;
                    fault.act();
                }
                Ok(true)
            })
            .map_err(|f| Fail::from(format!("`{}`: {}", c.show(), f.msg)))?;
        st.transitions += 1;
        st.outcome(show_out(&out).as_bytes());
        if whole && !was {
            judge(c, &out, &peer, &mut used, None, 0)?;
        } else if c.cmd().is_ok() {
            let ok = matches!(&out, Err(e) if fault.causes(e));
            let first = !was && !matches!(fault, Fault::Fin | Fault::HangUp);
            let named_so = match (fault, &out) {
                (Fault::Reset(k) | Fault::Mute(k), Err(CErr::Conn(e))) => *e == named("reading", k) || was,
                _ => true,
            };
            ensure!(ok && (!first || named_so), "`{}` gave {} after {:?} at byte {} of the answers", c.show(), show_out(&out), fault, at);
        } else {
            judge(c, &out, &peer, &mut used, None, 0)?;
        }
    }
    Ok(done)
}

/// A fault that passes: one read or one write fails, before or after which
/// everything is as it should be.
struct Passing {
    /// How many bytes are read or written before it.
    left: usize,
    kind: ErrorKind,
    writing: bool,
    piece: usize,
    gone: bool,
}
impl Passing {
    fn go(&mut self, writing: bool, n: usize) -> Do {
        let n = n.min(self.piece);
        if writing != self.writing || self.gone {
            return Do::Upto(n);
        }
        let n = n.min(self.left);
        if n == 0 {
            self.gone = true;
            return Do::FailOnce(self.kind);
        }
        self.left -= n;
        Do::Upto(n)
    }
}
impl Policy for Passing {
    fn read(&mut self, _: usize, _: usize, there: usize, room: usize) -> Do {
        self.go(false, there.min(room))
    }
    fn write(&mut self, _: usize, _: usize, len: usize) -> Do {
        self.go(true, len)
    }
}

/// One call after the other, of which one meets a fault that passes, so that
/// what is left of its request or answer is still to come.
fn passing_fault(calls: &[Call], left: usize, kind: ErrorKind, writing: bool, piece: usize, st: &mut Stats) -> Res {
    let policy = Rc::new(RefCell::new(Passing { left, kind, writing, piece, gone: false }));
    sim::reset(policy.clone());
    let on = connected(calls.iter().any(backend_only))?;
    let mut peer = Peer::new(&setup());
    let mut used = vec![];
    let mut met = false;
    for c in calls {
        let mut a = on.start(c);
        let out = a
            .finish(|| {
                Ok(match peer.whatever(calls) {
                    Some(b) => {
                        sim::push(0, 1, &b);
                        true
                    }
                    None => false,
                })
            })
            .map_err(|f| Fail::from(format!("`{}`, {:?} once after {} bytes: {}", c.show(), kind, left, f.msg)))?;
        st.transitions += 1;
        st.outcome(show_out(&out).as_bytes());
        let gone = policy.borrow().gone;
        if gone && c.cmd().is_ok() {
            let name = named(if writing { "writing" } else { "reading" }, kind);
            match &out {
                Err(CErr::Conn(e)) if *e == name => {
                    met = true;
                    continue;
                }
                // It may not be used any further, then.
                Err(CErr::Conn(_)) if met => continue,
                _ => {}
            }
            ensure!(met, "`{}` gave {}, though {:?} came up after {} bytes", c.show(), show_out(&out), kind, left);
        }
        judge(c, &out, &peer, &mut used, None, 0)
            .map_err(|f| Fail::from(format!("{:?} once after {} bytes: {}", kind, left, f.msg)))?;
    }
    Ok(())
}

fn answer_len(calls: &[Call]) -> usize {
    let mut p = Peer::new(&setup());
    let mut n = 0;
    for c in calls {
        if let Ok(cmd) = c.cmd() {
            let r = if cmd.op == Op::Stats { Ok(stats_map(&p.m)) } else { p.m.apply(&cmd) };
            n += enc_resp(&match r {
                Ok(v) => MResp::Val(v),
                Err(e) => MResp::Dispatch(e),
            })
            .len();
        }
    }
    n
}

fn request_len(calls: &[Call]) -> usize {
    calls.iter().filter_map(|c| c.cmd().ok()).map(|c| enc_req(&c).len()).sum()
}

/// What a call gives for an answer of that value, if it can be one to it.
fn meaning(c: &Call, v: &MVal) -> Result<MVal, CErr> {
    let only = |t: u8| if v.ty() == t { Ok(v.clone()) } else { Err(CErr::Conn("bad")) };
    match c {
        Call::Append(_, x) | Call::BAppend(_, x) | Call::Set(_, x, _) | Call::SetValue(_, x) => only(x.ty()),
        Call::SetItems(..) => only(T_SET),
        Call::Get(_, Some(t), _) | Call::BGet(_, Some(t)) => only(*t),
        Call::Get(_, None, _) | Call::BGet(_, None) => Ok(v.clone()),
        Call::Inc(_, _, Some(t), _) => only(*t),
        Call::BIncBy(_, _, x) => only(x.ty()),
        Call::Inc(_, _, None, _) | Call::BInc(..) => only(T_INT).or_else(|_| only(T_FLOAT)),
        Call::Delete(_) | Call::Rename(..) => only(T_BYTES),
        Call::Echo(_) | Call::Keys(_) => only(T_LIST),
        Call::ExistsOne(_) | Call::Exists(_) | Call::IsOne(..) | Call::Is(..) => only(T_BOOL),
        Call::Length(..) | Call::BLength(..) => only(T_INT),
        Call::Type(_) => match v {
            MVal::Int(n) if (0..8).contains(n) => Ok(v.clone()),
            MVal::Int(n) if (0..256).contains(n) => Err(CErr::TypeInvalid),
            _ => Err(CErr::Conn("bad")),
        },
        Call::Stats => match v {
            MVal::Map(m) => {
                let n = |x: &str| match m.get(x.as_bytes()) {
                    Some(v) if v.len() == 8 => v.clone(),
                    _ => vec![0; 8],
                };
                Ok(MVal::List(vec![n("commands_successful"), n("commands_errored"), n("sessions_started"), n("sessions_ended")]))
            }
            _ => Err(CErr::Conn("bad")),
        },
    }
}

fn framed_len(b: &[u8]) -> usize {
    4 + u32::from_be_bytes(b[..4].try_into().unwrap()) as usize
}

/// What can be made of an answer whose length isn't what it's said to be.
fn loose(c: &Call, bytes: &[u8]) -> Vec<Out> {
    let mut v = vec![Err(CErr::Conn("bad"))];
    if bytes.get(4) == Some(&K_BOOL) {
        v.push(meaning(c, &MVal::Bool(true)));
    }
    for n in 1..=bytes.len() - 4 {
        match dec_resp(&framed(&bytes[4..4 + n])) {
            Ok((MResp::Val(x), _)) => v.push(meaning(c, &x)),
            Ok((MResp::Dispatch(e), _)) if e < 8 => v.push(Err(CErr::Run(e))),
            Ok((MResp::Parse(e), _)) if e < 2 => v.push(Err(CErr::BadRequest(e))),
            _ => {}
        }
    }
    v
}

/// The call is answered with these bytes, after which the stream may end.
fn answered(c: &Call, bytes: &[u8], fin: bool, piece: usize, st: &mut Stats) -> Res {
    fresh(sim::Plain);
    let on = connected(backend_only(c))?;
    let mut a = on.start(c);
    let mut at = 0;
    let mut ended = false;
    let after = Call::Echo(k("after"));
    // An answer may be said to be shorter than it is, then the rest can still
    // come, or longer, then what's left is part of it.
    let whole = bytes.len() >= 4 && bytes.len() - 4 >= u32::from_be_bytes(bytes[..4].try_into().unwrap()) as usize;
    let complete = whole && !matches!(dec_resp(bytes), Err(e) if e.contains("longer than") || e.contains("twice") || e == "no kind");
    let mut feed = || {
        if at < bytes.len() {
            let n = piece.min(bytes.len() - at);
            sim::push(0, 1, &bytes[at..at + n]);
            at += n;
            return Ok(true);
        }
        if !ended && (fin || !complete) {
            ended = true;
            sim::fin(0, 1);
            return Ok(true);
        }
        Ok(false)
    };
    let out = a.finish(&mut feed)?;
    st.transitions += 1;
    st.outcome(show_out(&out).as_bytes());
    let want: Vec<Out> = if whole && out.is_ok() && matches!(dec_resp(bytes), Err(e) if e.contains("twice")) {
        // A map or set that names something twice has it once, or is none.
        vec![out.clone()]
    } else if !complete {
        let mut v = vec![Err(CErr::Conn("closed"))];
        if whole {
            v.extend(loose(c, bytes));
        }
        v.push(Err(CErr::Conn("bad")));
        v
    } else {
        match dec_resp(bytes) {
            Ok((MResp::Val(v), _)) => vec![meaning(c, &v)],
            Ok((MResp::Dispatch(e), _)) if e < 8 => vec![Err(CErr::Run(e))],
            Ok((MResp::Parse(e), _)) if e < 2 => vec![Err(CErr::BadRequest(e))],
            Err(e) if e.contains("used") => loose(c, bytes),
            // Any other byte than 0 may stand for true.
            Err(e) if e.contains("boolean byte") => vec![Err(CErr::Conn("bad")), meaning(c, &MVal::Bool(true))],
            _ => vec![Err(CErr::Conn("bad"))],
        }
    };
    ensure!(want.iter().any(|w| c.agrees(w, &out)), "`{}` answered with {} gave {}, expected {}", c.show(), show(bytes), show_out(&out), show_out(&want[0]));
    if whole && bytes.len() > framed_len(bytes) {
        // What was sent without having been asked for can't be told from an answer,
        // but after what was none no other call can be answered.
        if want.len() == 1 && matches!(out, Err(CErr::Conn("bad"))) && complete && dec_resp(bytes).is_err() {
            if !ended {
                sim::fin(0, 1);
            }
            let mut b = on.start(&after);
            let out = b.finish(|| Ok(false)).map_err(|f| Fail::from(format!("a call after `{}` answered with {}: {}", c.show(), show(bytes), f.msg)))?;
            ensure!(out.is_err(), "after `{}` answered with {}, {} gave {}", c.show(), show(bytes), after.show(), show_out(&out));
        }
        return Ok(());
    }
    if (fin || !complete) && !ended {
        sim::fin(0, 1);
    }
    // It may be used further if that was an answer, even if one to another call.
    let mut b = on.start(&after);
    let echo = MVal::List(vec![k("after")]);
    let mut sent = false;
    let r = b.finish(|| {
        if sent || fin || !complete {
            return Ok(false);
        }
        // The answer is due when the request was sent.
        let req = enc_req(&after.cmd().unwrap());
        if !sim::sent(0, 0).ends_with(&req) {
            return Ok(false);
        }
        sent = true;
        sim::push(0, 1, &enc_resp(&MResp::Val(echo.clone())));
        Ok(true)
    });
    let out = r.map_err(|f| Fail::from(format!("a call after `{}` answered with {}: {}", c.show(), show(bytes), f.msg)))?;
    match &out {
        Ok(v) if sent && v.same(&echo) => Ok(()),
        // It goes on after an answer to that call, be it that it failed.
        Err(CErr::Conn(_)) if fin || !complete || matches!(want[..], [Err(CErr::Conn(_)), ..]) => Ok(()),
        _ => Err(Fail::from(format!("a call after `{}` answered with {} gave {}", c.show(), show(bytes), show_out(&out)))),
    }
}

fn framed(p: &[u8]) -> Vec<u8> {
    let mut v = (p.len() as u32).to_be_bytes().to_vec();
    v.extend(p);
    v
}

fn some_values() -> Vec<MVal> {
    let mut v = vec![
        MVal::Bool(false),
        MVal::Bool(true),
        MVal::Float(0.5),
        MVal::Float(f64::NAN),
        MVal::Int(0),
        MVal::Int(7),
        MVal::Int(8),
        MVal::Int(255),
        MVal::Int(256),
        MVal::Int(-1),
        MVal::Int(i64::MIN),
        MVal::Bytes(vec![]),
        MVal::Bytes(k("xyz")),
        MVal::Str("".into()),
        MVal::Str("é".into()),
        MVal::List(vec![]),
        MVal::List(vec![k("a"), k(""), k("a")]),
        MVal::Map(Default::default()),
        MVal::Map([(k("a"), k("b")), (k(""), k(""))].into_iter().collect()),
        MVal::Set(Default::default()),
        MVal::Set([k("a"), k("")].into_iter().collect()),
        stats_map(&MState { ok: 1, err: 2, started: 3, ended: 4, ..Default::default() }),
    ];
    for n in [1usize, 7, 8, 9] {
        v.push(MVal::Map([(k("commands_successful"), vec![1; n]), (k("sessions_ended"), vec![0, 0, 0, 0, 0, 0, 0, 1])].into_iter().collect()));
    }
    v
}

/// Whether no more than a megabyte is claimed to follow, which a client may
/// provide for.
fn modest(b: &[u8]) -> bool {
    let n = |b: &[u8]| u32::from_be_bytes(b.try_into().unwrap()) as usize <= 1 << 20;
    let lengths = matches!(b.get(4), Some(&(K_BYTES | K_STR | K_LIST | K_MAP)));
    b.get(..4).map_or(true, n) && (!lengths || b[5..].windows(4).all(n))
}

fn answer(w: &mut W, c: &Call, m: &[u8], fin: bool) {
    if modest(m) {
        w.case(|| format!("{} answered with {}", c.show(), show(m)), |st| answered(c, m, fin, usize::MAX, st));
    }
}

pub fn c21(t: Tier) -> Check {
    Check::new("calls on a client whose connection fails in one way at one point; outcomes: results of the calls")
        .assume("no answer claims that more than 1 MB follows")
        .assume("a peer sends nothing without having been asked")
        .sub("connecting", move |w| {
            for backend in [false, true] {
                for kind in KINDS.into_iter().chain([ConnectionRefused, AddrNotAvailable, NotFound, InvalidInput, UnexpectedEof, WouldBlock]) {
                    w.case(|| format!("connecting fails: {:?}", kind), |_| {
                        struct No(ErrorKind, u8);
                        impl Policy for No {
                            fn connect(&mut self, _: SocketAddr) -> Do {
                                self.1 += 1;
                                if self.1 < 3 { Do::Later } else { Do::Fail(self.0) }
                            }
                        }
                        fresh(No(kind, 0));
                        match connect(backend)? {
                            Err(CErr::Conn(e)) if e == named("connecting", kind) => Ok(()),
                            Err(e) => Err(Fail::from(format!("connecting gave {:?}", e))),
                            Ok(_) => Err("connecting succeeded".into()),
                        }
                    });
                }
                w.case(|| "connecting takes a while".into(), |_| {
                    struct Slow(u8);
                    impl Policy for Slow {
                        fn connect(&mut self, _: SocketAddr) -> Do {
                            self.0 += 1;
                            if self.0 < 3 { Do::Later } else { Do::Upto(0) }
                        }
                    }
                    fresh(Slow(0));
                    connected(backend).map(|_| ())
                });
            }
        })
        .sub("writing", move |w| {
            let l = fault_calls();
            for a in &l {
                for b in &l {
                    let s = [a.clone(), b.clone(), Call::Echo(k("end"))];
                    for left in 0..=request_len(&s) {
                        let kinds = if a.show() == b.show() { &KINDS[..] } else { &KINDS[..1] };
                        for &kind in kinds {
                            for piece in [usize::MAX, 1, 3] {
                                w.case(|| format!("{}; {}; an echo; writing fails after {} bytes ({:?}), {} at a time", a.show(), b.show(), left, kind, piece), |st| write_fault(&s, left, kind, piece, st));
                            }
                        }
                    }
                }
            }
        })
        .sub("reading", move |w| {
            let l = fault_calls();
            for a in &l {
                for b in &l {
                    let s = [a.clone(), b.clone(), Call::Echo(k("end"))];
                    for left in 0..=answer_len(&s) {
                        let mut faults = vec![Fault::Fin, Fault::HangUp, Fault::Reset(ConnectionReset), Fault::Mute(TimedOut)];
                        if a.show() == b.show() {
                            for k in KINDS {
                                faults.extend([Fault::Reset(k), Fault::Mute(k)]);
                            }
                        }
                        for f in faults {
                            for (reads, early) in [(usize::MAX, true), (usize::MAX, false), (1, false)] {
                                w.case(|| format!("{}; {}; an echo; {:?} after {} bytes of answers", a.show(), b.show(), f, left), |st| read_fault(&s, f, left, 0, reads, early, st).map(|_| ()));
                            }
                        }
                    }
                }
            }
        })
        .sub("reading_in_pieces", move |w| {
            let l = fault_calls();
            for a in &l {
                let s = [a.clone(), Call::Echo(k("end"))];
                let n = answer_len(&s);
                for left in 0..=n {
                    for cut in 1..left.max(1) {
                        for f in [Fault::Fin, Fault::Reset(ConnectionReset)] {
                            for early in [true, false] {
                                w.case(|| format!("{}; an echo; {:?} after {} bytes of answers, the first {} alone", a.show(), f, left, cut), |st| read_fault(&s, f, left, cut, usize::MAX, early, st).map(|_| ()));
                            }
                        }
                    }
                }
            }
        })
        .sub("faults_that_pass", move |w| {
            let l = fault_calls();
            for (i, a) in l.iter().enumerate() {
                for (j, b) in l.iter().enumerate() {
                    let s = [a.clone(), b.clone(), Call::Echo(k("end")), a.clone()];
                    for writing in [false, true] {
                        let n = if writing { request_len(&s[..2]) } else { answer_len(&s[..2]) };
                        for left in 0..n {
                            let kinds = if i == j { &KINDS[..] } else { &KINDS[(i + j) % KINDS.len()..][..1] };
                            for &kind in kinds {
                                for piece in [usize::MAX, 1] {
                                    w.case(
                                        || format!("{}; {}; an echo; the first again; {} fails once after {} bytes ({:?}), {} at a time", a.show(), b.show(), if writing { "writing" } else { "reading" }, left, kind, piece),
                                        |st| passing_fault(&s, left, kind, writing, piece, st),
                                    );
                                }
                            }
                        }
                    }
                }
            }
        })
        .sub("wrong_answers", move |w| {
            let mut calls = all_calls(&[b"a"], &eng_values());
            calls.retain(|c| c.cmd().is_ok());
            let mut rs: Vec<MResp> = some_values().into_iter().map(MResp::Val).collect();
            rs.extend((0..12).map(MResp::Dispatch));
            rs.extend((0..6).map(MResp::Parse));
            for c in &calls {
                for r in &rs {
                    for fin in [false, true] {
                        for piece in [usize::MAX, 1] {
                            w.case(|| format!("{} answered with {}", c.show(), r.show()), |st| answered(c, &enc_resp(r), fin, piece, st));
                        }
                    }
                }
            }
        })
        .sub("invalid_answers", move |w| {
            // Any payload of a few bytes, and what differs from an answer in one.
            let calls = [Call::Get(k("a"), None, false), Call::Get(k("a"), Some(T_MAP), false), Call::Echo(k("a")), Call::Type(k("a"))];
            let heads: Vec<u8> = (0..=12).chain([0x7f, 0x80, 0xff]).collect();
            let tails = [0u8, 1, 2, 0xff];
            for (i, c) in calls.iter().enumerate() {
                for fin in [false, true] {
                    w.case(|| format!("{} answered without a payload", c.show()), |st| answered(c, &framed(&[]), fin, usize::MAX, st));
                }
                for n in 0..=t.pick(if i == 0 { 6 } else { 3 }, if i == 0 { 8 } else { 5 }) {
                    for &h in &heads {
                        sequences_up(tails.len(), n, |s| {
                            let mut p = vec![h];
                            p.extend(s.iter().map(|i| tails[*i]));
                            for fin in [false, true] {
                                if modest(&framed(&p)) {
                                    w.case(|| format!("{} answered with the payload {}", c.show(), show(&p)), |st| answered(c, &framed(&p), fin, usize::MAX, st));
                                }
                            }
                        });
                    }
                }
            }
            let c = &calls[0];
            for v in some_values() {
                let b = enc_resp(&MResp::Val(v.clone()));
                // Bytes changed, left out and added, with the length as it was or not.
                for i in 0..b.len() {
                    for x in 0..=255u8 {
                        let mut m = b.clone();
                        m[i] = x;
                        for fin in [false, true] {
                            answer(w, c, &m, fin);
                        }
                    }
                    for fin in [false, true] {
                        let m = b[..i].to_vec();
                        answer(w, c, &m, fin);
                        let m = if i >= 4 { framed(&b[4..i]) } else { continue };
                        answer(w, c, &m, fin);
                        for x in [0u8, 1, 2, 0x80, 0xff] {
                            let mut p = b[4..].to_vec();
                            p.insert(i - 4, x);
                            let m = framed(&p);
                            answer(w, c, &m, fin);
                            let mut p = b[4..].to_vec();
                            p.push(x);
                            p.extend(vec![x; i - 4]);
                            let m = framed(&p);
                            answer(w, c, &m, fin);
                        }
                    }
                }
            }
        })
        .sub("invalid_then_more", move |w| {
            // What is no answer, and then what could be one to the next call.
            let calls = [Call::Get(k("a"), None, false), Call::Get(k("a"), Some(T_STR), false), Call::Echo(k("a")), Call::Type(k("a")), Call::Stats];
            let more = enc_resp(&MResp::Val(MVal::List(vec![k("after")])));
            for c in &calls {
                let mut payloads: Vec<Vec<u8>> = vec![];
                for kind in 0..=255u8 {
                    for n in [0usize, 1, 4, 8] {
                        payloads.push([vec![kind], vec![0xff; n]].concat());
                    }
                }
                for v in some_values() {
                    let b = enc_resp(&MResp::Val(v));
                    for i in 4..b.len() {
                        for x in [0u8, 0x7f, 0x80, 0xff] {
                            let mut p = b[4..].to_vec();
                            p[i - 4] = x;
                            payloads.push(p);
                        }
                    }
                }
                for p in payloads {
                    let b = framed(&p);
                    if !matches!(dec_resp(&b), Err(e) if !e.contains("longer than")) {
                        continue;
                    }
                    let b = [b, more.clone(), more.clone()].concat();
                    for fin in [false, true] {
                        for piece in [usize::MAX, 1] {
                            w.case(|| format!("{} answered with the payload {} and two answers of an echo", c.show(), show(&p)), |st| answered(c, &b, fin, piece, st));
                        }
                    }
                }
            }
        })
        .sub("faults_among_calls", move |w| {
            let l = race_calls();
            for f in [Fault::Fin, Fault::HangUp, Fault::Reset(ConnectionReset), Fault::Deaf(BrokenPipe), Fault::Mute(TimedOut)] {
                for a in &l {
                    for b in &l {
                        w.case(|| format!("{} | {} | {:?}", a.show(), b.show(), f), |st| {
                            race(&[a.clone(), b.clone()], &setup(), Cfg { cancels: t.pick(0, 1), writes: 1, splits: 1, spurious: 0, fault: Some(f) }, 3_000_000, st)
                        });
                        for c in l.iter().take(t.pick(2, 8)) {
                            w.case(|| format!("{} | {} | {} | {:?}", a.show(), b.show(), c.show(), f), |st| {
                                race(&[a.clone(), b.clone(), c.clone()], &setup(), Cfg { cancels: 0, writes: 0, splits: 1, spurious: 0, fault: Some(f) }, 3_000_000, st)
                            });
                        }
                    }
                }
            }
        })
}

fn eng_values() -> Vec<MVal> {
    vec![
        MVal::Bool(true),
        MVal::Bytes(k("x")),
        MVal::Float(1.0),
        MVal::Int(1),
        MVal::Str("x".into()),
        MVal::List(vec![k("x")]),
        MVal::Map([(k("x"), k("y"))].into_iter().collect()),
        MVal::Set([k("x")].into_iter().collect()),
    ]
}

/// All sequences of exactly that length.
fn sequences_up(n: usize, len: usize, mut f: impl FnMut(&[usize])) {
    let mut s = vec![0; len];
    loop {
        f(&s);
        let Some(i) = (0..len).rev().find(|i| s[*i] + 1 < n) else { return };
        s[i] += 1;
        s[i + 1..].fill(0);
    }
}
