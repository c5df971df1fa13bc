//! C22 to C25: subscriptions, sessions, statistics and metrics, one operation
//! after the other and at the same time.
use crate::eng;
use hop_engine::metrics::Metric;
use hop_engine::pubsub::{KeyUpdate, PubSubManager, Subscription};
use hop_engine::session::{SessionId, SessionManager};
use hop_engine::Hop;
use hop_internal_metrics::{Metrics, Reader, Snapshot, Writer};
use mc::model::*;
use mc::*;
use sched::{Call, End, Hist};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::future::Future;
use std::rc::Rc;
use std::sync::{Arc, Weak};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

const MAX: u64 = 3_000_000;

type EvOut = Result<(usize, Option<[u64; 4]>), String>;

fn waker() -> Waker {
    fn raw() -> RawWaker {
        static V: RawWakerVTable = RawWakerVTable::new(|_| raw(), |_| {}, |_| {}, |_| {});
        RawWaker::new(std::ptr::null(), &V)
    }
    unsafe { Waker::from_raw(raw()) }
}

fn poll_once<F: Future>(f: F) -> Option<F::Output> {
    let w = waker();
    match Box::pin(f).as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}

/// Explore a program of operations: each thread's are run in order, and all
/// have to end without a panic.
fn explore<S, O: Clone + 'static>(
    st: &mut Stats,
    show: impl Fn(usize, usize) -> String,
    make: impl FnMut() -> (S, Vec<Vec<Call<O>>>),
    mut judge: impl FnMut(S, &Hist<O>, Vec<Vec<O>>) -> Res,
) -> Res {
    let ex = sched::explore(MAX, 5000, make, |s, h: &Hist<O>, end, schedule| {
        let order = || schedule.iter().map(|t| (b'A' + t) as char).collect::<String>();
        if end != End::Done {
            std::mem::forget(s);
            let at: Vec<String> = h.iter().enumerate().map(|(t, h)| format!("thread {} in or after {}", t, show(t, h.len()))).collect();
            return Err(Fail::from(format!("{:?}: {} (schedule {})", end, at.join(", "), order())));
        }
        let mut outs = vec![];
        for (t, l) in h.iter().enumerate() {
            let mut v = vec![];
            for (i, r) in l.iter().enumerate() {
                match &r.out {
                    Ok(x) => v.push(x.clone()),
                    Err(e) => return Err(Fail::from(format!("{} panicked: {} (schedule {})", show(t, i), e, order()))),
                }
            }
            outs.push(v);
        }
        judge(s, h, outs).map_err(|f| Fail { key: f.key, msg: format!("{} (schedule {})", f.msg, order()) })
    })?;
    st.schedules += ex.executions - ex.redundant;
    st.transitions += ex.steps;
    if !ex.complete {
        st.notes.push(format!("stopped at {} schedules of a program", MAX));
    }
    Ok(())
}

// ------------------------------------------------------------- subscriptions

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sub {
    Get(usize, u32),
    Subscribe(usize, u32),
    Unsubscribe(usize, u32),
    Remove(u32),
}

const KEYS: [&[u8]; 3] = [b"a", b"b", b""];

impl Sub {
    fn session(self) -> u32 {
        match self {
            Sub::Get(_, s) | Sub::Subscribe(_, s) | Sub::Unsubscribe(_, s) | Sub::Remove(s) => s,
        }
    }
    fn show(self) -> String {
        match self {
            Sub::Get(k, s) => format!("get {} {}", show(KEYS[k]), s),
            Sub::Subscribe(k, s) => format!("subscribe {} {}", show(KEYS[k]), s),
            Sub::Unsubscribe(k, s) => format!("unsubscribe {} {}", show(KEYS[k]), s),
            Sub::Remove(s) => format!("remove {}", s),
        }
    }
}

/// A subscription as the subscriber sees it: it may keep only a receiver, or
/// all of it.
struct Held {
    key: usize,
    session: u32,
    weak: Weak<Subscription>,
    rx: futures_rx::Rx,
    strong: Option<Arc<Subscription>>,
    /// How it ended.
    over: Option<Sub>,
}

mod futures_rx {
    use super::*;
    /// A receiver, asked whether its channel is closed.
    pub struct Rx(Box<dyn Fn() -> bool>);
    impl Rx {
        pub fn of(s: &Subscription) -> Rx {
            let r = s.receiver();
            Rx(Box::new(move || matches!(poll_once(r.receive()), Some(None))))
        }
        pub fn closed(&self) -> bool {
            (self.0)()
        }
    }
}

/// Run one on the manager; the model's answer is `subs`.
fn run_sub(ps: &PubSubManager, o: Sub, keep: bool, held: &mut Vec<Held>) -> Result<bool, String> {
    let id = |s: u32| SessionId::from_raw(s);
    match o {
        Sub::Get(k, s) => match ps.get(KEYS[k], id(s)) {
            None => Ok(false),
            Some(w) => {
                let a = w.upgrade().ok_or_else(|| format!("{} gave a subscription that is gone", o.show()))?;
                match held.iter().find(|h| h.key == k && h.session == s && h.over.is_none()) {
                    Some(h) if h.weak.ptr_eq(&w) => {}
                    _ => return Err(format!("{} gave a subscription that isn't the one made", o.show())),
                }
                if poll_once(a.sender().send(KeyUpdate::Renamed { to: b"x".to_vec() })).is_some() {
                    return Err(format!("{} gave a subscription which is closed", o.show()));
                }
                Ok(true)
            }
        },
        Sub::Subscribe(k, s) => match ps.subscribe(KEYS[k].to_vec(), id(s)) {
            None => Ok(false),
            Some(weak) => {
                let a = weak.upgrade().ok_or_else(|| format!("{} gave a subscription that is gone", o.show()))?;
                let rx = futures_rx::Rx::of(&a);
                held.push(Held { key: k, session: s, weak, rx, strong: keep.then_some(a), over: None });
                Ok(true)
            }
        },
        Sub::Unsubscribe(k, s) => {
            let r = ps.unsubscribe(KEYS[k], id(s));
            held.iter_mut().filter(|h| h.key == k && h.session == s && h.over.is_none()).for_each(|h| h.over = Some(o));
            Ok(r)
        }
        Sub::Remove(s) => {
            let r = ps.remove_session(id(s));
            held.iter_mut().filter(|h| h.session == s && h.over.is_none()).for_each(|h| h.over = Some(o));
            Ok(r)
        }
    }
}

fn model_sub(subs: &mut BTreeSet<(usize, u32)>, o: Sub) -> bool {
    match o {
        Sub::Get(k, s) => subs.contains(&(k, s)),
        Sub::Subscribe(k, s) => subs.insert((k, s)),
        Sub::Unsubscribe(k, s) => subs.remove(&(k, s)),
        Sub::Remove(s) => {
            let n = subs.len();
            subs.retain(|x| x.1 != s);
            subs.len() != n
        }
    }
}

/// The channels of those that ended are closed, and of no others.
fn channels(held: &[Held]) -> Result<(), String> {
    for h in held {
        let what = format!("the subscription of {} to {}", h.session, show(KEYS[h.key]));
        let there = h.weak.upgrade().is_some();
        match h.over {
            None => {
                if !there {
                    return Err(format!("{} is gone", what));
                }
                if h.rx.closed() {
                    return Err(format!("{} is closed", what));
                }
            }
            Some(o) => {
                if there != h.strong.is_some() {
                    return Err(format!("{} still exists after {}", what, o.show()));
                }
                // Who holds on to all of it keeps a sender alive, so that only
                // closing it ends it.
                if h.strong.is_none() || matches!(o, Sub::Remove(_)) {
                    if !h.rx.closed() {
                        return Err(format!("{} isn't closed after {}", what, o.show()));
                    }
                }
                if let (Some(a), Sub::Remove(_)) = (&h.strong, o) {
                    if !matches!(poll_once(a.sender().send(KeyUpdate::Renamed { to: b"x".to_vec() })), Some(Err(_))) {
                        return Err(format!("{} can be sent to after {}", what, o.show()));
                    }
                }
            }
        }
    }
    Ok(())
}

fn all_there(ps: &PubSubManager, subs: &BTreeSet<(usize, u32)>, sessions: &[u32]) -> Result<(), String> {
    for k in 0..KEYS.len() {
        for &s in sessions {
            let want = subs.contains(&(k, s));
            let got = ps.get(KEYS[k], SessionId::from_raw(s));
            if got.is_some() != want {
                return Err(format!("the subscription of {} to {} is {}", s, show(KEYS[k]), if want { "not found" } else { "found" }));
            }
            if got.map_or(false, |w| w.upgrade().is_none()) {
                return Err(format!("the subscription of {} to {} is gone", s, show(KEYS[k])));
            }
        }
    }
    Ok(())
}

fn sub_sequence(ops: &[Sub], keep: bool, shards: usize, sessions: &[u32], st: &mut Stats) -> Res {
    sched::set_shards(shards);
    sched::set_quiet(false);
    let ps = PubSubManager::default();
    let mut held = vec![];
    let mut subs = BTreeSet::new();
    for (i, &o) in ops.iter().enumerate() {
        // Through any handle.
        let h = if i % 2 == 0 { ps.clone() } else { ps.clone().clone() };
        let got = guarded(|| run_sub(&h, o, keep, &mut held)).and_then(|r| r)?;
        let want = model_sub(&mut subs, o);
        ensure!(got == want, "{} answered {}, expected {}", o.show(), got, want);
        channels(&held).map_err(|e| format!("after {}: {}", o.show(), e))?;
        st.transitions += 1;
    }
    st.state(h64(format!("{:?}", subs).as_bytes()));
    all_there(&ps, &subs, sessions)?;
    Ok(())
}

/// Many keys and sessions: all of the sessions subscribe to all of the keys, and
/// leave some of them in some way.
fn sub_wide(keys: &[Vec<u8>], sessions: &[u32], shards: usize, leave: usize, st: &mut Stats) -> Res {
    sched::set_shards(shards);
    sched::set_quiet(false);
    let ps = PubSubManager::default();
    let id = |s: u32| SessionId::from_raw(s);
    let mut held = BTreeMap::new();
    // Those that their subscriber keeps, which removing the session closes.
    let mut kept = BTreeMap::new();
    let keep = |k: usize, s: u32| (leave == 0 || leave == 3) && (k + s as usize) % 3 != 1;
    let all = |ps: &PubSubManager, held: &BTreeMap<(usize, u32), (Weak<Subscription>, futures_rx::Rx)>| -> Res {
        for (k, key) in keys.iter().enumerate() {
            for &s in sessions {
                let got = ps.get(key, id(s));
                match (held.get(&(k, s)), got) {
                    (None, None) => {}
                    (Some((w, rx)), Some(g)) => {
                        ensure!(w.ptr_eq(&g) && g.upgrade().is_some(), "key {}, session {}: not the subscription that was made", k, s);
                        ensure!(!rx.closed(), "key {}, session {}: the subscription is closed", k, s);
                    }
                    (a, _) => return Err(format!("key {}, session {}: the subscription is {}", k, s, if a.is_some() { "not found" } else { "found" }).into()),
                }
            }
            heartbeat();
        }
        Ok(())
    };
    for round in 0..2 {
        for (k, key) in keys.iter().enumerate() {
            for &s in sessions {
                st.transitions += 1;
                let there = held.contains_key(&(k, s));
                match ps.subscribe(key.clone(), id(s)) {
                    None => ensure!(there, "round {}: subscribing {} to key {} failed", round, s, k),
                    Some(w) => {
                        ensure!(!there, "round {}: {} was subscribed to key {} twice", round, s, k);
                        let a = w.upgrade().ok_or("a new subscription is gone")?;
                        let rx = futures_rx::Rx::of(&a);
                        held.insert((k, s), (w, rx));
                        if keep(k, s) {
                            kept.insert((k, s), a);
                        }
                    }
                }
            }
        }
        all(&ps, &held)?;
        // Which of them leave.
        let gone: Vec<(usize, u32)> = held.keys().copied().filter(|(k, s)| match leave {
            0 => sessions.iter().position(|x| x == s).unwrap() % 2 == 0,
            1 => k % 2 == 0,
            2 => *k + 1 == keys.len() && *s == *sessions.last().unwrap(),
            _ => true,
        }).collect();
        if leave == 0 || leave == 3 {
            for &s in sessions.iter().step_by(if leave == 0 { 2 } else { 1 }) {
                ensure!(ps.remove_session(id(s)), "round {}: removing session {} found no subscription", round, s);
                ensure!(!ps.remove_session(id(s)), "round {}: removing session {} again found one", round, s);
            }
        } else {
            for (k, s) in &gone {
                ensure!(ps.unsubscribe(&keys[*k], id(*s)), "round {}: unsubscribing {} from key {} found nothing", round, s, k);
                ensure!(!ps.unsubscribe(&keys[*k], id(*s)), "round {}: unsubscribing {} from key {} again found something", round, s, k);
            }
        }
        for x in gone {
            let (w, rx) = held.remove(&x).unwrap();
            ensure!(kept.contains_key(&x) || w.upgrade().is_none(), "round {}: key {}, session {}: the subscription still exists", round, x.0, x.1);
            ensure!(rx.closed(), "round {}: key {}, session {}: the channel isn't closed{}", round, x.0, x.1, if kept.contains_key(&x) { " although the session was removed" } else { "" });
            kept.remove(&x);
            if (x.0 + round) % 2 == 0 {
                ensure!(!ps.unsubscribe(&keys[x.0], id(x.1)), "round {}: unsubscribing {} from key {}, which it left, found something", round, x.1, x.0);
            }
        }
        all(&ps, &held)?;
    }
    st.state(h64(format!("{:?}", held.keys()).as_bytes()));
    Ok(())
}

/// A future that is polled by hand.
struct Polled<T> {
    f: std::pin::Pin<Box<dyn Future<Output = T>>>,
    woken: Arc<std::sync::atomic::AtomicUsize>,
    out: Option<T>,
}

impl<T> Polled<T> {
    fn of(f: impl Future<Output = T> + 'static) -> Polled<T> {
        let mut p = Polled { f: Box::pin(f), woken: Default::default(), out: None };
        p.poll();
        p
    }
    fn poll(&mut self) -> bool {
        struct Count(Arc<std::sync::atomic::AtomicUsize>);
        impl std::task::Wake for Count {
            fn wake(self: Arc<Self>) {
                self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            }
        }
        if self.out.is_none() {
            let w = Waker::from(Arc::new(Count(self.woken.clone())));
            if let Poll::Ready(x) = self.f.as_mut().poll(&mut Context::from_waker(&w)) {
                self.out = Some(x);
            }
        }
        self.out.is_some()
    }
    fn woken(&self) -> bool {
        self.woken.load(std::sync::atomic::Ordering::SeqCst) > 0
    }
}

/// Senders and receivers that wait on channels when their session is removed:
/// `senders` and `receivers` say how many wait on each key of it, the receivers
/// first if `first`.
fn sub_waiting(senders: &[usize], receivers: &[usize], first: bool, keep: bool, st: &mut Stats) -> Res {
    sched::set_shards(8);
    sched::set_quiet(false);
    let ps = PubSubManager::default();
    let (me, other) = (SessionId::from_raw(1), SessionId::from_raw(2));
    let key = |i: usize| vec![b'a' + i as u8];
    let msg = |i: usize, j: usize| vec![i as u8, j as u8];
    let (mut sends, mut recvs, mut kept, mut rest) = (vec![], vec![], vec![], vec![]);
    for i in 0..senders.len() {
        let a = ps.subscribe(key(i), me).and_then(|w| w.upgrade()).ok_or("not subscribed")?;
        let b = ps.subscribe(key(i), other).and_then(|w| w.upgrade()).ok_or("not subscribed")?;
        let rx = b.receiver();
        rest.push((i, Polled::of(async move { rx.receive().await }), b.sender()));
        for round in 0..2 {
            if (round == 0) == first {
                for j in 0..receivers[i] {
                    let rx = a.receiver();
                    recvs.push((i, j, Polled::of(async move { rx.receive().await })));
                }
            } else {
                for j in 0..senders[i] {
                    let tx = ps.get(&key(i), me).and_then(|w| w.upgrade()).ok_or("the subscription isn't found")?.sender();
                    let m = msg(i, j);
                    sends.push((i, j, Polled::of(async move { tx.send(KeyUpdate::Renamed { to: m }).await.is_ok() })));
                }
            }
        }
        if keep {
            kept.push(a);
        }
    }
    // What is sent is received in order, by as many as there are; who waits is told.
    for (i, j, r) in &mut recvs {
        let had = *j < senders[*i];
        ensure!(r.out.is_some() || r.woken() == had, "receiver {} of key {} was{} told of an update", j, i, if had { "n't" } else { "" });
    }
    let mut got: BTreeMap<usize, Vec<Vec<u8>>> = BTreeMap::new();
    for (i, _, r) in &mut recvs {
        if r.poll() {
            match &r.out {
                Some(Some(KeyUpdate::Renamed { to })) => got.entry(*i).or_default().push(to.clone()),
                _ => return Err("an open channel gave no update".into()),
            }
        }
    }
    for i in 0..senders.len() {
        let n = senders[i].min(receivers[i]);
        let want: Vec<Vec<u8>> = (0..n).map(|j| msg(i, j)).collect();
        let got = got.remove(&i).unwrap_or_default();
        ensure!(got == want, "of key {} the updates {:?} were received, expected {:?}", i, got, want);
    }
    for (i, j, s) in &mut sends {
        let done = *j < receivers[*i];
        ensure!(s.poll() == done && (!done || s.out == Some(true)), "the update {} of key {} is{} sent", j, i, if done { "n't" } else { "" });
    }
    st.transitions += 1;
    ensure!(guarded(|| ps.remove_session(me))?, "removing the session found no subscription");
    for (i, j, s) in &mut sends {
        if *j >= receivers[*i] {
            ensure!(s.woken() && s.poll() && s.out == Some(false), "sender {} of key {} waits on although the session has left", j, i);
        }
    }
    for (i, j, r) in &mut recvs {
        if *j >= senders[*i] {
            ensure!(r.woken() && r.poll() && matches!(r.out, Some(None)), "receiver {} of key {} waits on although the session has left", j, i);
        }
    }
    for (i, r, tx) in &mut rest {
        ensure!(!r.poll(), "the other session's receiver of key {} ended", i);
        let tx = tx.clone();
        let mut s = Polled::of(async move { tx.send(KeyUpdate::Renamed { to: b"x".to_vec() }).await.is_ok() });
        ensure!(r.poll() && matches!(&r.out, Some(Some(KeyUpdate::Renamed { to })) if to == b"x"), "the other session doesn't receive of key {}", i);
        ensure!(s.poll() && s.out == Some(true), "the other session's update of key {} isn't sent", i);
    }
    for a in kept {
        let (tx, rx) = (a.sender(), a.receiver());
        ensure!(matches!(Polled::of(async move { rx.receive().await }).out, Some(None)), "a closed channel can be received from");
        ensure!(matches!(Polled::of(async move { tx.send(KeyUpdate::Renamed { to: vec![] }).await.is_ok() }).out, Some(false)), "a closed channel can be sent to");
    }
    st.state(h64(format!("{:?}{:?}", senders, receivers).as_bytes()));
    Ok(())
}

type SubOut = Result<bool, String>;

/// Threads of different sessions: each sees its own subscriptions only, so that
/// it gets the same answers as on its own.
fn sub_program(init: &[Sub], threads: &[Vec<Sub>], keep: bool, shards: usize, sessions: &[u32], st: &mut Stats) -> Res {
    sched::set_shards(shards);
    sched::set_quiet(false);
    let mut want_all = BTreeSet::new();
    for o in init {
        model_sub(&mut want_all, *o);
    }
    let mut want = vec![];
    for t in threads {
        let mut v = vec![];
        for o in t {
            v.push(model_sub(&mut want_all, *o));
        }
        want.push(v);
    }
    let mut outcomes = HashSet::new();
    explore(
        st,
        |t, i| threads[t].get(i).map_or("the end".into(), |o| o.show()),
        || {
            let ps = PubSubManager::default();
            let mut first: Vec<Held> = vec![];
            for o in init {
                let _ = run_sub(&ps, *o, keep, &mut first);
            }
            // What a thread's session holds is its thread's.
            let mut held: Vec<Rc<RefCell<Vec<Held>>>> = threads.iter().map(|_| Rc::new(RefCell::new(vec![]))).collect();
            for h in first {
                if let Some(t) = threads.iter().position(|t| t.iter().any(|o| o.session() == h.session)) {
                    held[t].borrow_mut().push(h);
                } else {
                    let rest = Rc::new(RefCell::new(vec![h]));
                    held.push(rest);
                }
            }
            let calls = threads
                .iter()
                .enumerate()
                .map(|(t, ops)| {
                    ops.iter()
                        .map(|&o| {
                            let (ps, held) = (ps.clone(), held[t].clone());
                            Box::new(move || {
                                let mut h = std::mem::take(&mut *held.borrow_mut());
                                let r = run_sub(&ps, o, keep, &mut h);
                                *held.borrow_mut() = h;
                                r
                            }) as Call<SubOut>
                        })
                        .collect()
                })
                .collect();
            ((ps, held), calls)
        },
        |(ps, held), _, outs| {
            for (t, l) in outs.iter().enumerate() {
                for (i, o) in l.iter().enumerate() {
                    let got = o.clone()?;
                    ensure!(got == want[t][i], "{} answered {}, expected {}", threads[t][i].show(), got, want[t][i]);
                }
            }
            for h in &held {
                channels(&h.borrow())?;
            }
            all_there(&ps, &want_all, sessions)?;
            // What is left ends with its session.
            for &s in sessions {
                let was = want_all.iter().any(|x| x.1 == s);
                ensure!(ps.remove_session(SessionId::from_raw(s)) == was, "afterwards, removing {} gave {}", s, !was);
                for h in &held {
                    h.borrow_mut().iter_mut().filter(|h| h.session == s && h.over.is_none()).for_each(|h| h.over = Some(Sub::Remove(s)));
                }
            }
            for h in &held {
                channels(&h.borrow()).map_err(|e| format!("afterwards, {}", e))?;
            }
            outcomes.insert(h64(format!("{:?}", outs).as_bytes()));
            Ok(())
        },
    )?;
    st.state(h64(format!("{:?}", want_all).as_bytes()));
    Ok(())
}

/// What an operation of threads that share sessions gave.
#[derive(Clone)]
enum Shared {
    Is(bool),
    Made(Option<(Weak<Subscription>, Rc<futures_rx::Rx>)>),
    Found(Option<Weak<Subscription>>),
}

/// The same with each subscription as the place of the operation that made it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Named {
    Is(bool),
    Made(bool),
    Found(Option<usize>),
}

type Subs = BTreeMap<(usize, u32), usize>;

fn shared_model(subs: &mut Subs, o: Sub, me: usize) -> Named {
    match o {
        Sub::Get(k, s) => Named::Found(subs.get(&(k, s)).copied()),
        Sub::Subscribe(k, s) => Named::Made(match subs.entry((k, s)) {
            std::collections::btree_map::Entry::Occupied(_) => false,
            std::collections::btree_map::Entry::Vacant(v) => {
                v.insert(me);
                true
            }
        }),
        Sub::Unsubscribe(k, s) => Named::Is(subs.remove(&(k, s)).is_some()),
        Sub::Remove(s) => {
            let n = subs.len();
            subs.retain(|x, _| x.1 != s);
            Named::Is(subs.len() != n)
        }
    }
}

/// Whether some order of the operations, of which each comes after those in its
/// mask, gives these results and end.
fn shared_explained(ops: &[(Sub, Named)], after: &[u32], first: &Subs, end: &Subs, base: usize) -> bool {
    fn go(ops: &[(Sub, Named)], after: &[u32], done: u32, subs: &Subs, end: &Subs, base: usize) -> bool {
        if done == (1 << ops.len()) - 1 {
            return subs == end;
        }
        (0..ops.len()).any(|i| {
            if done >> i & 1 == 1 || after[i] & !done != 0 {
                return false;
            }
            let mut subs = subs.clone();
            shared_model(&mut subs, ops[i].0, base + i) == ops[i].1 && go(ops, after, done | 1 << i, &subs, end, base)
        })
    }
    go(ops, after, 0, first, end, base)
}

/// Threads of which several can act for one session: their results and what is
/// there in the end are those of some order of their operations.
fn shared_program(init: &[Sub], threads: &[Vec<Sub>], shards: usize, sessions: &[u32], st: &mut Stats) -> Res {
    sched::set_shards(shards);
    sched::set_quiet(false);
    fn run(ps: &PubSubManager, o: Sub) -> Shared {
        let id = |s: u32| SessionId::from_raw(s);
        match o {
            Sub::Get(k, s) => Shared::Found(ps.get(KEYS[k], id(s))),
            Sub::Subscribe(k, s) => Shared::Made(ps.subscribe(KEYS[k].to_vec(), id(s)).map(|w| {
                let rx = Rc::new(futures_rx::Rx::of(&w.upgrade().expect("made a subscription that is gone")));
                (w, rx)
            })),
            Sub::Unsubscribe(k, s) => Shared::Is(ps.unsubscribe(KEYS[k], id(s))),
            Sub::Remove(s) => Shared::Is(ps.remove_session(id(s))),
        }
    }
    let mut seen = HashSet::new();
    let mut states = vec![];
    explore(
        st,
        |t, i| threads[t].get(i).map_or("the end".into(), |o| o.show()),
        || {
            let ps = PubSubManager::default();
            let first: Vec<Shared> = init.iter().map(|o| run(&ps, *o)).collect();
            let calls = threads
                .iter()
                .map(|ops| {
                    ops.iter()
                        .map(|&o| {
                            let ps = ps.clone();
                            Box::new(move || run(&ps, o)) as Call<Shared>
                        })
                        .collect()
                })
                .collect();
            ((ps, first), calls)
        },
        |(ps, first), h, outs| {
            let (mut all, mut recs) = (vec![], vec![]);
            let mut made = vec![];
            for o in &first {
                made.push(if let Shared::Made(Some(m)) = o { Some(m.clone()) } else { None });
            }
            let base = made.len();
            for (t, l) in outs.into_iter().enumerate() {
                for (i, o) in l.into_iter().enumerate() {
                    made.push(if let Shared::Made(Some(m)) = &o { Some(m.clone()) } else { None });
                    all.push((threads[t][i], o));
                    recs.push((t, h[t][i].begin, h[t][i].end));
                }
            }
            let place = |w: &Weak<Subscription>| made.iter().position(|m| m.as_ref().map_or(false, |m| m.0.ptr_eq(w)));
            let mut ops = vec![];
            for (o, r) in &all {
                let n = match r {
                    Shared::Is(b) => Named::Is(*b),
                    Shared::Made(m) => Named::Made(m.is_some()),
                    Shared::Found(None) => Named::Found(None),
                    Shared::Found(Some(w)) => Named::Found(Some(place(w).ok_or_else(|| format!("{} found a subscription that nobody made", o.show()))?)),
                };
                ops.push((*o, n));
            }
            let after: Vec<u32> = (0..recs.len())
                .map(|i| (0..recs.len()).filter(|j| *j != i && (recs[*j].0 == recs[i].0 && *j < i || recs[*j].0 != recs[i].0 && recs[*j].2 < recs[i].1)).map(|j| 1 << j).sum())
                .collect();
            let mut before = Subs::new();
            for (i, o) in init.iter().enumerate() {
                shared_model(&mut before, *o, i);
            }
            let mut end = Subs::new();
            for k in 0..KEYS.len() {
                for &s in sessions {
                    if let Some(w) = ps.get(KEYS[k], SessionId::from_raw(s)) {
                        end.insert((k, s), place(&w).ok_or_else(|| format!("{} is subscribed to {} although nobody did so", s, show(KEYS[k])))?);
                    }
                }
            }
            for (i, m) in made.iter().enumerate() {
                if let Some((w, rx)) = m {
                    let there = end.values().any(|x| *x == i);
                    ensure!(w.upgrade().is_some() == there, "a subscription that {} in the end is{} there", if there { "is found" } else { "isn't found" }, if there { "n't" } else { "" });
                    ensure!(rx.closed() != there, "a subscription that {} in the end is{} closed", if there { "is found" } else { "isn't found" }, if there { "" } else { "n't" });
                }
            }
            if seen.insert(h64(format!("{:?}{:?}{:?}", ops, after, end).as_bytes())) {
                states.push(h64(format!("{:?}", end.keys().collect::<Vec<_>>()).as_bytes()));
                ensure!(shared_explained(&ops, &after, &before, &end, base), "no order explains {:?} with {:?} at the end", ops, end);
            }
            // What is left ends like any other.
            for &s in sessions {
                for k in 0..KEYS.len() {
                    if (k + s as usize) % 2 == 0 {
                        let was = end.remove(&(k, s)).is_some();
                        ensure!(ps.unsubscribe(KEYS[k], SessionId::from_raw(s)) == was, "afterwards, unsubscribing {} from {} gave {}", s, show(KEYS[k]), !was);
                    }
                }
                let was = end.keys().any(|x| x.1 == s);
                ensure!(ps.remove_session(SessionId::from_raw(s)) == was, "afterwards, removing {} gave {}", s, !was);
                for k in 0..KEYS.len() {
                    ensure!(!ps.unsubscribe(KEYS[k], SessionId::from_raw(s)), "{} can be unsubscribed from {} when it has left", s, show(KEYS[k]));
                }
            }
            ensure!(made.iter().flatten().all(|(w, rx)| w.upgrade().is_none() && rx.closed()), "a subscription is left when all sessions have left");
            Ok(())
        },
    )?;
    states.into_iter().for_each(|s| st.state(s));
    Ok(())
}

/// Programs of threads that can each act for each of the sessions.
fn shared_programs(w: &mut W, lens: &[usize], keys: usize, sessions: &[u32], inits: &[Vec<Sub>], shards: &[usize]) {
    let ops = sub_ops(keys, sessions);
    let lists: Vec<Vec<Vec<Sub>>> = lens
        .iter()
        .map(|n| {
            let mut l = vec![];
            sequences(ops.len(), *n, |s| l.push(s.iter().map(|i| ops[*i]).collect()));
            l
        })
        .collect();
    for init in inits {
        let mut pick = vec![0; lens.len()];
        'all: loop {
            // Threads with as many operations are alike.
            if (1..pick.len()).all(|t| lens[t] != lens[t - 1] || pick[t - 1] <= pick[t]) {
                let threads: Vec<Vec<Sub>> = pick.iter().enumerate().map(|(t, i)| lists[t][*i].clone()).collect();
                for &sh in shards {
                    w.case(
                        || format!("{} shards, shared | after {} | {}", sh, show_subs(init), threads.iter().map(|t| show_subs(t)).collect::<Vec<_>>().join(" || ")),
                        |st| shared_program(init, &threads, sh, sessions, st),
                    );
                }
            }
            let mut t = 0;
            loop {
                if t == pick.len() {
                    break 'all;
                }
                pick[t] += 1;
                if pick[t] < lists[t].len() {
                    break;
                }
                pick[t] = 0;
                t += 1;
            }
        }
    }
}

fn sub_ops(keys: usize, sessions: &[u32]) -> Vec<Sub> {
    let mut v = vec![];
    for &s in sessions {
        for k in 0..keys {
            v.extend([Sub::Subscribe(k, s), Sub::Unsubscribe(k, s), Sub::Get(k, s)]);
        }
        v.push(Sub::Remove(s));
    }
    v
}

fn show_subs(l: &[Sub]) -> String {
    l.iter().map(|o| o.show()).collect::<Vec<_>>().join("; ")
}

/// Programs of threads each with a session of its own.
fn sub_programs(w: &mut W, lens: &[usize], keys: usize, inits: &[Vec<Sub>], shards: &[usize], keeps: &[bool]) {
    let lists: Vec<Vec<Vec<Sub>>> = lens
        .iter()
        .enumerate()
        .map(|(t, n)| {
            let ops: Vec<Sub> = sub_ops(keys, &[t as u32 + 1]).into_iter().filter(|o| *n > 1 || !matches!(o, Sub::Get(..))).collect();
            let mut l = vec![];
            sequences(ops.len(), *n, |s| l.push(s.iter().map(|i| ops[*i]).collect()));
            l
        })
        .collect();
    let sessions: Vec<u32> = (1..=lens.len() as u32).collect();
    for init in inits {
        let mut pick = vec![0; lens.len()];
        'all: loop {
            let threads: Vec<Vec<Sub>> = pick.iter().enumerate().map(|(t, i)| lists[t][*i].clone()).collect();
            for &sh in shards {
                for &keep in keeps {
                    w.case(
                        || format!("{} shards, {} | after {} | {}", sh, if keep { "held" } else { "not held" }, show_subs(init), threads.iter().map(|t| show_subs(t)).collect::<Vec<_>>().join(" || ")),
                        |st| sub_program(init, &threads, keep, sh, &sessions, st),
                    );
                }
            }
            let mut t = 0;
            loop {
                if t == pick.len() {
                    break 'all;
                }
                pick[t] += 1;
                if pick[t] < lists[t].len() {
                    break;
                }
                pick[t] = 0;
                t += 1;
            }
        }
    }
}

fn sub_inits(keys: usize, sessions: &[u32]) -> Vec<Vec<Sub>> {
    let all: Vec<Sub> = sessions.iter().flat_map(|s| (0..keys).map(move |k| Sub::Subscribe(k, *s))).collect();
    let mut v = vec![];
    for m in 0u32..1 << all.len() {
        v.push((0..all.len()).filter(|i| m >> i & 1 == 1).map(|i| all[i]).collect());
    }
    v
}

pub fn c22(t: Tier) -> Check {
    Check::new("a sequence of subscription operations, or a program of them on threads of different sessions, or the same ones, in every schedule; states: sets of subscriptions at the end")
        .assume("memory is sequentially consistent; a thread is only preempted before taking a shard's lock or an atomic operation")
        .assume("a channel whose subscriber keeps the whole subscription is closed by removing the session, not necessarily by unsubscribing")
        .sub("all_sequences", move |w| {
            let ops = sub_ops(2, &[1, 2]);
            for n in 0..=t.pick(4, 6) {
                sequences(ops.len(), n, |s| {
                    let l: Vec<Sub> = s.iter().map(|i| ops[*i]).collect();
                    w.case(|| show_subs(&l), |st| sub_sequence(&l, false, 1, &[1, 2], st));
                });
            }
        })
        .sub("sequences_of_held", move |w| {
            let ops = sub_ops(2, &[1, 2]);
            for n in 0..=t.pick(4, 5) {
                sequences(ops.len(), n, |s| {
                    let l: Vec<Sub> = s.iter().map(|i| ops[*i]).collect();
                    w.case(|| show_subs(&l), |st| sub_sequence(&l, true, 8, &[1, 2], st));
                });
            }
        })
        .sub("more_keys_and_sessions", move |w| {
            let ops = sub_ops(3, &[0, 1, u32::MAX]);
            for n in 0..=t.pick(3, 4) {
                sequences(ops.len(), n, |s| {
                    let l: Vec<Sub> = s.iter().map(|i| ops[*i]).collect();
                    w.case(|| show_subs(&l), |st| sub_sequence(&l, false, 8, &[0, 1, u32::MAX], st));
                });
            }
        })
        .sub("long_histories", move |w| {
            // A pattern again and again, so that nothing is left behind by it.
            let ops = sub_ops(1, &[1, 2]);
            for n in 1..=t.pick(4, 5) {
                sequences(ops.len(), n, |s| {
                    let p: Vec<Sub> = s.iter().map(|i| ops[*i]).collect();
                    let l: Vec<Sub> = p.iter().cycle().take(40).copied().collect();
                    w.case(|| format!("again and again: {}", show_subs(&p)), |st| sub_sequence(&l, false, 1, &[1, 2], st));
                });
            }
        })
        .sub("waiting", move |w| {
            for keys in 1..=t.pick(2, 3) {
                let max = t.pick(4, 5);
                sequences(max * max, keys, |s| {
                    let (snd, rcv): (Vec<usize>, Vec<usize>) = s.iter().map(|x| (x % max, x / max)).unzip();
                    for first in [false, true] {
                        for keep in [false, true] {
                            w.case(
                                || format!("{:?} senders and {:?} receivers wait, the {} first, {}", snd, rcv, if first { "receivers" } else { "senders" }, if keep { "held" } else { "not held" }),
                                |st| sub_waiting(&snd, &rcv, first, keep, st),
                            );
                        }
                    }
                });
            }
        })
        .sub("many", move |w| {
            let nth: Vec<fn(u32) -> u32> = vec![|i| i, |i| i << 16, |i| u32::MAX - i];
            let named: Vec<fn(usize) -> Vec<u8>> = vec![
                |i| (i as u16).to_be_bytes().to_vec(),
                |i| vec![b'k'; i],
                |i| [vec![b'k'; 300], (i as u32).to_le_bytes().to_vec()].concat(),
            ];
            for leave in 0..4 {
                for shards in [1, 8] {
                    for (ni, id) in nth.iter().enumerate() {
                        for (ki, key) in named.iter().enumerate() {
                            for (nk, ns) in (1..=40).map(|n| (n, 1u32)).chain((2..=40).map(|n| (2, n))).chain([
                                (63, 2), (64, 2), (65, 2), (100, 2), (127, 2), (128, 3), (129, 2), (255, 1), (256, 2), (257, 1), (1000, 1), (1025, 2),
                                (1, 63), (2, 64), (2, 65), (2, 100), (1, 127), (3, 128), (2, 129), (1, 255), (2, 256), (1, 257), (1, 1000), (2, 1025),
                                (20, 20), (33, 33),
                            ]) {
                                // The longer ones once.
                                if (nk + ns as usize > 90) && (leave + ni + ki + shards) % 3 != 0 {
                                    continue;
                                }
                                let keys: Vec<Vec<u8>> = (0..nk).map(key).collect();
                                let sessions: Vec<u32> = (0..ns).map(id).collect();
                                w.case(
                                    || format!("{} keys (kind {}), {} sessions from {}, {} shards, leaving in way {}", nk, ki, ns, id(0), shards, leave),
                                    |st| sub_wide(&keys, &sessions, shards, leave, st),
                                );
                            }
                        }
                    }
                }
            }
        })
        .sub("two_threads", move |w| sub_programs(w, &[1, 1], 2, &sub_inits(2, &[1, 2]), &[1, 8], &[false, true]))
        .sub("two_threads_of_two", move |w| sub_programs(w, &[2, 2], 2, &sub_inits(2, &[1, 2]), t.pick(&[1], &[1, 8]), t.pick(&[false], &[false, true])))
        .sub("three_threads", move |w| sub_programs(w, &[1, 1, 1], 2, &sub_inits(1, &[1, 2, 3]), &[1, 8], &[false]))
        .sub("shared_two", move |w| {
            shared_programs(w, &[1, 1], 2, &[1, 2], &sub_inits(2, &[1, 2]), &[1, 8]);
            shared_programs(w, &[1, 2], 2, &[1], &sub_inits(2, &[1]), &[1, 8]);
            shared_programs(w, &[1, 2], 1, &[1, 2], &sub_inits(1, &[1, 2]), &[1, 8]);
        })
        .sub("shared_two_of_two", move |w| {
            shared_programs(w, &[2, 2], 1, &[1], &sub_inits(1, &[1]), &[1, 8]);
            shared_programs(w, &[2, 2], 2, &[1], &sub_inits(2, &[1]), t.pick(&[1], &[1, 8]));
            shared_programs(w, &[2, 3], 1, &[1], &sub_inits(1, &[1]), &[1]);
            if t.pick(false, true) {
                shared_programs(w, &[2, 2], 2, &[1, 2], &sub_inits(1, &[1, 2]), &[1]);
                shared_programs(w, &[3, 3], 1, &[1], &sub_inits(1, &[1]), &[1]);
            }
        })
        .sub("shared_three", move |w| {
            shared_programs(w, &[1, 1, 1], 2, &[1], &sub_inits(1, &[1]), &[1, 8]);
            shared_programs(w, &[1, 1, t.pick(1, 2)], 1, &[1, 2], &sub_inits(1, &[1, 2]), &[1]);
            shared_programs(w, &[1, 1, 2], 1, &[1], &sub_inits(1, &[1]), &[1, 8]);
        })
        .sub("two_threads_of_three", move |w| sub_programs(w, &[3, t.pick(2, 3)], 1, &sub_inits(1, &[1, 2]), &[1, 8], &[false]))
}

// ------------------------------------------------------------------ sessions

#[derive(Clone, Copy, Debug)]
enum Ses {
    Add,
    /// The nth that was added, whether or not it has been removed.
    Remove(usize),
    /// An id that was not given out.
    RemoveOther,
}

fn show_ses(l: &[Ses]) -> String {
    l.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join(" ")
}

fn token(n: u8) -> [u8; 32] {
    let mut t = [n; 32];
    t[31] = !n;
    t
}

fn add(m: &mut SessionManager, tok: [u8; 32]) -> Result<u32, String> {
    let r = m.add(tok);
    let id = *r.key();
    if r.value().id != id {
        return Err(format!("a session with id {} is stored under {}", r.value().id, id));
    }
    if r.value().client_token != tok {
        return Err(format!("session {} has another token than it was added with", id));
    }
    Ok(id)
}

fn ses_sequence(ops: &[Ses], shards: usize, st: &mut Stats) -> Res {
    sched::set_shards(shards);
    sched::set_quiet(false);
    let metrics = Metrics::new();
    let mut m = SessionManager::new(metrics.writer());
    let mut other = m.clone();
    let mut ids: Vec<u32> = vec![];
    let mut active: BTreeSet<u32> = BTreeSet::new();
    let (mut started, mut ended) = (0, 0);
    for (i, o) in ops.iter().enumerate() {
        let m = if i % 2 == 0 { &mut m } else { &mut other };
        match *o {
            Ses::Add => {
                let id = guarded(|| add(m, token(i as u8))).and_then(|r| r)?;
                ensure!(active.insert(id), "an added session got the id {} of another", id);
                ids.push(id);
                started += 1;
            }
            Ses::Remove(n) => {
                let Some(&id) = ids.get(n) else { continue };
                let got = guarded(|| m.remove(id))?;
                let want = active.remove(&id);
                ensure!(got == want, "removing session {} ({} of those added) gave {}", id, n, got);
                ended += want as u64;
            }
            Ses::RemoveOther => {
                let Some(id) = (0..).chain([u32::MAX]).find(|x| !ids.contains(x)) else { continue };
                ensure!(!guarded(|| m.remove(id))?, "removed a session {} that wasn't added", id);
            }
        }
        st.transitions += 1;
        let r = metrics.reader();
        let (s, e) = (r.counter(&Metric::SessionsStarted).unwrap_or(0), r.counter(&Metric::SessionsEnded).unwrap_or(0));
        ensure!(s == started && e == ended, "{} sessions are counted as started and {} as ended, expected {} and {}", s, e, started, ended);
    }
    st.state(h64(format!("{:?}", active).as_bytes()));
    for id in active {
        ensure!(m.remove(id), "session {} is gone", id);
        ensure!(!m.remove(id), "session {} can be removed twice", id);
    }
    Ok(())
}

/// Operations of one thread: an add's session can be removed by it later, and
/// any thread can remove one of the first ones.
#[derive(Clone, Copy, Debug, PartialEq)]
enum SesT {
    Add,
    /// The last one this thread added.
    RemoveMine,
    /// One that was there at first.
    RemoveFirst(usize),
}

fn ses_program(first: usize, threads: &[Vec<SesT>], shards: usize, wrapped: bool, st: &mut Stats) -> Res {
    sched::set_shards(shards);
    sched::set_quiet(false);
    let show_t = |t: usize, i: usize| threads[t].get(i).map_or("the end".into(), |o| format!("{:?}", o));
    explore(
        st,
        show_t,
        || {
            let metrics: Metrics<Metric> = Metrics::new();
            let mut m = SessionManager::new(metrics.writer());
            let ids: Vec<u32> = (0..first).map(|i| add(&mut m, token(i as u8)).unwrap()).collect();
            if wrapped {
                poke(&mut m);
            }
            let r = metrics.reader();
            let first = (r.counter(&Metric::SessionsStarted).unwrap_or(0), r.counter(&Metric::SessionsEnded).unwrap_or(0));
            let calls = threads
                .iter()
                .enumerate()
                .map(|(t, ops)| {
                    let mine: Rc<RefCell<Vec<u32>>> = Rc::default();
                    ops.iter()
                        .enumerate()
                        .map(|(i, &o)| {
                            let (mut m, mine, ids) = (m.clone(), mine.clone(), ids.clone());
                            Box::new(move || match o {
                                SesT::Add => {
                                    let id = add(&mut m, token((16 * t + i) as u8))?;
                                    mine.borrow_mut().push(id);
                                    Ok((Some(id), true))
                                }
                                SesT::RemoveMine => {
                                    let last = mine.borrow_mut().pop();
                                    match last {
                                        Some(id) => Ok((Some(id), m.remove(id))),
                                        None => Ok((None, true)),
                                    }
                                }
                                SesT::RemoveFirst(n) => Ok((Some(ids[n]), m.remove(ids[n]))),
                            }) as Call<Result<(Option<u32>, bool), String>>
                        })
                        .collect()
                })
                .collect();
            ((metrics, m, ids, first), calls)
        },
        |(metrics, m, ids, first), h, outs| {
            let (mut started, mut ended) = first;
            // (id, when it was added, when it was removed): of its own thread,
            // which removes it again.
            let mut spans: Vec<(u32, u64, u64, u64, u64)> = vec![];
            let mut removals = vec![0; ids.len()];
            let mut tries = vec![0; ids.len()];
            for (t, l) in outs.iter().enumerate() {
                let mut mine: Vec<usize> = vec![];
                for (i, o) in l.iter().enumerate() {
                    let (id, ok) = o.clone()?;
                    let r = &h[t][i];
                    match threads[t][i] {
                        SesT::Add => {
                            started += 1;
                            mine.push(spans.len());
                            spans.push((id.unwrap(), r.begin, r.end, u64::MAX, u64::MAX));
                        }
                        SesT::RemoveMine => {
                            if let Some(x) = mine.pop() {
                                ensure!(ok, "session {} couldn't be removed by the one who added it", id.unwrap());
                                spans[x].3 = r.begin;
                                spans[x].4 = r.end;
                                ended += 1;
                            }
                        }
                        SesT::RemoveFirst(n) => {
                            tries[n] += 1;
                            removals[n] += ok as u32;
                            ended += ok as u64;
                        }
                    }
                }
            }
            for n in 0..ids.len() {
                ensure!(removals[n] == tries[n].min(1), "session {} was removed {} times", ids[n], removals[n]);
            }
            for (i, x) in spans.iter().enumerate() {
                for y in &spans[..i] {
                    // Two with the same id have to have been one after the other.
                    let apart = x.3 != u64::MAX && x.3 <= y.2 || y.3 != u64::MAX && y.3 <= x.2;
                    ensure!(x.0 != y.0 || apart, "two active sessions have the id {}", x.0);
                }
                for (n, id) in ids.iter().enumerate() {
                    ensure!(x.0 != *id || removals[n] > 0, "an added session got the id {} of another", id);
                }
            }
            let r = metrics.reader();
            let (s, e) = (r.counter(&Metric::SessionsStarted).unwrap_or(0), r.counter(&Metric::SessionsEnded).unwrap_or(0));
            ensure!(s == started && e == ended, "{} sessions are counted as started and {} as ended, expected {} and {}", s, e, started, ended);
            let mut left: Vec<u32> = spans.iter().filter(|x| x.3 == u64::MAX).map(|x| x.0).collect();
            left.extend((0..ids.len()).filter(|n| removals[*n] == 0).map(|n| ids[n]));
            for id in left {
                ensure!(m.remove(id), "session {} is gone", id);
                ensure!(!m.remove(id), "session {} can be removed twice", id);
            }
            Ok(())
        },
    )
}

/// Let the manager have given out all ids but a few, as if that many sessions
/// had been added and removed: if it counts them with one 32-bit atomic.
fn poke(m: &mut SessionManager) -> bool {
    sched::take_atomics();
    let a = add(m, token(1));
    let at = sched::take_atomics();
    let Ok(id) = a else { return false };
    m.remove(id);
    match at.as_slice() {
        [(p, 4)] => {
            let a = unsafe { &*(*p as *const std::sync::atomic::AtomicU32) };
            let v = a.load(std::sync::atomic::Ordering::SeqCst);
            if v == id.wrapping_add(1) {
                a.store(u32::MAX - 1, std::sync::atomic::Ordering::SeqCst);
                return true;
            }
            false
        }
        _ => false,
    }
}

fn ses_lists(first: usize, n: usize) -> Vec<Vec<SesT>> {
    let mut ops = vec![SesT::Add, SesT::RemoveMine];
    ops.extend((0..first).map(SesT::RemoveFirst));
    let mut l = vec![];
    sequences(ops.len(), n, |s| {
        let x: Vec<SesT> = s.iter().map(|i| ops[*i]).collect();
        let mut depth = 0;
        let ok = x.iter().all(|o| match o {
            SesT::Add => {
                depth += 1;
                true
            }
            SesT::RemoveMine => {
                depth -= 1;
                depth >= 0
            }
            _ => true,
        });
        if ok {
            l.push(x)
        }
    });
    l
}

fn ses_programs(w: &mut W, first: usize, lens: &[usize], shards: &[usize], wrapped: bool) {
    let lists: Vec<_> = lens.iter().map(|n| ses_lists(first, *n)).collect();
    let mut pick = vec![0; lens.len()];
    'all: loop {
        if (1..pick.len()).all(|t| lens[t] != lens[t - 1] || pick[t - 1] <= pick[t]) {
            let threads: Vec<Vec<SesT>> = pick.iter().enumerate().map(|(t, i)| lists[t][*i].clone()).collect();
            // An id that is given out again can be removed again.
            let count = |o: SesT| threads.iter().flatten().filter(|x| **x == o).count();
            let again = wrapped && count(SesT::Add) > 2 && (0..first).any(|n| count(SesT::RemoveFirst(n)) > 1);
            for &sh in shards.iter().filter(|_| !again) {
                w.case(|| format!("{} shards, {} sessions at first{} | {:?}", sh, first, if wrapped { ", ids about to be used up" } else { "" }, threads), |st| ses_program(first, &threads, sh, wrapped, st));
            }
        }
        let mut t = 0;
        loop {
            if t == pick.len() {
                break 'all;
            }
            pick[t] += 1;
            if pick[t] < lists[t].len() {
                break;
            }
            pick[t] = 0;
            t += 1;
        }
    }
}

pub fn c23(t: Tier) -> Check {
    Check::new("a sequence of adding and removing sessions, or a program of them on several threads in every schedule; states: sets of active ids at the end")
        .assume("memory is sequentially consistent; a thread is only preempted before taking a shard's lock or an atomic operation")
        .assume("that ids start over after 2^32 sessions is reached by setting the counter")
        .sub("all_sequences", move |w| {
            let ops = [Ses::Add, Ses::Remove(0), Ses::Remove(1), Ses::Remove(2), Ses::RemoveOther];
            for n in 0..=t.pick(8, 9) {
                sequences(ops.len(), n, |s| {
                    let l: Vec<Ses> = s.iter().map(|i| ops[*i]).collect();
                    w.case(|| show_ses(&l), |st| ses_sequence(&l, [1, 8][n % 2], st));
                });
            }
        })
        .sub("many", move |w| {
            // All added, some removed, and all again.
            for every in 1..=8usize {
                for n in [1usize, 2, 10, 100, 300] {
                    let mut l: Vec<Ses> = (0..n).map(|_| Ses::Add).collect();
                    l.extend((0..n).step_by(every).map(Ses::Remove));
                    l.extend((0..n).map(|_| Ses::Add));
                    l.extend((0..2 * n).rev().map(Ses::Remove));
                    l.extend((0..2 * n).map(Ses::Remove));
                    w.case(|| format!("{} added, every {} removed, and again", n, every), |st| ses_sequence(&l, 8, st));
                }
            }
        })
        .sub("very_many", move |w| {
            for n in [1000, 4097, 65_535, 65_536, 65_537, t.pick(1 << 20, 1 << 21)] {
                for sh in [1, 8] {
                    w.case(|| format!("{} sessions at once", n), |st| ses_many(n, sh, st));
                }
            }
        })
        .sub("ids_used_up", move |w| {
            for first in 0..=4usize {
                for sh in [1, 8] {
                    for order in 0..2 {
                        w.case(|| format!("{} sessions, then all ids used up", first), |st| {
                            sched::set_shards(sh);
                            let metrics = Metrics::new();
                            let mut m = SessionManager::new(metrics.writer());
                            let mut active: BTreeSet<u32> = (0..first).map(|i| add(&mut m, token(i as u8)).unwrap()).collect();
                            if !poke(&mut m) {
                                st.notes.push("ids aren't counted with one 32-bit atomic: starting over isn't explored".into());
                                return Ok(());
                            }
                            for i in 0..6 {
                                let id = guarded(|| add(&mut m, token(i))).and_then(|r| r)?;
                                ensure!(active.insert(id), "an added session got the id {} of another", id);
                                st.transitions += 1;
                            }
                            let l: Vec<u32> = if order == 0 { active.iter().copied().collect() } else { active.iter().rev().copied().collect() };
                            for id in l {
                                ensure!(m.remove(id) && !m.remove(id), "session {} isn't removed exactly once", id);
                            }
                            Ok(())
                        });
                    }
                }
            }
        })
        .sub("two_threads", move |w| {
            for first in 0..=2 {
                ses_programs(w, first, &[2, 2], &[1, 8], false);
                ses_programs(w, first, &[1, 3], &[1, 8], false);
            }
            ses_programs(w, 1, &[3, 3], &[1, 8], false);
            if t == Tier::Thorough {
                ses_programs(w, 0, &[3, 4], &[1], false);
                ses_programs(w, 2, &[3, 3], &[1], false);
            }
        })
        .sub("three_threads", move |w| {
            for first in 0..=2 {
                ses_programs(w, first, &[1, 1, 1], &[1, 8], false);
            }
            ses_programs(w, 1, &[1, 2, 2], &[1], false);
            if t == Tier::Thorough {
                ses_programs(w, 1, &[2, 2, 2], &[1], false);
                ses_programs(w, 1, &[1, 1, 1, 2], &[1], false);
            }
            ses_programs(w, 0, &[1, 1, 1, 1], &[1, 8], false);
        })
        .sub("threads_when_ids_are_used_up", move |w| {
            for first in 0..=2 {
                ses_programs(w, first, &[2, 2], &[1, 8], true);
            }
            ses_programs(w, 1, &[1, 1, 1], &[1, 8], true);
            ses_programs(w, 2, &[2, 3], &[1], true);
        })
}

// ---------------------------------------------------------------- statistics

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Cmd(Cmd),
    Add,
    /// The first session that is still there.
    Remove,
    /// Of one session that others remove too.
    RemoveSame,
    RemoveOther,
}

fn show_ev(e: &Ev) -> String {
    match e {
        Ev::Cmd(c) => c.show(),
        Ev::Add => "(session added)".into(),
        Ev::Remove => "(session removed)".into(),
        Ev::RemoveSame => "(the same session removed)".into(),
        Ev::RemoveOther => "(unknown session removed)".into(),
    }
}

const NAMES: [&[u8]; 4] = [b"commands_successful", b"commands_errored", b"sessions_started", b"sessions_ended"];

/// The numbers in an answer to the statistics command.
fn numbers(m: &BTreeMap<Vec<u8>, Vec<u8>>) -> Result<[u64; 4], String> {
    let mut v = [0; 4];
    for (k, x) in m {
        let i = NAMES.iter().position(|n| n == k).ok_or_else(|| format!("the statistics contain {}", show(k)))?;
        let b: [u8; 8] = x.as_slice().try_into().map_err(|_| format!("{} is {}", show(k), show(x)))?;
        v[i] = u64::from_be_bytes(b);
    }
    Ok(v)
}

fn read(hop: &Hop) -> [u64; 4] {
    let r = hop.metrics();
    [Metric::CommandsSuccessful, Metric::CommandsErrored, Metric::SessionsStarted, Metric::SessionsEnded]
        .map(|m| r.counter(&m).unwrap_or(0))
}

fn stats() -> Cmd {
    Cmd::new(Op::Stats, None, &[])
}

fn history(l: &[Ev], shards: usize, st: &mut Stats) -> Res {
    sched::set_shards(shards);
    sched::set_quiet(false);
    let hop = Hop::new();
    let another = Hop::new();
    let mut m = MState::default();
    let mut ids: Vec<u32> = vec![];
    for e in l {
        match e {
            Ev::Cmd(c) => {
                let before = [m.ok, m.err, m.started, m.ended];
                let want = m.apply(c);
                let got = guarded(|| eng::dispatch(&hop, c, b"")).and_then(|r| r)?;
                ensure!(same_answer(c, &want, &got), "`{}` answered {}", c.show(), show_res(&got));
                if let (Op::Stats, Ok(MVal::Map(x))) = (c.op, &got) {
                    let n = numbers(x)?;
                    ensure!(n == before, "`stats` answered {:?} for the numbers of {:?}, expected {:?}", n, NAMES.map(|n| String::from_utf8_lossy(n)), before);
                }
            }
            Ev::Add => {
                ids.push(guarded(|| add(&mut hop.sessions().clone(), token(1))).and_then(|r| r)?);
                m.started += 1;
            }
            Ev::Remove => {
                if !ids.is_empty() {
                    let id = ids.remove(0);
                    ensure!(guarded(|| hop.sessions().remove(id))?, "session {} is gone", id);
                    m.ended += 1;
                }
            }
            Ev::RemoveSame => unreachable!(),
            Ev::RemoveOther => {
                ensure!(!guarded(|| hop.sessions().remove(u32::MAX - 7))?, "removed a session that wasn't added");
            }
        }
        st.transitions += 1;
        let (got, want) = (read(&hop), [m.ok, m.err, m.started, m.ended]);
        ensure!(got == want, "after {} the numbers are {:?}, expected {:?}", show_ev(e), got, want);
    }
    ensure!(read(&another) == [0; 4], "another engine's numbers changed");
    st.state(h64(format!("{:?}", read(&hop)).as_bytes()));
    Ok(())
}

/// Past two bytes.
const FAR: u64 = 65_600;

/// The events in `which`, by turns, `n` times each; the statistics are asked for
/// around each power of two.
fn far(which: u32, n: u64, shards: usize, st: &mut Stats) -> Res {
    sched::set_shards(shards);
    sched::set_quiet(false);
    let hop = Hop::new();
    let mut sessions = hop.sessions().clone();
    let (good, bad) = (Cmd::new(Op::Increment, None, &[b"a"]), Cmd::new(Op::Get, None, &[b"none"]));
    let mut want = [0u64; 4];
    let mut ids = std::collections::VecDeque::new();
    for i in 1..=n {
        if which & 1 != 0 {
            let got = guarded(|| eng::dispatch(&hop, &good, b"")).and_then(|r| r)?;
            want[0] += 1;
            ensure!(got.is_ok(), "increment {} failed", i);
        }
        if which & 2 != 0 {
            let got = guarded(|| eng::dispatch(&hop, &bad, b"")).and_then(|r| r)?;
            want[1] += 1;
            ensure!(got.is_err(), "get {} of an unset key succeeded", i);
        }
        if which & 4 != 0 {
            ids.push_back(guarded(|| add(&mut sessions, token(1))).and_then(|r| r)?);
            want[2] += 1;
        }
        if which & 8 != 0 {
            if let Some(id) = ids.pop_front() {
                ensure!(guarded(|| sessions.remove(id))?, "session {} is gone", id);
                want[3] += 1;
            }
        }
        let p = i.next_power_of_two();
        if p - i <= 2 || i - p / 2 <= 2 || i == n {
            ensure!(read(&hop) == want, "after {} rounds the numbers are {:?}, expected {:?}", i, read(&hop), want);
            let got = guarded(|| eng::dispatch(&hop, &stats(), b"")).and_then(|r| r)?;
            let Ok(MVal::Map(x)) = &got else { return Err(format!("`stats` answered {}", show_res(&got)).into()) };
            ensure!(numbers(x)? == want, "after {} rounds `stats` answered {:?}, expected {:?}", i, numbers(x)?, want);
            want[0] += 1;
        }
        st.transitions += 1;
    }
    st.state(h64(format!("{:?}", want).as_bytes()));
    Ok(())
}

/// `n` sessions at once, each with a token of its own.
fn ses_many(n: u32, shards: usize, st: &mut Stats) -> Res {
    sched::set_shards(shards);
    sched::set_quiet(false);
    let metrics = Metrics::new();
    let mut m = SessionManager::new(metrics.writer());
    let tok = |i: u32| {
        let mut t = [7; 32];
        t[..4].copy_from_slice(&i.to_be_bytes());
        t[28..].copy_from_slice(&i.to_le_bytes());
        t
    };
    let mut ids = Vec::with_capacity(n as usize);
    let mut seen = std::collections::HashSet::new();
    for i in 0..n {
        let id = guarded(|| add(&mut m, tok(i))).and_then(|r| r).map_err(|e| format!("session {}: {}", i, e))?;
        ensure!(seen.insert(id), "session {} got the id {} of another", i, id);
        ids.push(id);
        st.transitions += 1;
    }
    let r = metrics.reader();
    let nums = || (r.counter(&Metric::SessionsStarted).unwrap_or(0), r.counter(&Metric::SessionsEnded).unwrap_or(0));
    ensure!(nums() == (n as u64, 0), "{:?} sessions are counted as started and ended after {} were started", nums(), n);
    // Every second one from the front, then the others from the back.
    let order: Vec<u32> = ids.iter().step_by(2).copied().chain(ids.iter().skip(1).step_by(2).rev().copied()).collect();
    for (i, id) in order.iter().enumerate() {
        ensure!(guarded(|| m.remove(*id))?, "session {} is gone", id);
        ensure!(i % 1000 != 0 || !guarded(|| m.remove(*id))?, "session {} can be removed twice", id);
        st.transitions += 1;
    }
    for id in &ids {
        ensure!(!guarded(|| m.remove(*id))?, "session {} can be removed twice", id);
    }
    ensure!(nums() == (n as u64, n as u64), "{:?} sessions are counted as started and ended after {} were", nums(), n);
    st.state(n as u64);
    Ok(())
}

fn counted(init: &[Ev], threads: &[Vec<Ev>], shards: usize, st: &mut Stats) -> Res {
    sched::set_shards(shards);
    sched::set_quiet(false);
    let mut base = MState::default();
    let mut n_ids = 0;
    for e in init {
        match e {
            Ev::Cmd(c) => drop(base.apply(c)),
            Ev::Add => {
                base.started += 1;
                n_ids += 1
            }
            _ => {}
        }
    }
    explore(
        st,
        |t, i| threads[t].get(i).map_or("the end".into(), show_ev),
        || {
            let hop = Hop::new();
            let mut ids = vec![];
            for e in init {
                match e {
                    Ev::Cmd(c) => drop(eng::dispatch(&hop, c, b"").unwrap()),
                    Ev::Add => ids.push(add(&mut hop.sessions().clone(), token(0)).unwrap()),
                    _ => {}
                }
            }
            let mut next = 0;
            let calls = threads
                .iter()
                .map(|l| {
                    l.iter()
                        .map(|e| {
                            let (hop, e) = (hop.clone(), e.clone());
                            // Each removes one of its own.
                            let id = if e == Ev::Remove {
                                next += 1;
                                ids.get(next - 1).copied()
                            } else if e == Ev::RemoveSame {
                                ids.last().copied()
                            } else {
                                None
                            };
                            Box::new(move || -> EvOut {
                                match &e {
                                    Ev::Cmd(c) => {
                                        let r = eng::dispatch(&hop, c, b"")?;
                                        let seen = match (c.op, &r) {
                                            (Op::Stats, Ok(MVal::Map(m))) => Some(numbers(m)?),
                                            _ => None,
                                        };
                                        Ok((r.is_err() as usize, seen))
                                    }
                                    Ev::Add => add(&mut hop.sessions().clone(), token(9)).map(|_| (2, None)),
                                    Ev::Remove | Ev::RemoveSame => Ok((if id.map_or(false, |id| hop.sessions().remove(id)) { 3 } else { 4 }, None)),
                                    Ev::RemoveOther => Ok((if hop.sessions().remove(u32::MAX - 7) { 3 } else { 4 }, None)),
                                }
                            }) as Call<_>
                        })
                        .collect()
                })
                .collect();
            (hop, calls)
        },
        |hop: Hop, h: &Hist<EvOut>, outs: Vec<Vec<EvOut>>| {
            let mut want = [base.ok, base.err, base.started, base.ended];
            let mut all = vec![];
            for (t, l) in outs.iter().enumerate() {
                for (i, o) in l.iter().enumerate() {
                    let (kind, seen) = o.clone()?;
                    if kind < 4 {
                        want[kind] += 1;
                    }
                    let r = &h[t][i];
                    all.push((kind, seen, r.begin, r.end, t, i));
                }
            }
            // The one session that several remove ends once.
            let same = threads.iter().zip(&outs).flat_map(|(t, o)| t.iter().zip(o)).filter(|(e, _)| **e == Ev::RemoveSame);
            let (tried, ended) = same.fold((0, 0), |(n, m), (_, o)| (n + 1, m + matches!(o, Ok((3, _))) as usize));
            ensure!(ended == (tried > 0 && n_ids > 0) as usize, "removing one session {} times succeeded {} times", tried, ended);
            let got = read(&hop);
            ensure!(got == want, "the numbers are {:?} in the end, expected {:?}", got, want);
            for x in &all {
                let Some(seen) = x.1 else { continue };
                for k in 0..4 {
                    let base = [base.ok, base.err, base.started, base.ended][k];
                    let before = all.iter().filter(|y| y.0 == k && (y.4 == x.4 && y.5 < x.5 || y.4 != x.4 && y.3 < x.2)).count() as u64;
                    let by_end = all.iter().filter(|y| y.0 == k && (y.4 == x.4 && y.5 < x.5 || y.4 != x.4 && y.2 <= x.3)).count() as u64;
                    ensure!(
                        seen[k] >= base + before && seen[k] <= base + by_end,
                        "`stats` answered {} for {}, expected {} to {}",
                        seen[k], String::from_utf8_lossy(NAMES[k]), base + before, base + by_end
                    );
                }
            }
            Ok(())
        },
    )?;
    Ok(())
}

fn ev_programs(w: &mut W, inits: &[Vec<Ev>], evs: &[Ev], lens: &[usize], shards: &[usize]) {
    let lists: Vec<Vec<Vec<Ev>>> = lens
        .iter()
        .map(|n| {
            let mut l = vec![];
            sequences(evs.len(), *n, |s| l.push(s.iter().map(|i| evs[*i].clone()).collect()));
            l
        })
        .collect();
    for init in inits {
        let mut pick = vec![0; lens.len()];
        'all: loop {
            if (1..pick.len()).all(|t| lens[t] != lens[t - 1] || pick[t - 1] <= pick[t]) {
                let threads: Vec<Vec<Ev>> = pick.iter().enumerate().map(|(t, i)| lists[t][*i].clone()).collect();
                for &sh in shards {
                    w.case(
                        || format!("{} shards | after {} | {}", sh, init.iter().map(show_ev).collect::<Vec<_>>().join("; "), threads.iter().map(|t| t.iter().map(show_ev).collect::<Vec<_>>().join("; ")).collect::<Vec<_>>().join(" || ")),
                        |st| counted(init, &threads, sh, st),
                    );
                }
            }
            let mut t = 0;
            loop {
                if t == pick.len() {
                    break 'all;
                }
                pick[t] += 1;
                if pick[t] < lists[t].len() {
                    break;
                }
                pick[t] = 0;
                t += 1;
            }
        }
    }
}

pub fn c24(t: Tier) -> Check {
    use Op::*;
    let c = |op, ty, a: &[&[u8]]| Ev::Cmd(Cmd::new(op, ty, a));
    let k: &[u8] = b"a";
    // Of every command one that succeeds and one for each reason to fail.
    let mut all = vec![Ev::Add, Ev::Remove, Ev::RemoveOther];
    for op in OPS {
        for ty in [None, Some(T_INT), Some(T_LIST), Some(T_MAP)] {
            if op.is_simple() {
                all.push(c(op, ty, &[]));
                continue;
            }
            for a in [vec![], vec![k], vec![k, b"12345678"], vec![k, b"short"], vec![b"b"]] {
                all.push(c(op, ty, &a));
            }
        }
    }
    let few = vec![
        c(Increment, None, &[k]),
        c(Get, None, &[b"none"]),
        c(Stats, None, &[]),
        c(Set, None, &[k, b"x"]),
        c(Rename, None, &[k, b"b"]),
        c(Stats, Some(T_INT), &[]),
        c(Echo, None, &[]),
        Ev::Add,
        Ev::Remove,
        Ev::RemoveOther,
    ];
    let conc = vec![
        c(Increment, None, &[k]),
        c(Get, None, &[b"none"]),
        c(Stats, None, &[]),
        c(Delete, None, &[k]),
        c(Rename, None, &[k, b"b"]),
        c(Echo, None, &[]),
        Ev::Add,
        Ev::Remove,
        Ev::RemoveSame,
    ];
    let inits = vec![
        vec![],
        vec![Ev::Add, Ev::Add, Ev::Add, Ev::Add, c(Increment, None, &[k]), c(Get, None, &[b"none"])],
    ];
    let (conc2, conc3, inits2, inits3, conc4, inits4) = (conc.clone(), conc.clone(), inits.clone(), inits.clone(), conc.clone(), inits.clone());
    let (conc5, inits5) = (conc.clone(), inits.clone());
    Check::new("a history of commands and sessions, or a program of them on several threads in every schedule; states: the numbers at the end")
        .assume("memory is sequentially consistent; a thread is only preempted before taking a shard's lock or an atomic operation")
        .assume("a number the statistics leave out is zero")
        .sub("all_commands", move |w| {
            for n in 1..=2 {
                sequences(all.len(), n, |s| {
                    let mut l: Vec<Ev> = s.iter().map(|i| all[*i].clone()).collect();
                    l.push(Ev::Cmd(stats()));
                    l.push(Ev::Cmd(stats()));
                    w.case(|| l.iter().map(show_ev).collect::<Vec<_>>().join("; "), |st| history(&l, 8, st));
                });
            }
        })
        .sub("every_command", move |w| {
            // In every state, of every type and with all kinds of arguments.
            let k: &[u8] = b"a";
            let states: Vec<Vec<Ev>> = vec![
                vec![],
                vec![c(Set, Some(T_INT), &[k, b"12345678"])],
                vec![c(Set, Some(T_FLOAT), &[k, b"12345678"])],
                vec![c(Set, Some(T_BOOL), &[k, b"1"]), c(Set, None, &[b"b", b"x"])],
                vec![c(Set, Some(T_STR), &[k, b"x"])],
                vec![c(Set, Some(T_LIST), &[k, b"x"]), Ev::Add],
                vec![c(Set, Some(T_MAP), &[k, b"x", b"y"]), c(Set, Some(T_INT), &[b"b", b"12345678"])],
                vec![c(Set, Some(T_SET), &[k, b"x"])],
            ];
            let vals: [&[u8]; 4] = [k, b"b", b"12345678", b""];
            let mut lists: Vec<Vec<&[u8]>> = vec![];
            for n in 0..=3 {
                sequences(vals.len(), n, |s| lists.push(s.iter().map(|i| vals[*i]).collect()));
            }
            for n in [4, 5, 16, 127, 128, 254, 255] {
                for x in vals {
                    lists.push([vec![k], vec![x; n - 1]].concat());
                }
                lists.push([vec![k, b"b"], vec![b"x"; n - 2]].concat());
            }
            for init in &states {
                for op in OPS {
                    for ty in [None].into_iter().chain((0..8).map(Some)) {
                        for a in if op.is_simple() { &lists[..1] } else { &lists[..] } {
                            let mut l = init.clone();
                            l.push(c(op, ty, a));
                            l.push(Ev::Cmd(stats()));
                            w.case(|| l.iter().map(show_ev).collect::<Vec<_>>().join("; "), |st| history(&l, 1, st));
                        }
                    }
                }
            }
        })
        .sub("all_sequences", move |w| {
            for n in 0..=t.pick(5, 6) {
                sequences(few.len(), n, |s| {
                    let mut l: Vec<Ev> = s.iter().map(|i| few[*i].clone()).collect();
                    l.push(Ev::Cmd(stats()));
                    w.case(|| l.iter().map(show_ev).collect::<Vec<_>>().join("; "), |st| history(&l, 1, st));
                });
            }
        })
        .sub("long_histories", move |w| {
            let l: Vec<Ev> = vec![Ev::Cmd(Cmd::new(Increment, None, &[b"a"])), Ev::Cmd(Cmd::new(Get, None, &[b"none"])), Ev::Add, Ev::Remove];
            for n in [100usize, 255, 256, 257, 1000, t.pick(2000, 70000)] {
                for m in 1..16u32 {
                    let p: Vec<Ev> = (0..4).filter(|i| m >> i & 1 == 1).map(|i| l[i].clone()).collect();
                    w.case(|| format!("{} times {}", n, p.iter().map(show_ev).collect::<Vec<_>>().join("; ")), |st| {
                        let mut x: Vec<Ev> = p.iter().cycle().take(n * p.len()).cloned().collect();
                        x.push(Ev::Cmd(stats()));
                        history(&x, 1, st)
                    });
                }
            }
        })
        .sub("far", move |w| {
            for m in 1..16u32 {
                for sh in [1, 8] {
                    w.case(|| format!("events {:b} until each has happened {} times", m, t.pick(FAR, 16 * FAR)), |st| far(m, t.pick(FAR, 16 * FAR), sh, st));
                }
            }
        })
        .sub("two_threads", move |w| ev_programs(w, &inits, &conc, &[1, 1], &[1, 8]))
        .sub("one_and_two", move |w| ev_programs(w, &inits2, &conc2, &[1, 2], &[1, 8]))
        .sub("three_threads", move |w| ev_programs(w, &inits3, &conc3, &[1, 1, 1], &[1, 8]))
        .sub("two_threads_of_two", move |w| ev_programs(w, &inits4[..2], &conc4, &[2, 2], &[1, 8]))
        .sub("one_and_three", move |w| ev_programs(w, &inits5[1..], &conc5, &[1, 3], t.pick(&[1], &[1, 8])))
}

// ------------------------------------------------------------------- metrics

#[derive(Clone, Copy, Debug)]
enum Met {
    Inc(u8),
    Gauge(u8, u64),
    Snapshot,
    /// Of the last snapshot: write to it.
    Scribble(u8),
    Drop,
}

type Nums = BTreeMap<u8, u64>;

fn agree_reader(r: &Reader<u8>, c: &Nums, g: &Nums) -> Result<(), String> {
    for k in 0..4 {
        if r.counter(&k) != c.get(&k).copied() {
            return Err(format!("counter {} reads {:?}, expected {:?}", k, r.counter(&k), c.get(&k)));
        }
        if r.gauge(&k) != g.get(&k).copied() {
            return Err(format!("gauge {} reads {:?}, expected {:?}", k, r.gauge(&k), g.get(&k)));
        }
    }
    Ok(())
}

fn agree_snapshot(s: &Snapshot<u8>, c: &Nums, g: &Nums) -> Result<(), String> {
    for k in 0..4 {
        if s.counter(&k) != c.get(&k).copied() {
            return Err(format!("in a snapshot counter {} is {:?}, expected {:?}", k, s.counter(&k), c.get(&k)));
        }
        if s.gauge(&k) != g.get(&k).copied() {
            return Err(format!("in a snapshot gauge {} is {:?}, expected {:?}", k, s.gauge(&k), g.get(&k)));
        }
    }
    let all = |m: &hop_engine::dashmap::DashMap<u8, u64>| m.iter().map(|r| (*r.key(), *r.value())).collect::<Nums>();
    if all(s.counters()) != *c || all(s.gauges()) != *g {
        return Err("a snapshot's maps aren't what was counted".into());
    }
    Ok(())
}

fn met_sequence(ops: &[Met], shards: usize, st: &mut Stats) -> Res {
    sched::set_shards(shards);
    sched::set_quiet(false);
    let mut live = Some(Metrics::<u8>::new());
    let other = Metrics::<u8>::default();
    let (r, w): (Reader<u8>, Writer<u8>) = (live.as_ref().unwrap().reader(), live.as_ref().unwrap().writer());
    let (mut c, mut g) = (Nums::new(), Nums::new());
    let mut snaps: Vec<(Snapshot<u8>, Nums, Nums)> = vec![];
    guarded(|| -> Res {
        for (i, o) in ops.iter().enumerate() {
            // Through one that is made now, an old one, or a clone.
            let w = match (i % 3, &live) {
                (0, Some(m)) => m.writer(),
                (1, _) => w.clone(),
                _ => w.clone().clone(),
            };
            match *o {
                Met::Inc(k) => {
                    ensure!(w.increment(k) == live.is_some(), "{:?} gave {} although the instance {}", o, live.is_none(), if live.is_some() { "exists" } else { "is gone" });
                    if live.is_some() {
                        *c.entry(k).or_insert(0) += 1;
                    }
                }
                Met::Gauge(k, v) => {
                    ensure!(w.gauge(k, v) == live.is_some(), "{:?} gave {} although the instance {}", o, live.is_none(), if live.is_some() { "exists" } else { "is gone" });
                    if live.is_some() {
                        g.insert(k, v);
                    }
                }
                Met::Snapshot => {
                    if let Some(m) = &live {
                        snaps.push((m.snapshot(), c.clone(), g.clone()));
                        let last = &snaps.last().unwrap().0;
                        agree_snapshot(&last.clone(), &c, &g)?;
                    }
                }
                Met::Scribble(k) => {
                    if let Some((s, c, g)) = snaps.last_mut() {
                        s.counters().insert(k, 77);
                        s.gauges().insert(k, 78);
                        c.insert(k, 77);
                        g.insert(k, 78);
                    }
                }
                Met::Drop => live = None,
            }
            let none = Nums::new();
            let (c, g) = if live.is_some() { (&c, &g) } else { (&none, &none) };
            let fresh = live.as_ref().map(|m| m.reader());
            for r in [Some(&r), Some(&r.clone()), fresh.as_ref()].into_iter().flatten() {
                ensure!(r.valid() == live.is_some(), "a reader says that the instance {}", if live.is_some() { "is gone" } else { "exists" });
                agree_reader(r, c, g)?;
            }
            ensure!(w.valid() == live.is_some(), "a writer says that the instance {}", if live.is_some() { "is gone" } else { "exists" });
            for (s, c, g) in &snaps {
                agree_snapshot(s, c, g)?;
            }
            agree_reader(&other.reader(), &none, &none)?;
            st.transitions += 1;
        }
        st.state(h64(format!("{:?}{:?}{}", c, g, live.is_some()).as_bytes()));
        Ok(())
    })?
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum MetT {
    Inc(u8),
    Gauge(u8, u64),
    Counter(u8),
    ReadGauge(u8),
    Snapshot,
    Drop,
    Valid,
}

#[derive(Clone, Debug, PartialEq)]
enum MetOut {
    Done(bool),
    Value(Option<u64>),
    All(Nums, Nums),
}

fn met_model(o: MetT, live: &mut bool, c: &mut Nums, g: &mut Nums) -> MetOut {
    match o {
        MetT::Inc(k) => {
            if *live {
                *c.entry(k).or_insert(0) += 1;
            }
            MetOut::Done(*live)
        }
        MetT::Gauge(k, v) => {
            if *live {
                g.insert(k, v);
            }
            MetOut::Done(*live)
        }
        MetT::Counter(k) => MetOut::Value(if *live { c.get(&k).copied() } else { None }),
        MetT::ReadGauge(k) => MetOut::Value(if *live { g.get(&k).copied() } else { None }),
        MetT::Snapshot => MetOut::All(c.clone(), g.clone()),
        MetT::Drop => {
            *live = false;
            MetOut::Done(true)
        }
        MetT::Valid => MetOut::Done(*live),
    }
}

/// A snapshot is not atomic: each of its numbers is one that was there while it
/// was taken, so it stands for a read of each.
fn met_explained(ops: &[(usize, MetT, MetOut)], after: &[u32], end: &(Nums, Nums)) -> bool {
    // Split snapshots into single reads.
    let mut l: Vec<(MetT, MetOut, u32)> = vec![];
    let mut parts: Vec<Vec<usize>> = vec![];
    for (_, o, r) in ops {
        let mut p = vec![];
        match (o, r) {
            (MetT::Snapshot, MetOut::All(c, g)) => {
                for k in 0..3u8 {
                    p.push(l.len());
                    l.push((MetT::Counter(k), MetOut::Value(c.get(&k).copied()), 0));
                    p.push(l.len());
                    l.push((MetT::ReadGauge(k), MetOut::Value(g.get(&k).copied()), 0));
                }
            }
            _ => {
                p.push(l.len());
                l.push((*o, r.clone(), 0));
            }
        }
        parts.push(p);
    }
    for (i, a) in after.iter().enumerate() {
        let mut m = 0;
        for j in 0..parts.len() {
            if a >> j & 1 == 1 {
                parts[j].iter().for_each(|x| m |= 1 << x);
            }
        }
        parts[i].iter().for_each(|x| l[*x].2 = m);
    }
    fn go(l: &[(MetT, MetOut, u32)], done: u32, live: bool, c: &Nums, g: &Nums, end: &(Nums, Nums), dead: &mut HashSet<(u32, bool, Nums, Nums)>) -> bool {
        if done == (1 << l.len()) - 1 {
            return !live || (c, g) == (&end.0, &end.1);
        }
        if !dead.insert((done, live, c.clone(), g.clone())) {
            return false;
        }
        for (i, (o, r, after)) in l.iter().enumerate() {
            if done >> i & 1 == 1 || after & !done != 0 {
                continue;
            }
            let (mut lv, mut c2, mut g2) = (live, c.clone(), g.clone());
            if met_model(*o, &mut lv, &mut c2, &mut g2) == *r && go(l, done | 1 << i, lv, &c2, &g2, end, dead) {
                return true;
            }
        }
        false
    }
    go(&l, 0, true, &Nums::new(), &Nums::new(), end, &mut HashSet::new())
}

fn met_program(threads: &[Vec<MetT>], shards: usize, st: &mut Stats) -> Res {
    sched::set_shards(shards);
    sched::set_quiet(false);
    let drops = threads.iter().flatten().any(|o| *o == MetT::Drop);
    let mut seen = HashSet::new();
    let mut states = vec![];
    explore(
        st,
        |t, i| threads[t].get(i).map_or("the end".into(), |o| format!("{:?}", o)),
        || {
            let m = Rc::new(RefCell::new(Some(Metrics::<u8>::new())));
            let (r, w) = { let b = m.borrow(); let m = b.as_ref().unwrap(); (m.reader(), m.writer()) };
            let calls = threads
                .iter()
                .map(|l| {
                    l.iter()
                        .map(|&o| {
                            let (m, r, w) = (m.clone(), r.clone(), w.clone());
                            Box::new(move || {
                                if drops {
                                    // Whether it exists is looked up where there's no
                                    // scheduling point otherwise.
                                    sched::point(0, true);
                                }
                                match o {
                                    MetT::Inc(k) => MetOut::Done(w.increment(k)),
                                    MetT::Gauge(k, v) => MetOut::Done(w.gauge(k, v)),
                                    MetT::Counter(k) => MetOut::Value(r.counter(&k)),
                                    MetT::ReadGauge(k) => MetOut::Value(r.gauge(&k)),
                                    MetT::Valid => MetOut::Done(r.valid() && w.valid()),
                                    MetT::Drop => {
                                        let x = m.borrow_mut().take();
                                        drop(x);
                                        MetOut::Done(true)
                                    }
                                    MetT::Snapshot => {
                                        let p: *const Metrics<u8> = m.borrow().as_ref().unwrap();
                                        let s = unsafe { &*p }.snapshot();
                                        let all = |m: &hop_engine::dashmap::DashMap<u8, u64>| m.iter().map(|r| (*r.key(), *r.value())).collect::<Nums>();
                                        MetOut::All(all(s.counters()), all(s.gauges()))
                                    }
                                }
                            }) as Call<MetOut>
                        })
                        .collect()
                })
                .collect();
            ((m, r), calls)
        },
        |(m, r), h, outs| {
            let mut ops = vec![];
            let mut recs = vec![];
            for (t, l) in outs.into_iter().enumerate() {
                for (i, o) in l.into_iter().enumerate() {
                    ops.push((t, threads[t][i], o));
                    recs.push((t, h[t][i].begin, h[t][i].end));
                }
            }
            // An operation that runs while the instance is dropped may keep it
            // until it has ended.
            let mut kept = vec![false; recs.len()];
            if let Some(d) = ops.iter().position(|o| o.1 == MetT::Drop) {
                while let Some(e) = (0..recs.len()).filter(|j| *j != d).map(|j| recs[j]).filter(|r| r.1 < recs[d].2 && r.2 > recs[d].2).map(|r| r.2).max() {
                    recs[d].2 = e;
                    kept[d] = true;
                }
            }
            let after: Vec<u32> = (0..recs.len())
                .map(|i| {
                    (0..recs.len())
                        .filter(|j| *j != i && (!kept[*j] && recs[*j].0 == recs[i].0 && *j < i || (kept[*j] || recs[*j].0 != recs[i].0) && recs[*j].2 < recs[i].1))
                        .map(|j| 1 << j)
                        .sum()
                })
                .collect();
            let get = |f: &dyn Fn(u8) -> Option<u64>| (0..4u8).filter_map(|k| f(k).map(|v| (k, v))).collect::<Nums>();
            let end = (get(&|k| r.counter(&k)), get(&|k| r.gauge(&k)));
            ensure!(r.valid() == m.borrow().is_some(), "the instance is {} but a reader denies it", if m.borrow().is_some() { "there" } else { "gone" });
            if seen.insert(h64(format!("{:?}{:?}{:?}", ops, after, end).as_bytes())) {
                states.push(h64(format!("{:?}", end).as_bytes()));
                ensure!(met_explained(&ops, &after, &end), "no order explains {:?} with {:?} at the end", ops.iter().map(|o| (o.1, &o.2)).collect::<Vec<_>>(), end);
            }
            Ok(())
        },
    )?;
    states.into_iter().for_each(|s| st.state(s));
    Ok(())
}

fn met_programs(w: &mut W, ops: &[MetT], lens: &[usize], shards: &[usize]) {
    let lists: Vec<Vec<Vec<MetT>>> = lens
        .iter()
        .map(|n| {
            let mut l = vec![];
            sequences(ops.len(), *n, |s| l.push(s.iter().map(|i| ops[*i]).collect()));
            l
        })
        .collect();
    let mut pick = vec![0; lens.len()];
    'all: loop {
        if (1..pick.len()).all(|t| lens[t] != lens[t - 1] || pick[t - 1] <= pick[t]) {
            let threads: Vec<Vec<MetT>> = pick.iter().enumerate().map(|(t, i)| lists[t][*i].clone()).collect();
            let drops = threads.iter().flatten().filter(|o| **o == MetT::Drop).count();
            let snaps = threads.iter().flatten().filter(|o| **o == MetT::Snapshot).count();
            if drops <= 1 && snaps <= 2 && (drops == 0 || snaps == 0) {
                for &sh in shards {
                    w.case(|| format!("{} shards | {:?}", sh, threads), |st| met_program(&threads, sh, st));
                }
            }
        }
        let mut t = 0;
        loop {
            if t == pick.len() {
                break 'all;
            }
            pick[t] += 1;
            if pick[t] < lists[t].len() {
                break;
            }
            pick[t] = 0;
            t += 1;
        }
    }
}

pub fn c25(t: Tier) -> Check {
    let conc = [
        MetT::Inc(0),
        MetT::Inc(1),
        MetT::Gauge(0, 5),
        MetT::Gauge(0, 0),
        MetT::Counter(0),
        MetT::ReadGauge(0),
        MetT::Snapshot,
        MetT::Drop,
        MetT::Valid,
    ];
    let small = [MetT::Inc(0), MetT::Gauge(0, 5), MetT::Gauge(0, 6), MetT::Counter(0), MetT::ReadGauge(0), MetT::Drop];
    Check::new("a sequence of operations on metrics, or a program of them on several threads in every schedule; states: values at the end")
        .assume("memory is sequentially consistent; a thread is only preempted before taking a shard's lock or an atomic operation")
        .assume("a snapshot's numbers need not be of one moment")
        .sub("all_sequences", move |w| {
            let ops = [
                Met::Inc(0), Met::Inc(1), Met::Gauge(0, 0), Met::Gauge(0, 7), Met::Gauge(1, u64::MAX), Met::Snapshot, Met::Scribble(0),
                Met::Drop,
            ];
            for n in 0..=t.pick(5, 7) {
                sequences(ops.len(), n, |s| {
                    let l: Vec<Met> = s.iter().map(|i| ops[*i]).collect();
                    w.case(|| format!("{:?}", l), |st| met_sequence(&l, [1, 8][n % 2], st));
                });
            }
        })
        .sub("many", move |w| {
            for n in [10usize, 255, 256, 257, 1000, 65536, 70000] {
                w.case(|| format!("{} times", n), |st| {
                    sched::set_shards(8);
                    let m = Metrics::<u8>::new();
                    let wr = m.writer();
                    for i in 0..n {
                        ensure!(wr.increment(1), "an increment failed");
                        if i % 3 == 0 {
                            ensure!(wr.increment(2) && wr.gauge(1, i as u64), "a write failed");
                        }
                        ensure!(m.reader().counter(&1) == Some(i as u64 + 1), "counter is {:?} after {}", m.reader().counter(&1), i + 1);
                        ensure!(m.reader().gauge(&1) == Some((i / 3 * 3) as u64), "gauge is {:?}", m.reader().gauge(&1));
                    }
                    ensure!(m.reader().counter(&2) == Some((n as u64 + 2) / 3), "the other counter is {:?}", m.reader().counter(&2));
                    st.transitions += n as u64;
                    Ok(())
                });
            }
        })
        .sub("gauge_values", move |w| {
            // Each value after each two others.
            let mut v = vec![0u64, 1, 2, 3, 9, 10, 100, 1000, u64::MAX, u64::MAX - 1];
            for b in [7u32, 8, 15, 16, 31, 32, 52, 53, 62, 63] {
                v.extend([(1u64 << b) - 1, 1 << b, (1 << b) + 1]);
            }
            for a in v.clone() {
                w.case(|| format!("a gauge written {}, then every two", a), |st| {
                    sched::set_shards(8);
                    let m = Metrics::<u8>::new();
                    let (wr, r) = (m.writer(), m.reader());
                    for &b in &v {
                        for &c in &v {
                            for x in [a, b, c] {
                                ensure!(wr.gauge(1, x), "a write failed");
                                ensure!(r.gauge(&1) == Some(x) && m.snapshot().gauge(&1) == Some(x), "the gauge is {:?} after {} was written ({}, {}, {})", r.gauge(&1), x, a, b, c);
                                st.transitions += 1;
                            }
                        }
                    }
                    ensure!(r.counter(&1).is_none() && r.gauge(&0).is_none(), "another is written");
                    Ok(())
                });
            }
        })
        .sub("many_keys", move |w| {
            for n in [3usize, 17, 64, 255, 256, 257, 1000, 5000, t.pick(66_000, 300_000)] {
                for shards in [1usize, 8] {
                    w.case(|| format!("{} keys, {} shards", n, shards), |st| {
                        sched::set_shards(shards);
                        let m = Metrics::<Vec<u8>>::new();
                        let (wr, r) = (m.writer(), m.reader());
                        let other = Metrics::<Vec<u8>>::new();
                        let key = |i: usize| [vec![b'k'; i % 40], i.to_string().into_bytes()].concat();
                        for i in 0..n {
                            for _ in 0..=i % 3 {
                                ensure!(wr.clone().increment(key(i)), "an increment failed");
                            }
                            ensure!(wr.gauge(key(i), (n - i) as u64), "a write failed");
                            st.transitions += 2;
                        }
                        let s = m.snapshot();
                        for i in 0..n {
                            let (c, g) = (Some((i % 3 + 1) as u64), Some((n - i) as u64));
                            ensure!(r.counter(&key(i)) == c && r.gauge(&key(i)) == g, "key {} reads {:?} and {:?}", i, r.counter(&key(i)), r.gauge(&key(i)));
                            ensure!(s.counter(&key(i)) == c && s.gauge(&key(i)) == g, "in a snapshot key {} is {:?} and {:?}", i, s.counter(&key(i)), s.gauge(&key(i)));
                        }
                        ensure!(s.counters().len() == n && s.gauges().len() == n, "a snapshot has {} counters and {} gauges of {}", s.counters().len(), s.gauges().len(), n);
                        ensure!(other.snapshot().counters().is_empty() && other.snapshot().gauges().is_empty(), "another instance was written");
                        drop(m);
                        ensure!(!wr.increment(key(0)) && !wr.gauge(key(0), 1) && !r.valid() && !wr.valid() && r.counter(&key(0)).is_none(), "an instance that is gone is used");
                        Ok(())
                    });
                }
            }
        })
        .sub("two_threads", move |w| met_programs(w, &conc, &[1, 1], &[1, 8]))
        .sub("one_and_two", move |w| met_programs(w, &conc, &[1, 2], &[1, 8]))
        .sub("three_threads", move |w| met_programs(w, &conc, &[1, 1, 1], &[1, 8]))
        .sub("two_threads_of_two", move |w| met_programs(w, t.pick(&small[..], &conc[..]), &[2, 2], &[1]))
        .sub("two_threads_of_three", move |w| met_programs(w, &small[..t.pick(3, 5)], &[3, 3], &[1]))
}

// ---------------------------------------------------------------- for C07

/// Subscriptions and sessions of any sessions, and commands, at the same time.
pub fn no_deadlock(w: &mut W) {
    #[derive(Clone, Debug)]
    enum Any {
        S(Sub),
        T(SesT),
        C(Cmd),
    }
    let mut ops: Vec<Any> = sub_ops(2, &[1, 2]).into_iter().map(Any::S).collect();
    ops.extend([SesT::Add, SesT::RemoveFirst(0), SesT::RemoveFirst(1)].map(Any::T));
    ops.push(Any::C(stats()));
    ops.push(Any::C(Cmd::new(Op::Increment, None, &[b"a"])));
    let thorough = w.tier == Tier::Thorough;
    let lens: Vec<Vec<usize>> = if thorough { vec![vec![1, 1], vec![1, 1, 1], vec![1, 2], vec![2, 2]] } else { vec![vec![1, 1], vec![1, 1, 1], vec![1, 2]] };
    for lens in lens {
        let lists: Vec<Vec<Vec<usize>>> = lens
            .iter()
            .map(|n| {
                let mut l = vec![];
                sequences(ops.len(), *n, |s| l.push(s.to_vec()));
                l
            })
            .collect();
        for shards in [1, 8] {
            for init in sub_inits(2, &[1]).into_iter().chain(sub_inits(1, &[1, 2])) {
                let mut pick = vec![0; lens.len()];
                'all: loop {
                    if (1..pick.len()).all(|t| lens[t] != lens[t - 1] || pick[t - 1] <= pick[t]) {
                        let threads: Vec<Vec<Any>> = pick.iter().enumerate().map(|(t, i)| lists[t][*i].iter().map(|i| ops[*i].clone()).collect()).collect();
                        w.case(
                            || format!("{} shards | after {} | {:?}", shards, show_subs(&init), threads),
                            |st| {
                                sched::set_shards(shards);
                                sched::set_quiet(false);
                                explore(
                                    st,
                                    |t, i| threads[t].get(i).map_or("the end".into(), |o| format!("{:?}", o)),
                                    || {
                                        let hop = Hop::new();
                                        let ids: Vec<u32> = (0..2).map(|i| add(&mut hop.sessions().clone(), token(i)).unwrap()).collect();
                                        for o in &init {
                                            let _ = run_sub(hop.pubsub(), *o, false, &mut vec![]);
                                        }
                                        let calls = threads
                                            .iter()
                                            .map(|l| {
                                                l.iter()
                                                    .map(|o| {
                                                        let (hop, o, ids) = (hop.clone(), o.clone(), ids.clone());
                                                        Box::new(move || match o {
                                                            Any::S(Sub::Get(k, s)) => drop(hop.pubsub().get(KEYS[k], SessionId::from_raw(s))),
                                                            Any::S(o) => drop(run_sub(hop.pubsub(), o, false, &mut vec![])),
                                                            Any::T(SesT::RemoveFirst(n)) => drop(hop.sessions().remove(ids[n])),
                                                            Any::T(_) => drop(add(&mut hop.sessions().clone(), token(3))),
                                                            Any::C(c) => drop(eng::dispatch(&hop, &c, b"")),
                                                        }) as Call<()>
                                                    })
                                                    .collect()
                                            })
                                            .collect();
                                        (hop, calls)
                                    },
                                    |_, _, _| Ok(()),
                                )
                            },
                        );
                    }
                    let mut t = 0;
                    loop {
                        if t == pick.len() {
                            break 'all;
                        }
                        pick[t] += 1;
                        if pick[t] < lists[t].len() {
                            break;
                        }
                        pick[t] = 0;
                        t += 1;
                    }
                }
            }
        }
    }
}
