//! C15 (numbers, names, types), C26 (timer), C29 (key store).
use crate::engine::*;
use crate::eng::*;
use hop_engine::command::command_id::{ArgumentNotation, KeyNotation};
use hop_engine::command::request::ParseError as ReqErr;
use hop_engine::command::response::ResponseType;
use hop_engine::command::{CommandId, DispatchError};
use hop_engine::metrics::Metric;
use hop_engine::state::{KeyType, State, Value};
use hop_engine::Hop;
use hop_internal_timer::Timer;
use mc::*;
use std::cell::Cell;
use std::convert::TryFrom;
use std::str::FromStr;
use std::time::Duration;

// ---------------------------------------------------------------- C15

fn one_to_one<X: Copy + PartialEq + std::fmt::Debug>(
    n: u8,
    table: &[(u8, X)],
    of: impl Fn(u8) -> Option<X>,
    num: impl Fn(X) -> u8,
) -> Res {
    let want = table.iter().find(|(m, _)| *m == n).map(|x| x.1);
    let got = of(n);
    ensure!(got == want, "number {} is taken to be {:?}, not {:?}", n, got, want);
    if let Some(x) = want {
        ensure!(num(x) == n, "{:?} has number {}, not {}", x, num(x), n);
    }
    Ok(())
}

/// Everything one edit away from the word, over a small alphabet.
fn near(word: &str, alpha: &[char]) -> Vec<String> {
    let c: Vec<char> = word.chars().collect();
    let mut v = vec![];
    let s = |x: &[char]| x.iter().collect::<String>();
    for i in 0..c.len() {
        let mut d = c.clone();
        d.remove(i);
        v.push(s(&d));
        for a in alpha {
            let mut d = c.clone();
            d[i] = *a;
            v.push(s(&d));
        }
        let mut d = c.clone();
        d[i] = d[i].to_ascii_uppercase();
        v.push(s(&d));
        if i + 1 < c.len() {
            let mut d = c.clone();
            d.swap(i, i + 1);
            v.push(s(&d));
        }
    }
    for i in 0..=c.len() {
        for a in alpha {
            let mut d = c.clone();
            d.insert(i, *a);
            v.push(s(&d));
        }
    }
    v.push(word.to_uppercase());
    v
}

fn notations(op: Op) -> (KeyNotation, ArgumentNotation) {
    use ArgumentNotation as A;
    use KeyNotation as K;
    match op {
        Op::Append => (K::One, A::One),
        Op::Delete => (K::One, A::One),
        Op::Decrement => (K::One, A::None),
        Op::DecrementBy => (K::One, A::One),
        Op::Echo => (K::None, A::Multiple),
        Op::Exists => (K::Multiple, A::None),
        Op::Get => (K::One, A::None),
        Op::Increment => (K::One, A::None),
        Op::IncrementBy => (K::One, A::One),
        Op::Is => (K::Multiple, A::None),
        Op::Keys => (K::One, A::None),
        Op::Length => (K::One, A::One),
        Op::Rename => (K::Two, A::None),
        Op::Set => (K::One, A::One),
        Op::Stats => (K::None, A::None),
        Op::Type => (K::One, A::None),
    }
}

fn is_a(v: &Value, t: u8) -> bool {
    match t {
        T_BYTES => v.is_bytes(),
        T_BOOL => v.is_boolean(),
        T_FLOAT => v.is_float(),
        T_INT => v.is_integer(),
        T_STR => v.is_string(),
        T_LIST => v.is_list(),
        T_MAP => v.is_map(),
        _ => v.is_set(),
    }
}

fn view_ref(v: &Value, t: u8) -> Option<MVal> {
    match t {
        T_BYTES => v.as_bytes_ref().map(|x| MVal::Bytes(x.to_vec())),
        T_BOOL => v.as_boolean_ref().map(|x| MVal::Bool(*x)),
        T_FLOAT => v.as_float_ref().map(|x| MVal::Float(*x)),
        T_INT => v.as_integer_ref().map(|x| MVal::Int(*x)),
        T_STR => v.as_string_ref().map(|x| MVal::Str(x.to_string())),
        T_LIST => v.as_list_ref().map(|x| MVal::List(x.to_vec())),
        T_MAP => v.as_map_ref().map(|m| MVal::Map(m.iter().map(|r| (r.key().clone(), r.value().clone())).collect())),
        _ => v.as_set_ref().map(|s| MVal::Set(s.iter().map(|r| r.key().clone()).collect())),
    }
}

/// View the value mutably as the type and store another value through it.
fn view_mut(v: &mut Value, t: u8, new: &MVal) -> bool {
    let n = value(new);
    match (t, n) {
        (T_BYTES, Value::Bytes(n)) => v.as_bytes_mut().map(|x| *x = n).is_some(),
        (T_BOOL, Value::Boolean(n)) => v.as_boolean_mut().map(|x| *x = n).is_some(),
        (T_FLOAT, Value::Float(n)) => v.as_float_mut().map(|x| *x = n).is_some(),
        (T_INT, Value::Integer(n)) => v.as_integer_mut().map(|x| *x = n).is_some(),
        (T_STR, Value::String(n)) => v.as_string_mut().map(|x| *x = n).is_some(),
        (T_LIST, Value::List(n)) => v.as_list_mut().map(|x| *x = n).is_some(),
        (T_MAP, Value::Map(n)) => v.as_map_mut().map(|x| *x = n).is_some(),
        (T_SET, Value::Set(n)) => v.as_set_mut().map(|x| *x = n).is_some(),
        _ => unreachable!(),
    }
}

fn default_of(t: u8) -> Value {
    match t {
        T_BYTES => Value::bytes(),
        T_BOOL => Value::boolean(),
        T_FLOAT => Value::float(),
        T_INT => Value::integer(),
        T_STR => Value::string(),
        T_LIST => Value::list(),
        T_MAP => Value::map(),
        _ => Value::set(),
    }
}

fn from_inner(v: &MVal) -> Value {
    match value(v) {
        Value::Boolean(x) => x.into(),
        Value::Bytes(x) => x.into(),
        Value::Float(x) => x.into(),
        Value::Integer(x) => x.into(),
        Value::List(x) => x.into(),
        Value::Map(x) => x.into(),
        Value::Set(x) => x.into(),
        Value::String(x) => x.into(),
    }
}

fn looks(v: &Value, m: &MVal) -> Res {
    ensure!(kt_num(v.kind()) == m.ty(), "the kind of {} is {:?}", m.show(), v.kind());
    ensure!(mval(v).same_bits(m), "{} holds {}", m.show(), mval(v).show());
    for t in TYPES {
        ensure!(is_a(v, t) == (t == m.ty()), "whether {} is a {} is {}", m.show(), ty_name(t), is_a(v, t));
        match view_ref(v, t) {
            None => ensure!(t != m.ty(), "{} can't be viewed as a {}", m.show(), ty_name(t)),
            Some(x) => ensure!(x.same_bits(m), "{} viewed as a {} is {}", m.show(), ty_name(t), x.show()),
        }
    }
    Ok(())
}

pub fn c15(t: Tier) -> Check {
    let ops: Vec<(u8, CommandId)> = OPS.iter().map(|o| (*o as u8, cid(*o))).collect();
    let tys: Vec<(u8, KeyType)> = TYPES.iter().map(|t| (*t, kt(*t))).collect();
    use ResponseType as R;
    let resps: Vec<(u8, R)> = vec![
        (0, R::Boolean),
        (1, R::Bytes),
        (2, R::Float),
        (3, R::Integer),
        (4, R::List),
        (5, R::Map),
        (6, R::Set),
        (7, R::String),
        (8, R::ParseError),
        (9, R::DispatchError),
    ];
    use DispatchError as D;
    let derrs: Vec<(u8, D)> = vec![
        (0, D::ArgumentRetrieval),
        (1, D::KeyUnspecified),
        (2, D::KeyTypeDifferent),
        (3, D::KeyTypeUnexpected),
        (4, D::PreconditionFailed),
        (5, D::KeyNonexistent),
        (6, D::KeyTypeRequired),
        (7, D::KeyTypeInvalid),
    ];
    let perrs = vec![(0u8, ReqErr::CommandIdInvalid), (1, ReqErr::KeyTypeInvalid)];
    let metrics = vec![
        (0u8, Metric::CommandsSuccessful, "commands_successful"),
        (1, Metric::CommandsErrored, "commands_errored"),
        (10, Metric::SessionsStarted, "sessions_started"),
        (11, Metric::SessionsEnded, "sessions_ended"),
    ];
    Check::new("a number, name or value, taken through all conversions")
        .sub("numbers", move |w| {
            for n in 0..=255u8 {
                w.case(
                    || format!("number {}", n),
                    |st| {
                        st.state(n as u64);
                        st.transitions += 5;
                        one_to_one(n, &ops, |n| CommandId::try_from(n).ok(), |x| x as u8)?;
                        one_to_one(n, &tys, |n| KeyType::try_from(n).ok(), |x| x as u8)?;
                        one_to_one(n, &resps, |n| R::try_from(n).ok(), |x| x as u8)?;
                        one_to_one(n, &derrs, |n| D::try_from(n).ok(), |x| x as u8)?;
                        one_to_one(n, &perrs, |n| ReqErr::try_from(n).ok(), |x| x as u8)
                    },
                );
            }
            for (n, m, name) in &metrics {
                w.case(
                    || name.to_string(),
                    |st| {
                        st.transitions += 1;
                        ensure!(*m as u8 == *n, "metric {} has number {}", name, *m as u8);
                        ensure!(m.name() == *name, "metric {} is called {}", name, m.name());
                        Ok(())
                    },
                );
            }
        })
        .sub("names", move |w| {
            for op in OPS {
                w.case(
                    || op.name().to_string(),
                    |st| {
                        st.transitions += 1;
                        let c = cid(op);
                        ensure!(c.name() == op.name(), "{} is called {}", op.name(), c.name());
                        ensure!(c.to_string() == op.name(), "{} is shown as {}", op.name(), c);
                        ensure!(CommandId::from_str(op.name()).ok() == Some(c), "{} isn't a name", op.name());
                        ensure!(CommandId::try_from(op.name()).ok() == Some(c), "{} isn't a name", op.name());
                        let (k, a) = notations(op);
                        ensure!(c.key_notation() == k, "the keys of {} are {:?}", op.name(), c.key_notation());
                        ensure!(c.argument_notation() == a, "the arguments of {} are {:?}", op.name(), c.argument_notation());
                        ensure!(c.is_simple() == op.is_simple(), "whether {} is simple is {}", op.name(), c.is_simple());
                        Ok(())
                    },
                );
            }
        })
        .sub("no_other_names", move |w| {
            let alpha: Vec<char> = "abcdefghijklmnopqrstuvwxyz:_- \0\u{e9}0".chars().collect();
            let try_one = |w: &mut W, s: &str| {
                w.case(
                    || format!("{:?}", s),
                    |st| {
                        st.transitions += 1;
                        st.outcome(s.as_bytes());
                        let want = OPS.iter().find(|o| o.name() == s).map(|o| cid(*o));
                        ensure!(CommandId::from_str(s).ok() == want, "from_str({:?}) is {:?}", s, CommandId::from_str(s));
                        ensure!(CommandId::try_from(s).ok() == want, "try_from({:?}) is {:?}", s, CommandId::from_str(s));
                        Ok(())
                    },
                );
            };
            for op in OPS {
                for s in near(op.name(), &alpha) {
                    if t == Tier::Thorough {
                        for s in near(&s, &alpha) {
                            try_one(w, &s);
                        }
                    }
                    try_one(w, &s);
                }
            }
            try_one(w, "");
            for n in 1..=t.pick(3, 4) {
                let a: Vec<char> = "acdeghiklnoprstuxyz:".chars().collect();
                sequences(a.len(), n, |ix| try_one(w, &ix.iter().map(|i| a[*i]).collect::<String>()));
            }
        })
        .sub("values", move |w| {
            let all: Vec<MVal> = (0..2)
                .flat_map(values)
                .chain(TYPES.iter().map(|t| MVal::default_of(*t)))
                .chain([MVal::Float(f64::NAN), MVal::Float(f64::INFINITY), MVal::Int(i64::MIN), MVal::Str("\0".into())])
                .collect();
            for v in &all {
                w.case(|| v.show(), |st| {
                    st.state(h64(&v.canon()));
                    st.transitions += 1;
                    looks(&value(v), v)?;
                    looks(&from_inner(v), v)
                });
                for n in &all {
                    w.case(|| format!("{} := {}", v.show(), n.show()), |st| {
                        st.state(h64(&[v.canon(), n.canon()].concat()));
                        st.transitions += 1;
                        let mut x = value(v);
                        let did = view_mut(&mut x, n.ty(), n);
                        ensure!(did == (v.ty() == n.ty()), "viewing {} mutably as a {} gave {}", v.show(), ty_name(n.ty()), did);
                        looks(&x, if did { n } else { v })
                    });
                }
            }
            for t in TYPES {
                w.case(|| format!("default {}", ty_name(t)), |st| {
                    st.transitions += 1;
                    looks(&default_of(t), &MVal::default_of(t))
                });
            }
        })
}

// ---------------------------------------------------------------- C26

thread_local! {
    /// What the monotonic clock reads, if it is ours.
    static CLOCK: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}

#[repr(C)]
pub struct Ts {
    s: i64,
    ns: i64,
}

/// Takes the place of libc's. The monotonic clock reads what the check says,
/// others something unrelated; outside of the check all are the real ones.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Ts) -> i32 {
    if let Ok(Some((s, ns))) = CLOCK.try_with(|c| c.get()) {
        *ts = if id == 1 { Ts { s, ns } } else { Ts { s: 77_000_000 - (s % 1000), ns: 999_999_999 - ns } };
        return 0;
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") 228i64 => r, in("rdi") id as i64, in("rsi") ts, lateout("rcx") _, lateout("r11") _);
    r as i32
}

struct Faked;
impl Faked {
    fn at(s: i64, ns: i64) -> Faked {
        CLOCK.with(|c| c.set(Some((s, ns))));
        Faked
    }
}
impl Drop for Faked {
    fn drop(&mut self) {
        CLOCK.with(|c| c.set(None));
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
struct MTimer {
    start: Option<Duration>,
    stop: Option<Duration>,
}

impl MTimer {
    fn duration(&self) -> Option<Duration> {
        Some(self.stop? - self.start?)
    }
    fn running(&self) -> bool {
        self.start.is_some() && self.stop.is_none()
    }
}

fn agree(t: &Timer, m: &MTimer) -> Res {
    ensure!(t.is_running() == m.running(), "is_running is {}, not {}", t.is_running(), m.running());
    ensure!(t.duration() == m.duration(), "duration is {:?}, not {:?}", t.duration(), m.duration());
    let mut c = t.clone();
    ensure!(&c == t, "a clone differs");
    let mut n = m.clone();
    let (a, b) = (c.stop(), mstop(&mut n));
    ensure!(a == b, "stopping a clone gave {:?}, not {:?}", a, b);
    let (a, b) = (c.start(), mstart(&mut n));
    ensure!(a == b, "starting a clone gave {:?}, not {:?}", a, b);
    ensure!(t.is_running() == m.running() && t.duration() == m.duration(), "using a clone changed the original");
    Ok(())
}

fn clock() -> Duration {
    let (s, ns) = CLOCK.with(|c| c.get()).unwrap();
    Duration::new(s as u64, ns as u32)
}

fn mstart(m: &mut MTimer) -> bool {
    let ok = m.start.is_none();
    if ok {
        m.start = Some(clock());
    }
    ok
}

fn mstop(m: &mut MTimer) -> Option<Duration> {
    if !m.running() {
        return None;
    }
    m.stop = Some(clock());
    m.duration()
}

const TOPS: [&str; 11] = [
    "a.start", "a.stop", "a.reset", "b.start", "b.stop", "b.reset", "a=b.clone", "b=a.clone", "tick 1ns", "tick .999999999s",
    "tick 3s",
];

fn timer_history(ix: &[usize], base: (i64, i64), st: &mut Stats) -> Res {
    let _f = Faked::at(base.0, base.1);
    let (mut a, mut b) = (Timer::new(), Timer::default());
    let (mut ma, mut mb) = (MTimer::default(), MTimer::default());
    agree(&a, &ma)?;
    for (n, i) in ix.iter().enumerate() {
        let at = |what: String| Fail::from(format!("step {} ({}): {}", n + 1, TOPS[*i], what));
        match i {
            0 | 3 => {
                let (t, m) = if *i == 0 { (&mut a, &mut ma) } else { (&mut b, &mut mb) };
                let (x, y) = (t.start(), mstart(m));
                if x != y {
                    return Err(at(format!("start gave {}, not {}", x, y)));
                }
            }
            1 | 4 => {
                let (t, m) = if *i == 1 { (&mut a, &mut ma) } else { (&mut b, &mut mb) };
                let (x, y) = (t.stop(), mstop(m));
                if x != y {
                    return Err(at(format!("stop gave {:?}, not {:?}", x, y)));
                }
            }
            2 => {
                a.reset();
                ma = MTimer::default();
                if a != Timer::new() {
                    return Err(at("a reset timer isn't a new one".into()));
                }
            }
            5 => {
                b.reset();
                mb = MTimer::default();
            }
            6 => {
                a = b.clone();
                ma = mb.clone();
            }
            7 => {
                b = a.clone();
                mb = ma.clone();
            }
            _ => CLOCK.with(|c| {
                let (s, ns) = c.get().unwrap();
                let (ds, dn) = [(0, 1), (0, 999_999_999), (3, 0)][*i - 8];
                let ns = ns + dn;
                c.set(Some((s + ds + ns / 1_000_000_000, ns % 1_000_000_000)));
            }),
        }
        st.transitions += 1;
        agree(&a, &ma).map_err(|e| at(format!("a: {}", e.msg)))?;
        agree(&b, &mb).map_err(|e| at(format!("b: {}", e.msg)))?;
        if (a == b) != (ma == mb) {
            return Err(at(format!("whether {:?} equals {:?} is {}", a, b, a == b)));
        }
    }
    st.state(h64(format!("{:?}{:?}", ma, mb).as_bytes()));
    Ok(())
}

pub fn c26(t: Tier) -> Check {
    Check::new("a history of operations on two timers and clock ticks, or a pair of clock readings; states: of both timers")
        .assume("the monotonic clock doesn't go backwards")
        .sub("all_histories", move |w| {
            for n in 0..=t.pick(6, 7) {
                sequences(TOPS.len(), n, |ix| {
                    w.case(
                        || ix.iter().map(|i| TOPS[*i]).collect::<Vec<_>>().join("; "),
                        |st| timer_history(ix, (1000, 5), st),
                    );
                });
            }
        })
        .sub("one_timer_deeper", move |w| {
            let some = [0usize, 1, 2, 8, 9];
            for n in 6..=t.pick(7, 8) {
                sequences(some.len(), n, |ix| {
                    let ix: Vec<usize> = ix.iter().map(|i| some[*i]).collect();
                    w.case(
                        || ix.iter().map(|i| TOPS[*i]).collect::<Vec<_>>().join("; "),
                        |st| timer_history(&ix, (7, 999_999_998), st),
                    );
                });
            }
        })
        .sub("clock_readings", move |w| {
            let ss = [
                0i64, 1, 2, 59, 60, 999, 1000, 65_535, 65_536, 99_999, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32,
                (1 << 53) - 1, 1 << 53, (1 << 53) + 1, i64::MAX / 1_000_000_000, i64::MAX / 1_000_000_000 + 1, i64::MAX / 1000,
                i64::MAX - 1, i64::MAX,
            ];
            let nn = [0i64, 1, 2, 999, 1000, 1001, 65_535, 65_536, 999_999, 1_000_000, 1_000_001, 499_999_999, 500_000_000, 999_999_998, 999_999_999];
            let mut at: Vec<(i64, i64)> = vec![];
            for s in ss {
                for n in nn {
                    at.push((s, n));
                }
            }
            at.sort();
            for (i, a) in at.iter().enumerate() {
                for b in &at[i..] {
                    w.case(
                        || format!("start at {:?}, stop at {:?}", a, b),
                        |st| {
                            st.transitions += 2;
                            let _f = Faked::at(a.0, a.1);
                            let mut t = Timer::new();
                            ensure!(t.start(), "start failed");
                            CLOCK.with(|c| c.set(Some(*b)));
                            let want = Duration::new(b.0 as u64, b.1 as u32) - Duration::new(a.0 as u64, a.1 as u32);
                            let got = t.stop();
                            CLOCK.with(|c| c.set(Some((5, 5))));
                            ensure!(got == Some(want), "stop gave {:?}, not {:?}", got, want);
                            ensure!(t.duration() == Some(want), "duration is {:?}, not {:?}", t.duration(), want);
                            Ok(())
                        },
                    );
                }
            }
        })
}

// ---------------------------------------------------------------- C29

#[derive(Clone, Debug)]
enum SOp {
    Insert(usize, &'static [u8], usize),
    Remove(usize, &'static [u8]),
    Mut(usize, &'static [u8], usize),
    OrInsert(usize, &'static [u8], usize, Option<usize>),
    Clone2,
}

/// `values`, with a few more, by number.
fn sval(i: usize) -> MVal {
    let v: Vec<MVal> = (0..2).flat_map(values).collect();
    v[i].clone()
}

fn store_ops() -> Vec<SOp> {
    let mut v = vec![SOp::Clone2];
    for h in [0usize, 2] {
        for k in [&b"a"[..], b"bb"] {
            v.push(SOp::Remove(h, k));
            for i in [3usize, 5, 6] {
                v.push(SOp::Insert(h, k, i));
            }
            v.push(SOp::Mut(h, k, 3));
            v.push(SOp::Mut(h, k, 4));
            v.push(SOp::OrInsert(h, k, 7, None));
            v.push(SOp::OrInsert(h, k, 3, Some(11)));
        }
    }
    v.push(SOp::Insert(1, b"a", 4));
    v.push(SOp::Remove(1, b"a"));
    v
}

struct Stores {
    /// The store, a handle on it (replaced by `Clone2`), and another store.
    real: [State; 3],
    model: [MState; 2],
}

impl Stores {
    fn m(&mut self, h: usize) -> &mut MState {
        &mut self.model[if h == 2 { 1 } else { 0 }]
    }

    fn run(&mut self, o: &SOp, uni: &[Vec<u8>], st: &mut Stats) -> Res {
        st.transitions += 1;
        match o {
            SOp::Clone2 => {
                self.real[1] = self.real[0].clone();
            }
            SOp::Insert(h, k, i) => {
                let v = sval(*i);
                let old = self.real[*h].insert(k.to_vec(), value(&v)).map(|x| mval(&x));
                let want = self.m(*h).keys.insert(k.to_vec(), v);
                ensure!(same_opt(&old, &want), "insert returned {:?}, not {:?}", old, want);
            }
            SOp::Remove(h, k) => {
                let old = self.real[*h].remove(k);
                let want = self.m(*h).keys.remove(*k);
                if let Some((kk, _)) = &old {
                    ensure!(kk == k, "remove returned the key {}", show(kk));
                }
                let old = old.map(|(_, v)| mval(&v));
                ensure!(same_opt(&old, &want), "remove returned {:?}, not {:?}", old, want);
            }
            SOp::Mut(h, k, i) => {
                let v = sval(*i);
                let there = match self.real[*h].key_mut(k) {
                    Some(mut r) => {
                        ensure!(r.key() == k, "the mutable reference is of {}", show(r.key()));
                        // Through the reference to the whole, or to what is in it.
                        if !view_mut(r.value_mut(), v.ty(), &v) {
                            *r.value_mut() = value(&v);
                        }
                        true
                    }
                    None => false,
                };
                let m = self.m(*h).keys.get_mut(*k);
                ensure!(there == m.is_some(), "a mutable reference to {}: {}", show(k), there);
                if let Some(m) = m {
                    *m = v;
                }
            }
            SOp::OrInsert(h, k, i, then) => {
                let v = sval(*i);
                let calls = Cell::new(0);
                let want = self.m(*h).keys.get(*k).cloned();
                {
                    let mut r = self.real[*h].key_or_insert_with(k, || {
                        calls.set(calls.get() + 1);
                        value(&v)
                    });
                    ensure!(r.key() == k, "the reference is of {}", show(r.key()));
                    let got = mval(r.value());
                    ensure!(
                        got.same_bits(want.as_ref().unwrap_or(&v)),
                        "get-or-insert gave {}, not {}", got.show(), want.as_ref().unwrap_or(&v).show()
                    );
                    if let Some(n) = then {
                        *r.value_mut() = value(&sval(*n));
                    }
                }
                ensure!(calls.get() == want.is_none() as u32, "the default ran {} times", calls.get());
                let now = then.map(sval).unwrap_or_else(|| want.unwrap_or(v));
                self.m(*h).keys.insert(k.to_vec(), now);
            }
        }
        for (h, m) in [(0usize, 0usize), (1, 0), (2, 1)] {
            let d = dump(&self.real[h], uni)?;
            ensure!(d.same_keys(&self.model[m]), "handle {} holds {}, not {}", h, d.show(), self.model[m].show());
            for k in uni {
                let t = self.real[h].key_type(k).map(kt_num);
                let want = self.model[m].keys.get(k).map(|v| v.ty());
                ensure!(t == want, "the type of {} is {:?}, not {:?}", show(k), t, want);
            }
        }
        Ok(())
    }
}

fn same_opt(a: &Option<MVal>, b: &Option<MVal>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.same_bits(b),
        _ => false,
    }
}

fn store_history(ops: &[SOp], st: &mut Stats) -> Res {
    let a = State::new();
    let b = a.clone();
    let mut s = Stores { real: [a, b, State::default()], model: Default::default() };
    let uni = ls(&[b"", b"a", b"bb", b"c", b"A"]);
    for (i, o) in ops.iter().enumerate() {
        s.run(o, &uni, st).map_err(|e| Fail::from(format!("step {} ({:?}): {}", i + 1, o, e.msg)))?;
    }
    st.state(h64(&[s.model[0].canon(), b"/".to_vec(), s.model[1].canon()].concat()));
    Ok(())
}

/// Two engines, with commands and direct accesses through any of the handles.
fn engines_history(ix: &[usize], alpha: &[Cmd], uni: &[Vec<u8>], st: &mut Stats) -> Res {
    let one = Hop::new();
    let other = Hop::builder().build();
    let hops = [one.clone(), one, other];
    let mut ms = [MState::default(), MState::default()];
    for i in ix {
        let (h, c) = (i / alpha.len(), &alpha[i % alpha.len()]);
        let m = if h == 2 { 1 } else { 0 };
        let want = ms[m].apply(c);
        let got = dispatch(&hops[h], c, b"")?;
        ensure!(same_answer(c, &want, &got), "`{}` on engine {} gave {}, not {}", c.show(), h, show_res(&got), show_res(&want));
        st.transitions += 1;
        for h in 0..3 {
            let m = &ms[if h == 2 { 1 } else { 0 }];
            let d = dump(hops[h].state(), uni)?;
            ensure!(d.same_keys(m), "after `{}` engine {} holds {}, not {}", c.show(), h, d.show(), m.show());
        }
    }
    for h in 0..3 {
        let m = &mut ms[if h == 2 { 1 } else { 0 }];
        let r = with_req(&Cmd::new(Op::Stats, None, &[]), |r| {
            let mut b = vec![];
            hops[h].dispatch(r, &mut b).map(|_| b)
        })?;
        let Ok(b) = r else { return Err("stats failed".into()) };
        let MVal::Map(s) = mc::wire::dec_value(&b)? else { return Err("stats isn't a map".into()) };
        // What was never counted may be left out.
        let get = |n: &str| s.get(n.as_bytes()).map_or(0, |v| be_num(v));
        ensure!(
            get("commands_successful") == m.ok && get("commands_errored") == m.err,
            "engine {} counts {} and {}, not {} and {}",
            h, get("commands_successful"), get("commands_errored"), m.ok, m.err
        );
        m.ok += 1;
    }
    st.state(h64(&[ms[0].canon(), b"/".to_vec(), ms[1].canon()].concat()));
    Ok(())
}

/// Two keys, each of which is seen and changed by itself in every way.
fn two_names(a: &[u8], b: &[u8], st: &mut Stats) -> Res {
    let uni = [a.to_vec(), b.to_vec()];
    for way in 0..4 {
        let real = State::new();
        let mut m = MState::default();
        let check = |m: &MState, what: &str| -> Res {
            for k in &uni {
                let want = m.keys.get(k);
                ensure!(real.contains_key(k) == want.is_some(), "{}: whether {} is there: {}", what, show(k), want.is_none());
                let got = real.key_ref(k).map(|r| (r.key().to_vec(), mval(r.value())));
                ensure!(got.as_ref().is_none_or(|g| g.0 == *k), "{}: the reference is to another key", what);
                ensure!(same_opt(&got.map(|g| g.1), &want.cloned()), "{}: the value of {}", what, show(k));
                ensure!(real.key_type(k).map(kt_num) == want.map(|v| v.ty()), "{}: the type of {}", what, show(k));
            }
            Ok(())
        };
        st.transitions += 4;
        let (va, vb) = (MVal::Int(1), MVal::Str("b".into()));
        if way % 2 == 0 {
            let old = real.insert(a.to_vec(), value(&va)).map(|x| mval(&x));
            ensure!(old.is_none(), "inserting {} replaced {:?}", show(a), old);
        } else {
            real.key_or_insert_with(a, || value(&va));
        }
        m.keys.insert(a.to_vec(), va);
        check(&m, "the first is there")?;
        ensure!(real.remove(b).is_none() && real.key_mut(b).is_none(), "{} is there though only {} is", show(b), show(a));
        check(&m, "the other was tried")?;
        if way % 2 == 1 {
            let old = real.insert(b.to_vec(), value(&vb)).map(|x| mval(&x));
            ensure!(old.is_none(), "inserting {} replaced {:?}", show(b), old);
        } else {
            real.key_or_insert_with(b, || value(&vb));
        }
        m.keys.insert(b.to_vec(), vb);
        check(&m, "both are there")?;
        match real.key_mut(a) {
            Some(mut r) => *r.value_mut() = Value::Boolean(true),
            None => return Err(format!("{} can't be changed", show(a)).into()),
        }
        m.keys.insert(a.to_vec(), MVal::Bool(true));
        check(&m, "the first was changed")?;
        let gone = if way < 2 { a } else { b };
        let old = real.remove(gone);
        ensure!(old.as_ref().is_some_and(|(k, _)| k == gone), "removing {} gave {:?}", show(gone), old.map(|o| o.0));
        m.keys.remove(gone);
        check(&m, "one was removed")?;
    }
    Ok(())
}

fn be_num(v: &[u8]) -> u64 {
    v.iter().fold(0, |a, b| a << 8 | *b as u64)
}

pub fn c29(t: Tier) -> Check {
    Check::new("a history of accesses to stores or engines; states: contents of both stores")
        .sub("all_histories", move |w| {
            let ops = store_ops();
            for n in 0..=t.pick(3, 4) {
                sequences(ops.len(), n, |ix| {
                    let h: Vec<SOp> = ix.iter().map(|i| ops[*i].clone()).collect();
                    w.case(|| format!("{:?}", h), |st| store_history(&h, st));
                });
            }
        })
        .sub("one_key_deeper", move |w| {
            let ops = [
                SOp::Insert(0, b"a", 3),
                SOp::Insert(1, b"a", 6),
                SOp::Remove(1, b"a"),
                SOp::Mut(0, b"a", 3),
                SOp::OrInsert(1, b"a", 7, None),
                SOp::OrInsert(0, b"a", 3, Some(11)),
            ];
            for n in 4..=t.pick(5, 6) {
                sequences(ops.len(), n, |ix| {
                    let h: Vec<SOp> = ix.iter().map(|i| ops[*i].clone()).collect();
                    w.case(|| format!("{:?}", h), |st| store_history(&h, st));
                });
            }
        })
        .sub("every_pair_of_values", move |w| {
            for i in 0..16 {
                for j in 0..16 {
                    for k in [&b"a"[..], b"\0", b"\xff\xfe", b"__hop__", b"__hop_", b"a longer key than the others are in here"] {
                        let hs = [
                            vec![SOp::Insert(0, k, i), SOp::Insert(0, k, j), SOp::Remove(0, k), SOp::Remove(0, k)],
                            vec![SOp::Insert(0, k, i), SOp::Mut(0, k, j), SOp::OrInsert(0, k, i, None)],
                            vec![SOp::OrInsert(0, k, i, Some(j)), SOp::OrInsert(0, k, i, None), SOp::Remove(0, k)],
                            vec![SOp::Insert(0, k, i), SOp::Insert(2, k, j), SOp::Remove(0, k)],
                        ];
                        for h in &hs {
                            w.case(|| format!("{:?}", h), |st| {
                                let a = State::new();
                                let b = a.clone();
                                let mut s = Stores { real: [a, b, State::new()], model: Default::default() };
                                let uni = vec![k.to_vec(), vec![], [k, &b"x"[..]].concat()];
                                for o in h {
                                    s.run(o, &uni, st).map_err(|e| Fail::from(format!("{:?}: {}", o, e.msg)))?;
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        })
        .sub("similar_values", move |w| {
            for ty in TYPES {
                let vs = similar_values(ty);
                for v in &vs {
                    for x in &vs {
                        w.case(|| format!("{} and then {}", v.show(), x.show()), |st| {
                            let s = State::new();
                            let k = b"k".to_vec();
                            let read = |s: &State| s.key_ref(b"k").map(|r| mval(r.value()));
                            st.transitions += 4;
                            ensure!(s.insert(k.clone(), value(v)).is_none(), "it was there already");
                            let old = s.insert(k.clone(), value(x)).map(|o| mval(&o));
                            ensure!(old.as_ref().is_some_and(|o| o.same_bits(v)), "inserting replaced {:?}", old);
                            ensure!(read(&s).is_some_and(|r| r.same_bits(x)), "it is {:?} after inserting", read(&s));
                            *s.key_mut(b"k").ok_or("it is gone")?.value_mut() = value(v);
                            ensure!(read(&s).is_some_and(|r| r.same_bits(v)), "it is {:?} after writing", read(&s));
                            let r = mval(s.key_or_insert_with(b"k", || value(x)).value());
                            ensure!(r.same_bits(v), "it is {:?} though it was there", r);
                            let gone = s.remove(b"k").map(|r| mval(&r.1));
                            ensure!(gone.as_ref().is_some_and(|o| o.same_bits(v)), "removing gave {:?}", gone);
                            Ok(())
                        });
                    }
                }
            }
        })
        .sub("many_keys", move |w| {
            // Enough keys for every shard to hold several, however they hash.
            for n in [1usize, 2, 15, 16, 17, 255, 256, 257, 1000] {
                for gone in 0..4usize {
                    w.case(|| format!("{} keys, every {} removed", n, gone + 2), |st| {
                        let s = State::new();
                        let key = |i: usize| format!("k{}", i).into_bytes();
                        for i in 0..n {
                            ensure!(s.insert(key(i), Value::Integer(i as i64)).is_none(), "key {} was there already", i);
                        }
                        for i in (0..n).filter(|i| i % (gone + 2) == 0) {
                            let r = s.remove(&key(i));
                            ensure!(matches!(&r, Some((k, Value::Integer(v))) if *k == key(i) && *v == i as i64), "removed {:?}", r);
                        }
                        for i in 0..n + 3 {
                            st.transitions += 1;
                            let want = i < n && i % (gone + 2) != 0;
                            ensure!(s.contains_key(&key(i)) == want, "whether key {} is there: {}", i, !want);
                            let got = s.key_ref(&key(i)).and_then(|r| r.value().as_integer_ref().copied());
                            ensure!(got == if want { Some(i as i64) } else { None }, "key {} is {:?}", i, got);
                        }
                        Ok(())
                    });
                }
            }
        })
        .sub("names", move |w| {
            // Keys that differ in little are different keys.
            let mut ks = odd_keys();
            ks.extend(similar_keys());
            ks.extend((2..5).map(|n| vec![0; n]));
            for tail in [&b"\0\0"[..], b" ", b"\n", b"\r\n", b":", b";", b".", b"*", b"\xff"] {
                ks.push([b"a", tail].concat());
                ks.push([tail, b"a"].concat());
                ks.push([b"a", tail, b"a"].concat());
            }
            ks.extend([7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 65535, 65536, 65537].map(|n| vec![b'z'; n]));
            ks.extend([7, 8, 15, 16, 31, 32, 64, 128, 65536].map(|n| [vec![b'z'; n - 1], vec![b'y']].concat()));
            ks.sort();
            ks.dedup();
            for a in &ks {
                for b in &ks {
                    if a == b {
                        continue;
                    }
                    w.case(|| format!("{} and {}", show(a), show(b)), |st| two_names(a, b, st));
                }
            }
        })
        .sub("contents", move |w| {
            for c in contents(t == Tier::Thorough) {
                if !c.starts_with(b"__hop__:") {
                    w.case(|| format!("a key {}", show(&c)), |st| two_names(&c, b"other", st));
                }
                for v in values_with(&c) {
                    w.case(|| v.show(), |st| {
                        st.transitions += 1;
                        let s = State::new();
                        s.insert(b"k".to_vec(), value(&v));
                        let got = s.key_ref(b"k").map(|r| mval(r.value()));
                        ensure!(got.as_ref().is_some_and(|g| g.same_bits(&v)), "the value is {:?}", got);
                        let old = s.insert(b"k".to_vec(), Value::Boolean(true)).map(|x| mval(&x));
                        ensure!(same_opt(&old, &Some(v.clone())), "the value replaced is {:?}", old);
                        s.key_or_insert_with(b"l", || value(&v));
                        let got = s.remove(b"l").map(|(_, x)| mval(&x));
                        ensure!(same_opt(&got, &Some(v.clone())), "the value removed is {:?}", got);
                        Ok(())
                    });
                }
            }
        })
        .sub("engines", move |w| {
            let alpha = vec![
                set_cmd(b"a", &MVal::Int(1)),
                Cmd::new(Op::Increment, None, &[b"a"]),
                Cmd::new(Op::Append, Some(T_LIST), &[b"a", b"x"]),
                Cmd::new(Op::Delete, None, &[b"a"]),
                Cmd::new(Op::Rename, None, &[b"a", b"bb"]),
                Cmd::new(Op::Get, None, &[b"bb"]),
            ];
            let uni = universe(&alpha);
            for n in 0..=t.pick(3, 4) {
                sequences(alpha.len() * 3, n, |ix| {
                    w.case(
                        || ix.iter().map(|i| format!("engine {}: {}", i / 6, alpha[i % 6].show())).collect::<Vec<_>>().join("; "),
                        |st| engines_history(ix, &alpha, &uni, st),
                    );
                });
            }
        })
}

/// A step of configuring engines.
#[derive(Clone, Copy, Debug)]
enum COp {
    PubSub(bool),
    Max(usize),
    /// Go on with a copy, and build the original.
    Fork,
    Build,
    Convert,
    /// An engine that isn't configured.
    Plain(bool),
    /// A copy of the last engine, which the original is dropped for.
    Copy,
    /// Use the last engine.
    Use,
}

fn configured(ops: &[COp], st: &mut Stats) -> Res {
    use hop_engine::hop::Builder;
    let mut b = Builder::new();
    let mut m = (true, usize::MAX);
    let mut hops: Vec<(hop_engine::Hop, (bool, usize))> = vec![];
    for o in ops {
        st.transitions += 1;
        match *o {
            COp::PubSub(x) => {
                b.pubsub_enabled(x);
                m.0 = x;
            }
            COp::Max(x) => {
                b.sessions_active_max(x);
                m.1 = x;
            }
            COp::Fork => {
                let c = b.clone();
                hops.push((std::mem::replace(&mut b, c).build(), m));
            }
            COp::Build => {
                hops.push((std::mem::replace(&mut b, hop_engine::Hop::builder()).build(), m));
                m = (true, usize::MAX);
            }
            COp::Convert => {
                hops.push((std::mem::take(&mut b).into(), m));
                m = (true, usize::MAX);
            }
            COp::Plain(new) => hops.push((if new { hop_engine::Hop::new() } else { hop_engine::Hop::default() }, (true, usize::MAX))),
            COp::Copy => {
                if let Some((h, m)) = hops.pop() {
                    hops.push((h.clone(), m));
                }
            }
            COp::Use => {
                if let Some((h, _)) = hops.last() {
                    let mut s = h.sessions().clone();
                    s.add([1; 32]);
                    s.add([2; 32]);
                    s.remove(0);
                    h.state().insert(b"a".to_vec(), hop_engine::state::Value::integer());
                }
            }
        }
        for (i, (h, m)) in hops.iter().enumerate() {
            let c = h.config();
            let d = c.clone();
            ensure!(
                (c.pubsub_enabled(), c.sessions_active_max()) == *m && (d.pubsub_enabled(), d.sessions_active_max()) == *m,
                "engine {} is configured as {:?} after {:?}, expected {:?}",
                i,
                c,
                o,
                m
            );
        }
    }
    let mut l: Vec<_> = hops.iter().map(|x| x.1).collect();
    l.push(m);
    st.state(h64(format!("{:?}", l).as_bytes()));
    Ok(())
}

pub fn c32(t: Tier) -> Check {
    Check::new("a history of configuring engines; states: the engines' configurations").sub("all_histories", move |w| {
        let ops = [
            COp::PubSub(true),
            COp::PubSub(false),
            COp::Max(0),
            COp::Max(150),
            COp::Max(usize::MAX),
            COp::Fork,
            COp::Build,
            COp::Convert,
            COp::Plain(true),
            COp::Plain(false),
            COp::Copy,
            COp::Use,
        ];
        for n in 0..=t.pick(4, 5) {
            sequences(ops.len(), n, |ix| {
                let h: Vec<COp> = ix.iter().map(|i| ops[*i]).collect();
                w.case(|| format!("{:?}", h), |st| configured(&h, st));
            });
        }
    })
}
