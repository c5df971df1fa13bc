//! C16, C17 and C30: the server's `main` on the simulated network.
use crate::choices::*;
use mc::wire::*;
use mc::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::io::ErrorKind;
use std::net::{IpAddr, SocketAddr};
use std::rc::Rc;
use std::sync::Mutex;
use tokio::sim::{self, Do, Policy, Step};

const STEPS: usize = 2_000_000;

/// What is sent: a request, or bytes that are none.
#[derive(Clone, Debug)]
pub enum Item {
    Req(Cmd),
    Bad(Vec<u8>, u8),
}

impl Item {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Item::Req(c) => enc_req(c),
            Item::Bad(b, _) => b.clone(),
        }
    }
    fn show(&self) -> String {
        match self {
            Item::Req(c) if c.args.iter().map(|a| a.len()).sum::<usize>() > 200 => {
                format!("{} ({} arguments of {:?}.. bytes)", c.op.name(), c.args.len(), c.args.iter().map(|a| a.len()).take(3).collect::<Vec<_>>())
            }
            Item::Req(c) => c.show(),
            Item::Bad(b, _) => format!("(invalid {})", show(b)),
        }
    }
}

fn show_items(l: &[Item]) -> String {
    l.iter().map(|i| i.show()).collect::<Vec<_>>().join("; ")
}

#[derive(Clone)]
enum Want {
    Ran(Cmd, Result<MVal, u8>),
    Parse(u8),
}

impl Want {
    fn is(&self, r: &MResp) -> bool {
        match (self, r) {
            (Want::Ran(c, Ok(w)), MResp::Val(v)) if c.op == Op::Stats => same_stats(w, v),
            (Want::Ran(c, w), MResp::Val(v)) => same_answer(c, w, &Ok(v.clone())),
            (Want::Ran(c, w), MResp::Dispatch(e)) => same_answer(c, w, &Err(*e)),
            (Want::Parse(e), MResp::Parse(f)) => e == f,
            _ => false,
        }
    }
    fn show(&self) -> String {
        match self {
            Want::Ran(c, w) => format!("{} to `{}`", show_res(w), c.show()),
            Want::Parse(e) => format!("parse error {}", e),
        }
    }
}

fn expect(m: &mut MState, i: &Item) -> Want {
    match i {
        Item::Req(c) => Want::Ran(c.clone(), m.apply(c)),
        Item::Bad(_, e) => Want::Parse(*e),
    }
}

/// The answers that are complete in what was received, and whether there's more.
fn decode(b: &[u8]) -> Result<(Vec<MResp>, usize), String> {
    let mut l = vec![];
    let mut i = 0;
    while i + 4 <= b.len() {
        let n = u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        if i + 4 + n > b.len() {
            break;
        }
        let (r, n) = dec_resp(&b[i..])?;
        l.push(r);
        i += n;
    }
    Ok((l, b.len() - i))
}

/// Run the server. `step` is asked for every step.
pub fn serve(mut step: impl FnMut(&[usize]) -> Result<Step, Fail>) -> Result<Option<Result<(), String>>, Fail> {
    let mut fail = None;
    let mut n = 0;
    let r = {
        let mut drive = |ready: &[usize]| -> Step {
            n += 1;
            if n > STEPS {
                fail = Some(Fail::from("the server never comes to rest"));
                return Step::Stop;
            }
            match step(ready) {
                Ok(s) => s,
                Err(f) => {
                    fail = Some(f);
                    Step::Stop
                }
            }
        };
        guarded(|| sim::drive(&mut drive, server_main::sim_main))
    };
    match fail {
        Some(f) => Err(f),
        None => r.map_err(|e| Fail::from(format!("the server {}", e))),
    }
}

/// Run the server, its tasks in order, and let `idle` act when none can run,
/// until it says that it's done.
fn serve_idle(mut idle: impl FnMut() -> Result<bool, Fail>) -> Res {
    match serve(|ready| match ready.first() {
        Some(t) => Ok(Step::Run(*t)),
        None => Ok(if idle()? { Step::Acted } else { Step::Stop }),
    })? {
        None => Ok(()),
        Some(r) => Err(Fail::from(format!("the server ended: {:?}", r))),
    }
}

/// Send a stream cut into chunks to the server, which has to have answered
/// what is complete after each of them.
fn stream(items: &[Item], cuts: &[usize], policy: impl Policy + 'static, st: &mut Stats) -> Res {
    fresh(policy);
    let mut at = 0;
    let mut conn = None;
    let bytes: Vec<u8> = items.iter().flat_map(|i| i.bytes()).collect();
    let mut m = MState::default();
    let mut wants = vec![];
    let mut left: VecDeque<(usize, &Item)> = VecDeque::new();
    let mut pos = 0;
    for i in items {
        pos += i.bytes().len();
        left.push_back((pos, i));
    }
    let mut chunk = 0;
    let mut ended = false;
    let mut steps = 0;
    let r = serve_idle(|| {
        steps += 1;
        let Some(c) = conn else {
            ensure!(sim::listening(), "the server doesn't listen");
            conn = Some(sim::open());
            return Ok(true);
        };
        while let Some((end, i)) = left.front() {
            if *end > at {
                break;
            }
            wants.push(expect(&mut m, i));
            left.pop_front();
        }
        let got = sim::sent(c, 1);
        let (l, rest) = decode(&got)?;
        for (i, r) in l.iter().enumerate() {
            match wants.get(i) {
                Some(w) => ensure!(w.is(r), "answer {} is {}, expected {}", i, r.show(), w.show()),
                None => return Err(Fail::from(format!("an answer more than requests: {}", r.show()))),
            }
        }
        ensure!(rest == 0, "{} bytes of {} are no answer", rest, show(&got));
        ensure!(l.len() == wants.len(), "after {} bytes {} of {} answers were sent", at, l.len(), wants.len());
        ensure!(sim::unread(c, 0) == 0, "the server doesn't read");
        if ended {
            ensure!(sim::closed(c, 1), "the connection isn't closed after its end");
            return Ok(false);
        }
        ensure!(!sim::finished(c, 1), "the connection is closed after {} bytes", at);
        if at == bytes.len() {
            sim::fin(c, 0);
            ended = true;
            return Ok(true);
        }
        let end = cuts.get(chunk).copied().unwrap_or(bytes.len());
        chunk += 1;
        sim::push(c, 0, &bytes[at..end]);
        at = end;
        Ok(true)
    });
    st.transitions += steps;
    st.state(h64(&m.canon()));
    let r2 = r.map_err(|f| Fail { key: f.key, msg: format!("{} (chunks end at {:?})", f.msg, cuts) });
    r2?;
    ensure!(sim::panics().is_empty(), "a task panicked: {:?}", sim::panics());
    for w in &wants {
        st.outcome(w.show().as_bytes());
    }
    Ok(())
}

/// A connection on which `n` requests are sent, `each` at a time, each batch when
/// all before it was answered.
fn long(items: &[Item], n: usize, each: usize, st: &mut Stats) -> Res {
    fresh(sim::Plain);
    let mut m = MState::default();
    let (mut conn, mut sent, mut at, mut ended) = (None, 0, 0, false);
    let mut wants: Vec<Want> = vec![];
    serve_idle(|| {
        st.transitions += 1;
        let Some(c) = conn else {
            conn = Some(sim::open());
            return Ok(true);
        };
        let got = sim::sent_since(c, 1, at);
        at += got.len();
        let (l, rest) = decode(&got)?;
        ensure!(rest == 0 && l.len() == wants.len(), "{} of {} answers to what was sent after {} requests, and {} bytes more", l.len(), wants.len(), sent - wants.len(), rest);
        for (r, w) in l.iter().zip(&wants) {
            ensure!(w.is(r), "after {} requests an answer is {}, expected {}", sent - wants.len(), r.show(), w.show());
        }
        if ended {
            ensure!(sim::closed(c, 1), "the connection isn't closed after its end");
            return Ok(false);
        }
        ensure!(!sim::finished(c, 1), "the connection is closed after {} requests", sent);
        wants.clear();
        if sent >= n {
            sim::fin(c, 0);
            ended = true;
            return Ok(true);
        }
        let mut b = vec![];
        for _ in 0..each {
            let i = &items[sent % items.len()];
            wants.push(expect(&mut m, i));
            b.extend(i.bytes());
            sent += 1;
        }
        sim::push(c, 0, &b);
        Ok(true)
    })?;
    ensure!(sim::panics().is_empty(), "a task panicked: {:?}", sim::panics());
    st.state(h64(&m.canon()));
    Ok(())
}

/// Whether each invalid item is the last of a chunk: what follows it in the
/// same one can't be told apart from it.
fn sound(items: &[Item], cuts: &[usize]) -> bool {
    let total: usize = items.iter().map(|i| i.bytes().len()).sum();
    let mut pos = 0;
    items.iter().all(|i| {
        pos += i.bytes().len();
        !matches!(i, Item::Bad(..)) || pos == total || cuts.contains(&pos)
    })
}

/// All ways to cut n bytes: all of them if there are few, else at most `most`
/// places to cut at.
fn cuttings(n: usize, all_to: usize, most: usize, mut f: impl FnMut(&[usize])) {
    if n <= all_to {
        for m in 0u64..1 << (n.max(1) - 1) {
            let c: Vec<usize> = (1..n).filter(|i| m >> (i - 1) & 1 == 1).collect();
            f(&c);
        }
        return;
    }
    f(&[]);
    let every: Vec<usize> = (1..n).collect();
    f(&every);
    for a in 1..n {
        if most >= 1 {
            f(&[a]);
        }
        for b in a + 1..n {
            if most >= 2 {
                f(&[a, b]);
            }
            if most >= 3 {
                for c in b + 1..n {
                    f(&[a, b, c]);
                }
            }
        }
    }
}

fn cmd(op: Op, ty: Option<u8>, a: &[&[u8]]) -> Item {
    Item::Req(Cmd::new(op, ty, a))
}

fn bad() -> Vec<Item> {
    vec![
        Item::Bad(vec![99], 0),
        Item::Bad(vec![0x7f], 0),
        Item::Bad(vec![0xff], 0),
        Item::Bad(vec![Op::Get as u8 | 0x80, 8], 1),
        Item::Bad(vec![Op::Stats as u8 | 0x80, 255], 1),
    ]
}

/// One of every command, ones that fail, ones of types, and ones whose
/// arguments look like other parts of a request.
fn items() -> Vec<Item> {
    use Op::*;
    let k: &[u8] = b"k";
    let mut v = vec![
        cmd(Stats, None, &[]),
        cmd(Stats, Some(T_INT), &[]),
        cmd(Increment, None, &[k]),
        cmd(Increment, Some(T_FLOAT), &[b"f"]),
        cmd(IncrementBy, Some(T_INT), &[k, &5i64.to_be_bytes()]),
        cmd(Decrement, None, &[k]),
        cmd(DecrementBy, None, &[k, &(-1i64).to_be_bytes()]),
        cmd(Append, Some(T_LIST), &[b"l", b"\n", b""]),
        cmd(Append, None, &[k, b"x"]),
        cmd(Append, Some(T_STR), &[b"\n", b"\0\0\0\x01"]),
        cmd(Set, Some(T_STR), &[k, "é".as_bytes()]),
        cmd(Set, Some(T_MAP), &[b"m", b"a", b"b"]),
        cmd(Set, Some(T_SET), &[b"s", b"a", b""]),
        cmd(Set, Some(T_BOOL), &[b"\0", b"\x01"]),
        cmd(Set, None, &[k, b"\n\n"]),
        cmd(Get, None, &[k]),
        cmd(Get, Some(T_LIST), &[b"l"]),
        cmd(Get, Some(T_INT), &[k]),
        cmd(Get, None, &[]),
        cmd(Delete, None, &[k]),
        cmd(Rename, None, &[k, b"\n"]),
        cmd(Exists, None, &[k, b"l", b"\0"]),
        cmd(Is, Some(T_INT), &[k]),
        cmd(Type, None, &[k]),
        cmd(Keys, None, &[b"m"]),
        cmd(Length, None, &[b"l"]),
        cmd(Length, Some(T_BYTES), &[b"\n"]),
        cmd(Echo, None, &[]),
        cmd(Echo, None, &[b"", b"\xff\x80\n"]),
        cmd(Echo, None, &[&enc_req(&Cmd::new(Stats, None, &[]))]),
        cmd(Echo, Some(T_INT), &[b"\0\0\0\0"]),
    ];
    v.extend(bad());
    v
}

fn few() -> Vec<Item> {
    use Op::*;
    vec![
        cmd(Stats, None, &[]),
        cmd(Increment, None, &[b"k"]),
        cmd(Set, None, &[b"k", b"\n"]),
        cmd(Get, Some(T_INT), &[b"k"]),
        cmd(Echo, None, &[b"\n"]),
        cmd(Append, Some(T_LIST), &[b"k", b"", b"\0"]),
        Item::Bad(vec![99], 0),
        Item::Bad(vec![Op::Get as u8 | 0x80, 8], 1),
    ]
}

/// Reads and writes of one byte each, each only when tried again.
pub struct Slow(pub bool, pub usize, pub usize);
impl Policy for Slow {
    fn read(&mut self, _: usize, _: usize, _: usize, _: usize) -> Do {
        if self.1 == 0 {
            return Do::Upto(usize::MAX);
        }
        self.0 = !self.0;
        if self.0 { Do::Later } else { Do::Upto(self.1) }
    }
    fn write(&mut self, _: usize, _: usize, _: usize) -> Do {
        if self.2 == 0 {
            return Do::Upto(usize::MAX);
        }
        self.0 = !self.0;
        if self.0 { Do::Later } else { Do::Upto(self.2) }
    }
}

/// Writes blocked until the harness lets them through.
struct Blocked(Rc<RefCell<bool>>);
impl Policy for Blocked {
    fn write(&mut self, _: usize, _: usize, _: usize) -> Do {
        if *self.0.borrow() { Do::Block } else { Do::Upto(usize::MAX) }
    }
}

/// Requests arrive while answers can't be written, which is possible again
/// after the nth.
fn blocked(items: &[Item], until: usize, st: &mut Stats) -> Res {
    let shut = Rc::new(RefCell::new(true));
    fresh(Blocked(shut.clone()));
    let mut m = MState::default();
    let wants: Vec<Want> = items.iter().map(|i| expect(&mut m, i)).collect();
    let (mut conn, mut n, mut ended) = (None, 0, false);
    serve_idle(|| {
        st.transitions += 1;
        let Some(c) = conn else {
            conn = Some(sim::open());
            return Ok(true);
        };
        if n == until && *shut.borrow() {
            *shut.borrow_mut() = false;
            sim::unblock();
            return Ok(true);
        }
        if n < items.len() {
            sim::push(c, 0, &items[n].bytes());
            n += 1;
            return Ok(true);
        }
        if *shut.borrow() {
            *shut.borrow_mut() = false;
            sim::unblock();
            return Ok(true);
        }
        let got = sim::sent(c, 1);
        let (l, rest) = decode(&got)?;
        ensure!(rest == 0 && l.len() == wants.len(), "{} of {} answers were sent, and {} bytes more", l.len(), wants.len(), rest);
        for (r, w) in l.iter().zip(&wants) {
            ensure!(w.is(r), "an answer is {}, expected {}", r.show(), w.show());
        }
        if !ended {
            ended = true;
            sim::fin(c, 0);
            return Ok(true);
        }
        ensure!(sim::closed(c, 1), "the connection isn't closed after its end");
        Ok(false)
    })
}

pub fn c16(t: Tier) -> Check {
    Check::new("a stream of requests sent to the server, cut into chunks in some way, or its answers taken in some way; states: data at the end")
        .assume("what follows an invalid request is sent after that has been answered")
        .sub("one_request", move |w| {
            for i in items() {
                cuttings(i.bytes().len(), t.pick(12, 16), 3, |c| {
                    w.case(|| format!("{} cut at {:?}", i.show(), c), |st| stream(&[i.clone()], c, sim::Plain, st));
                });
            }
        })
        .sub("two_requests", move |w| {
            let l = items();
            for a in &l {
                for b in &l {
                    let s = [a.clone(), b.clone()];
                    let n = s.iter().map(|i| i.bytes().len()).sum();
                    cuttings(n, t.pick(8, 12), 2, |c| {
                        if sound(&s, c) {
                            w.case(|| format!("{} cut at {:?}", show_items(&s), c), |st| stream(&s, c, sim::Plain, st));
                        }
                    });
                }
            }
        })
        .sub("three_requests", move |w| {
            let l = items();
            let f = few();
            for a in &f {
                for b in if t == Tier::Quick { &f } else { &l } {
                    for d in &f {
                        let s = [a.clone(), b.clone(), d.clone()];
                        let n = s.iter().map(|i| i.bytes().len()).sum();
                        cuttings(n, t.pick(7, 13), 2, |c| {
                            if sound(&s, c) {
                                w.case(|| format!("{} cut at {:?}", show_items(&s), c), |st| stream(&s, c, sim::Plain, st));
                            }
                        });
                    }
                }
            }
        })
        .sub("four_and_five_requests", move |w| {
            let f = few();
            for n in 4..=t.pick(4, 5) {
                sequences(f.len(), n, |s| {
                    let s: Vec<Item> = s.iter().map(|i| f[*i].clone()).collect();
                    let n = s.iter().map(|i| i.bytes().len()).sum();
                    // Between requests, and everywhere.
                    let mut ends = vec![];
                    let mut p = 0;
                    for i in &s {
                        p += i.bytes().len();
                        ends.push(p);
                    }
                    for m in 0..1u32 << s.len() {
                        let c: Vec<usize> = (0..s.len() - 1).filter(|i| m >> i & 1 == 1).map(|i| ends[i]).collect();
                        let c = if m >> (s.len() - 1) & 1 == 1 { c.iter().flat_map(|x| [x.saturating_sub(1), *x]).filter(|x| *x > 0).collect() } else { c };
                        if sound(&s, &c) {
                            w.case(|| format!("{} cut at {:?}", show_items(&s), c), |st| stream(&s, &c, sim::Plain, st));
                        }
                    }
                    let every: Vec<usize> = (1..n).collect();
                    w.case(|| format!("{} byte by byte", show_items(&s)), |st| stream(&s, &every, sim::Plain, st));
                });
            }
        })
        .sub("sizes", move |w| {
            // Sizes around those of any buffer, alone and after one another.
            let big = |n: usize| cmd(Op::Echo, None, &[&(0..n).map(|i| (i * 7 + i / 256) as u8).collect::<Vec<_>>()]);
            let mut sizes: Vec<usize> = (0..t.pick(300, 1200)).collect();
            for p in [512usize, 1024, 2048, 4096, 8192, 16384, 65536] {
                sizes.extend(p - 20..p + 20);
            }
            for &n in &sizes {
                w.case(|| format!("echo of {} bytes", n), |st| stream(&[big(n)], &[], sim::Plain, st));
                w.case(|| format!("echo of {} bytes and another request", n), |st| stream(&[big(n), cmd(Op::Increment, None, &[b"k"])], &[], sim::Plain, st));
                w.case(|| format!("a request and echo of {} bytes", n), |st| stream(&[cmd(Op::Increment, None, &[b"k"]), big(n)], &[], sim::Plain, st));
                w.case(|| format!("echo of {} bytes, twice", n), |st| stream(&[big(n), big(n)], &[n / 2 + 1], sim::Plain, st));
                w.case(|| format!("echo of {} bytes, read 3 at a time and written 5 at a time", n), |st| stream(&[big(n), cmd(Op::Stats, None, &[])], &[], Slow(false, 3 + n / 500, 5 + n / 500), st));
            }
            for n in [65536usize * 2, 1 << 20, (1 << 20) + 1, t.pick(1 << 21, 1 << 24)] {
                w.case(|| format!("echo of {} bytes", n), |st| stream(&[big(n), big(3)], &[5, n / 2], sim::Plain, st));
            }
        })
        .sub("contents", move |w| {
            for c in contents(t == Tier::Thorough) {
                let i = cmd(Op::Echo, None, &[&c, b"k", &c]);
                w.case(|| i.show(), |st| stream(&[i.clone(), i.clone()], &[], sim::Plain, st));
                for v in values_with(&c) {
                    let s = [Item::Req(set_cmd(b"k", &v)), cmd(Op::Get, None, &[b"k"]), cmd(Op::Length, None, &[b"k"])];
                    w.case(|| show_items(&s), |st| stream(&s, &[], sim::Plain, st));
                    let n = s[0].bytes().len();
                    w.case(|| format!("{}, cut", show_items(&s)), |st| stream(&s, &[n - 1, n], sim::Plain, st));
                }
            }
        })
        .sub("arguments", move |w| {
            for n in 0..=255usize {
                for len in [0usize, 1, 3, 20] {
                    let a: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8; len]).collect();
                    let i = Item::Req(Cmd { op: Op::Echo, ty: None, args: a });
                    let total = i.bytes().len();
                    for c in [vec![], vec![1], vec![total - 1], vec![total / 2], (1..total).collect()] {
                        let c: Vec<usize> = c.into_iter().filter(|x| *x > 0 && *x < total).collect();
                        w.case(|| format!("echo of {} arguments of {} bytes cut at {} places", n, len, c.len()), |st| {
                            let n = c.len();
                            stream(&[i.clone(), cmd(Op::Stats, None, &[])], &c, sim::Plain, st).map_err(|f| Fail::from(f.msg.chars().take(300 + n * 0).collect::<String>()))
                        });
                    }
                }
            }
        })
        .sub("pipelined", move |w| {
            for i in few().into_iter().filter(|i| matches!(i, Item::Req(_))) {
                for n in (1..=t.pick(40, 150)).chain([255, 256, 257, 1000, t.pick(2000, 10000)]) {
                    if n > 2000 && matches!(&i, Item::Req(c) if c.op == Op::Append) {
                        // Its answers grow.
                        continue;
                    }
                    let s: Vec<Item> = vec![i.clone(); n];
                    let total = i.bytes().len() * n;
                    w.case(|| format!("{} times {}", n, i.show()), |st| stream(&s, &[], sim::Plain, st));
                    if n <= 150 {
                        for c in 1..total {
                            w.case(|| format!("{} times {} cut at {}", n, i.show(), c), |st| stream(&s, &[c], sim::Plain, st));
                        }
                    }
                }
            }
        })
        .sub("many_after_big", move |w| {
            // What was received before may leave room for much more at once.
            for big in [300usize, 5000, 70_000, t.pick(300_000, 3_000_000)] {
                for i in few().into_iter().filter(|i| matches!(i, Item::Req(_))) {
                    for n in [2usize, 17, 64, 100, 128, 256, 257, 512, 1025, t.pick(4097, 70_000)] {
                        if n > 1025 && matches!(&i, Item::Req(c) if c.op == Op::Append) {
                            continue;
                        }
                        let b = cmd(Op::Set, Some(T_BYTES), &[b"big", &vec![b'x'; big]]);
                        let first = b.bytes().len();
                        let mut s = vec![b.clone()];
                        s.extend(vec![i.clone(); n]);
                        let all = s.iter().map(|i| i.bytes().len()).sum::<usize>();
                        let last = all - i.bytes().len();
                        for cuts in [vec![first], vec![first, last + 1], vec![first - 1], vec![last]] {
                            if last + 1 >= all && cuts.len() > 1 {
                                continue;
                            }
                            w.case(|| format!("{} bytes set, then {} times {}, cut at {:?}", big, n, i.show(), cuts), |st| stream(&s, &cuts, sim::Plain, st));
                        }
                        s.push(b);
                        w.case(|| format!("{} bytes set, then {} times {} and the first again", big, n, i.show()), |st| stream(&s, &[first], sim::Plain, st));
                    }
                }
            }
        })
        .sub("long_connections", move |w| {
            let f: Vec<Item> = few().into_iter().filter(|i| !matches!(i, Item::Req(c) if c.op == Op::Append)).collect();
            let mut l: Vec<Vec<Item>> = f.iter().map(|i| vec![i.clone()]).collect();
            l.push(f.clone());
            for s in l {
                for each in [1usize, 3, 16] {
                    if each > 1 && s.iter().any(|i| matches!(i, Item::Bad(..))) {
                        continue;
                    }
                    let n = t.pick(66_000, 1_100_000);
                    w.case(|| format!("{} requests, {} at a time, by turns of {}", n, each, show_items(&s)), |st| long(&s, n, each, st));
                }
            }
        })
        .sub("writes", move |w| {
            let f = few();
            for n in 1..=t.pick(2, 3) {
                sequences(f.len(), n, |s| {
                    let s: Vec<Item> = s.iter().map(|i| f[*i].clone()).collect();
                    let mut ends = vec![];
                    let mut p = 0;
                    for i in &s[..s.len() - 1] {
                        p += i.bytes().len();
                        ends.push(p);
                    }
                    for cuts in [vec![], ends] {
                        if sound(&s, &cuts) {
                            w.case(
                                || format!("{} cut at {:?}, written in every way", show_items(&s), cuts),
                                |st| explore(st, 1_000_000, |ch, st| stream(&s, &cuts, Writes { ch: ch.clone(), left: t.pick(4, 5) }, st)),
                            );
                        }
                    }
                });
            }
        })
        .sub("slowly", move |w| {
            let l = items();
            for a in &l {
                for b in &l {
                    for c in &few()[..t.pick(2, 6)] {
                        for r in [0usize, 1, 2, 3, 7] {
                            for wr in [0usize, 1, 2, 5] {
                                let s = [a.clone(), b.clone(), c.clone()];
                                let ends = [a.bytes().len(), a.bytes().len() + b.bytes().len()];
                                w.case(|| format!("{}, read {} and written {} at a time", show_items(&s), r, wr), |st| stream(&s, &ends, Slow(false, r, wr), st));
                            }
                        }
                    }
                }
            }
        })
        .sub("blocked_writes", move |w| {
            let f: Vec<Item> = few().into_iter().filter(|i| matches!(i, Item::Req(_))).collect();
            for n in 1..=t.pick(4, 6) {
                sequences(f.len(), n, |s| {
                    let s: Vec<Item> = s.iter().map(|i| f[*i].clone()).collect();
                    for until in 0..=n {
                        w.case(|| format!("{}, answers can be written after {} were sent", show_items(&s), until), |st| blocked(&s, until, st));
                    }
                });
            }
        })
}

// ------------------------------------------------- connections and their faults

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Open,
    /// Opened by a peer whose address can't be told.
    OpenLost,
    Send(Vec<u8>),
    /// Nothing more is sent.
    Fin,
    /// The connection is lost: reads and writes fail.
    Reset(ErrorKind),
    /// Writing to it fails.
    Deaf(ErrorKind),
    /// The peer closes its end.
    HangUp,
}

#[derive(Clone)]
struct Script {
    items: Vec<Item>,
    evs: Vec<Ev>,
}

impl Script {
    /// Items sent in chunks ending at the given places, up to `upto` bytes,
    /// and how it ends.
    fn new(items: &[Item], cuts: &[usize], upto: usize, end: Option<Ev>) -> Script {
        let b: Vec<u8> = items.iter().flat_map(|i| i.bytes()).collect();
        let upto = upto.min(b.len());
        let mut evs = vec![Ev::Open];
        let mut at = 0;
        for &c in cuts.iter().chain([&upto]) {
            if c > at && c <= upto {
                evs.push(Ev::Send(b[at..c].to_vec()));
                at = c;
            }
        }
        evs.extend(end);
        Script { items: items.to_vec(), evs }
    }
    fn show(&self) -> String {
        self.evs
            .iter()
            .map(|e| match e {
                Ev::Send(b) => format!("send {}", show(b)),
                e => format!("{:?}", e),
            })
            .collect::<Vec<_>>()
            .join(", ")
    }
    fn faulty(&self) -> bool {
        self.evs.iter().any(|e| !matches!(e, Ev::Open | Ev::Send(_) | Ev::Fin))
    }
}

/// What was seen of a connection.
#[derive(Default)]
struct Seen {
    conn: Option<usize>,
    next: usize,
    bytes: usize,
    /// When the requests were complete, and when answered.
    sent: Vec<u64>,
    answered: Vec<u64>,
    answers: Vec<MResp>,
    received: usize,
}

/// Writes of the first connection are short and have to be tried again.
struct SlowFirst(bool, usize);
impl Policy for SlowFirst {
    fn write(&mut self, c: usize, _: usize, _: usize) -> Do {
        if c != 0 || self.1 == 0 {
            return Do::Upto(usize::MAX);
        }
        self.0 = !self.0;
        if self.0 { Do::Upto(self.1) } else { Do::Later }
    }
}

const ACCEPT: usize = 500;
const TASK: usize = 1000;

/// Whether two events can be swapped without a difference.
fn independent(a: usize, b: usize, kind: &dyn Fn(usize) -> Kind) -> bool {
    use Kind::*;
    match (kind(a), kind(b)) {
        (Accepting, Accepting) => false,
        (Accepting, Peer(_)) | (Peer(_), Accepting) => a != b,
        (Peer(x), Peer(y)) => x != y,
        (Accepting, Task(t, ..)) | (Task(t, ..), Accepting) => t != 0,
        (Peer(c), Task(_, used, _)) | (Task(_, used, _), Peer(c)) => !used.contains(&c),
        // Only accepts, unless it was seen to do more.
        (Task(0, u, _), Task(t, ..)) | (Task(t, ..), Task(0, u, _)) if u.is_empty() => t != 0,
        // Nothing is run when there's nothing to read.
        (Task(s, u, _), Task(t, v, _)) => s != 0 && t != 0 && u.iter().chain(&v).all(|c| sim::unread(*c, 0) == 0) || pure_pair(s, &u, t, &v),
    }
}
/// Tasks with connections of their own, of which one has nothing to read.
fn pure_pair(s: usize, u: &[usize], t: usize, v: &[usize]) -> bool {
    let idle = |u: &[usize]| u.iter().all(|c| sim::unread(*c, 0) == 0);
    s != 0 && t != 0 && !u.iter().any(|c| v.contains(c)) && (idle(u) || idle(v))
}
enum Kind {
    Accepting,
    Peer(usize),
    /// The connections it uses, and whether it's known.
    Task(usize, Vec<usize>, bool),
}

fn task_kind(t: usize) -> Kind {
    let used = sim::touched(t);
    if used.is_empty() && t != 0 {
        // It may use any which no other does.
        Kind::Task(t, sim::untouched(), false)
    } else {
        Kind::Task(t, used, true)
    }
}

/// How accepting fails.
#[derive(Clone, Copy, Debug)]
enum Accept {
    Kind(ErrorKind),
    Os(i32),
}

/// Explore all orders of the peers' events, failing accepts and tasks.
fn connections(scripts: &[Script], errors: &[Accept], slow: usize, opened: bool, max: u64, st: &mut Stats) -> Res {
    let keys = universe(scripts);
    let mut states = HashSet::new();
    let mut steps = 0;
    let r = explore(st, max, |ch, _| {
        fresh(SlowFirst(false, slow));
        let mut seen: Vec<Seen> = scripts.iter().map(|_| Seen::default()).collect();
        let mut nerr = 0;
        let mut now = 0u64;
        let mut sleep: Vec<usize> = vec![];
        let mut probe: Option<usize> = None;
        let probes: Vec<Cmd> = keys.iter().map(|k| Cmd::new(Op::Get, None, &[k])).chain([Cmd::new(Op::Stats, None, &[])]).collect();
        let mut cut = false;
        let mut closed_then = vec![];
        let r = serve(|ready| {
            now += 1;
            // What has been answered by now?
            for s in seen.iter_mut() {
                let Some(c) = s.conn else { continue };
                let got = sim::sent(c, 1);
                if got.len() > s.received {
                    s.received = got.len();
                    let (l, _) = decode(&got)?;
                    while s.answered.len() < l.len() {
                        s.answered.push(now);
                    }
                    s.answers = l;
                }
            }
            if probe.is_some() {
                // No choices from here on.
                if let Some(t) = ready.first() {
                    return Ok(Step::Run(*t));
                }
                return Ok(Step::Stop);
            }
            if !sim::listening() {
                return match ready.first() {
                    Some(t) => Ok(Step::Run(*t)),
                    None => Err("the server doesn't listen".into()),
                };
            }
            if opened {
                if let Some(s) = seen.iter_mut().find(|s| s.next == 0) {
                    s.next = 1;
                    s.conn = Some(sim::open());
                    return Ok(Step::Acted);
                }
            }
            let mut can: Vec<usize> = ready.iter().map(|t| TASK + t).collect();
            for (i, s) in seen.iter().enumerate() {
                if s.next < scripts[i].evs.len() {
                    can.push(i);
                }
            }
            if nerr < errors.len() {
                can.push(ACCEPT);
            }
            if can.is_empty() {
                closed_then = seen.iter().map(|s| sim::closed(s.conn.unwrap(), 1)).collect();
                let c = sim::open();
                probe = Some(c);
                sim::push(c, 0, &probes.iter().flat_map(enc_req).collect::<Vec<_>>());
                return Ok(Step::Acted);
            }
            let awake: Vec<usize> = can.iter().copied().filter(|e| !sleep.contains(e)).collect();
            if awake.is_empty() {
                cut = true;
                return Ok(Step::Stop);
            }
            let i = ch.borrow_mut().pick(awake.len());
            let e = awake[i];
            sleep.extend(&awake[..i]);
            let kind = |e: usize| {
                if e == ACCEPT {
                    Kind::Accepting
                } else if e >= TASK {
                    task_kind(e - TASK)
                } else if seen[e].next == 0 {
                    Kind::Accepting
                } else {
                    Kind::Peer(seen[e].conn.unwrap())
                }
            };
            sleep.retain(|x| independent(*x, e, &kind));
            if e >= TASK {
                return Ok(Step::Run(e - TASK));
            }
            if e == ACCEPT {
                match errors[nerr] {
                    Accept::Kind(k) => sim::accept_error(k),
                    Accept::Os(n) => sim::accept_os_error(n),
                }
                nerr += 1;
                return Ok(Step::Acted);
            }
            let s = &mut seen[e];
            let ev = &scripts[e].evs[s.next];
            s.next += 1;
            match ev {
                Ev::Open => s.conn = Some(sim::open()),
                Ev::OpenLost => {
                    s.conn = Some(sim::open());
                    sim::no_addr(s.conn.unwrap());
                }
                Ev::Send(b) => {
                    sim::push(s.conn.unwrap(), 0, b);
                    s.bytes += b.len();
                    let mut p = 0;
                    for (n, i) in scripts[e].items.iter().enumerate() {
                        p += i.bytes().len();
                        if p <= s.bytes && s.sent.len() == n {
                            s.sent.push(now);
                        }
                    }
                }
                Ev::Fin => sim::fin(s.conn.unwrap(), 0),
                Ev::Reset(k) => sim::fail(s.conn.unwrap(), 1, Some(*k), Some(*k)),
                Ev::Deaf(k) => sim::fail(s.conn.unwrap(), 1, None, Some(*k)),
                Ev::HangUp => sim::hang_up(s.conn.unwrap(), 0),
            }
            Ok(Step::Acted)
        })?;
        steps += now;
        if let Some(r) = r {
            return Err(Fail::from(format!("the server ended: {:?}", r)));
        }
        if cut {
            ch.borrow_mut().redundant = true;
            return Ok(());
        }
        let lost = scripts.iter().filter(|s| s.evs.contains(&Ev::OpenLost)).count();
        ensure!(sim::panics().len() <= lost, "a task panicked: {:?}", sim::panics());
        for (i, s) in seen.iter().enumerate() {
            let c = s.conn.unwrap();
            let script = &scripts[i];
            ensure!(sim::accepted(c), "connection {} isn't accepted", i);
            let last = script.evs.last().unwrap();
            let closed: bool = closed_then[i];
            if !script.faulty() {
                let (_, rest) = decode(&sim::sent(c, 1))?;
                ensure!(s.answers.len() == s.sent.len() && rest == 0, "connection {} got {} answers and {} bytes to {} requests", i, s.answers.len(), rest, s.sent.len());
                ensure!(closed == (*last == Ev::Fin), "connection {} is {}", i, if closed { "closed" } else { "not closed after its end" });
            } else {
                ensure!(s.answers.len() <= s.sent.len(), "connection {} got {} answers to {} requests", i, s.answers.len(), s.sent.len());
                let told = matches!(last, Ev::Reset(_) | Ev::HangUp | Ev::Fin) || s.answers.len() < s.sent.len();
                ensure!(closed || !told, "connection {} isn't closed although it failed", i);
            }
        }
        let (got, rest) = decode(&sim::sent(probe.unwrap(), 1))?;
        ensure!(got.len() == probes.len() && rest == 0, "a new connection gets {} answers to {} requests", got.len(), probes.len());
        let mut dead = HashSet::new();
        let mut at = vec![0; seen.len()];
        let ok = explained(scripts, &seen, &mut at, &MState::default(), &probes, &got, &mut dead);
        if !ok {
            let l: Vec<String> = seen.iter().map(|s| s.answers.iter().map(|a| a.show()).collect::<Vec<_>>().join(", ")).collect();
            return Err(Fail::from(format!("no order of the requests explains the answers {:?} and then {:?}", l, got.iter().map(|a| a.show()).collect::<Vec<_>>())));
        }
        states.insert(h64(format!("{:?}", got.iter().map(|a| a.show()).collect::<Vec<_>>()).as_bytes()));
        Ok(())
    });
    st.transitions += steps;
    states.into_iter().for_each(|s| st.state(s));
    r
}

fn universe(scripts: &[Script]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for i in scripts.iter().flat_map(|s| &s.items) {
        if let Item::Req(c) = i {
            if let (Some(k), false) = (c.args.first(), c.op == Op::Echo) {
                if !v.contains(k) {
                    v.push(k.clone());
                }
            }
        }
    }
    v
}

/// Whether running the requests in some order gives all the answers: those of a
/// connection in its order, and one that was answered before another was sent
/// before that.
fn explained(scripts: &[Script], seen: &[Seen], at: &mut Vec<usize>, m: &MState, probes: &[Cmd], got: &[MResp], dead: &mut HashSet<(Vec<usize>, Vec<u8>, u64, u64)>) -> bool {
    if !dead.insert((at.clone(), m.canon(), m.ok, m.err)) {
        return false;
    }
    if seen.iter().zip(at.iter()).all(|(s, n)| *n >= s.answers.len()) {
        // The rest may not have been run at all.
        let mut x = m.clone();
        if probes.iter().zip(got).all(|(c, g)| expect(&mut x, &Item::Req(c.clone())).is(g)) {
            return true;
        }
    }
    for i in 0..seen.len() {
        let n = at[i];
        let s = &seen[i];
        if n == s.sent.len() {
            continue;
        }
        let early = seen.iter().enumerate().any(|(j, o)| j != i && o.answered.iter().skip(at[j]).any(|a| *a <= s.sent[n]));
        if early {
            continue;
        }
        let mut x = m.clone();
        let w = expect(&mut x, &scripts[i].items[n]);
        if s.answers.get(n).map_or(true, |a| w.is(a)) {
            at[i] += 1;
            if explained(scripts, seen, at, &x, probes, got, dead) {
                return true;
            }
            at[i] -= 1;
        }
    }
    false
}

fn show_scripts(l: &[Script]) -> String {
    l.iter().map(|s| s.show()).collect::<Vec<_>>().join(" || ")
}

fn ends() -> Vec<Option<Ev>> {
    vec![
        None,
        Some(Ev::Fin),
        Some(Ev::Reset(ErrorKind::ConnectionReset)),
        Some(Ev::Deaf(ErrorKind::BrokenPipe)),
        Some(Ev::HangUp),
    ]
}

pub fn c17(t: Tier) -> Check {
    use Op::*;
    let k: &[u8] = b"k";
    let inc = cmd(Increment, None, &[k]);
    let set = cmd(Set, Some(T_INT), &[k, &7i64.to_be_bytes()]);
    let get = cmd(Get, None, &[k]);
    let stats = cmd(Stats, None, &[]);
    let del = cmd(Delete, None, &[k]);
    let wrong = Item::Bad(vec![99], 0);
    let reqs = vec![inc.clone(), set.clone(), get.clone(), stats.clone(), del.clone()];
    let (r2, r3, r5, inc4, inc5, wrong2) = (reqs.clone(), reqs.clone(), reqs.clone(), inc.clone(), inc.clone(), wrong.clone());
    let (reqs6, inc7) = (reqs.clone(), inc.clone());
    const M: u64 = 2_000_000;
    Check::new("scripts of connections' events, explored in all orders of them and of the server's tasks; states: what is found afterwards")
        .assume("a request is run at once within a task, which C05 to C07 don't assume")
        .sub("two_connections", move |w| {
            for a in &reqs[..t.pick(2, 5)] {
                for b in &reqs[..t.pick(3, 5)] {
                    for x in ends() {
                        for y in ends() {
                            let s = [
                                Script::new(&[a.clone(), inc.clone()], &[a.bytes().len()], usize::MAX, x.clone()),
                                Script::new(&[b.clone()], &[], usize::MAX, y.clone()),
                            ];
                            w.case(|| show_scripts(&s), |st| connections(&s, &[], 0, false, M, st));
                        }
                    }
                }
            }
        })
        .sub("cut_anywhere", move |w| {
            // The first connection ends after any of its bytes.
            for a in &r2 {
                let l = [a.clone(), inc4.clone(), wrong.clone()];
                let n: usize = l.iter().map(|i| i.bytes().len()).sum();
                let ok = a.bytes().len();
                for upto in 0..=n {
                    for x in ends() {
                        let s = [
                            Script::new(&l, &[ok, ok + 3], upto, x.clone()),
                            Script::new(&[inc4.clone()], &[2], usize::MAX, None),
                        ];
                        w.case(|| show_scripts(&s), |st| connections(&s, &[], 0, false, M, st));
                    }
                }
            }
        })
        .sub("three_connections", move |w| {
            for a in &r3[..t.pick(2, 5)] {
                for b in &r3 {
                    for c in &r3[..t.pick(2, 5)] {
                        for x in ends() {
                            for y in &ends()[..t.pick(1, 5)] {
                                let s = [
                                    Script::new(&[a.clone()], &[], usize::MAX, x.clone()),
                                    Script::new(&[b.clone()], &[], usize::MAX, y.clone()),
                                    Script::new(&[c.clone()], &[], usize::MAX, None),
                                ];
                                w.case(|| show_scripts(&s), |st| connections(&s, &[], 0, true, M, st));
                            }
                        }
                    }
                }
            }
        })
        .sub("failing_accepts", move |w| {
            let mut kinds: Vec<Accept> = [ErrorKind::ConnectionAborted, ErrorKind::ConnectionReset, ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::OutOfMemory, ErrorKind::Interrupted, ErrorKind::InvalidInput, ErrorKind::TimedOut].map(Accept::Kind).to_vec();
            // EPERM, ENFILE, EMFILE, EPROTO, EOPNOTSUPP, ENETDOWN, ENETUNREACH,
            // ENOBUFS, EHOSTDOWN, EHOSTUNREACH
            let many = kinds.len();
            kinds.extend([1, 23, 24, 71, 95, 100, 101, 105, 112, 113].map(Accept::Os));
            for n in 1..=t.pick(2, 3) {
                for &a in &kinds {
                    for b in if n == 1 { &kinds[..1] } else { &kinds[..many] } {
                        let e: Vec<Accept> = [a, *b, a][..n].to_vec();
                        for two in [false, true] {
                            let mut s = vec![Script::new(&[inc5.clone()], &[], usize::MAX, Some(Ev::Fin))];
                            if two {
                                s.push(Script::new(&[inc5.clone()], &[], usize::MAX, None));
                            }
                            w.case(|| format!("{} || failing accepts {:?}", show_scripts(&s), e), |st| connections(&s, &e, 0, false, M, st));
                        }
                    }
                }
            }
        })
        .sub("failing_writes", move |w| {
            // Answers are written in pieces, between which writing fails.
            for a in &r5 {
                for b in &r5 {
                    for k in [ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::Other] {
                        for x in [Ev::Deaf(k), Ev::Reset(k), Ev::HangUp] {
                            for slow in [1usize, 5, 12] {
                                if slow == 1 && t == Tier::Quick {
                                    continue;
                                }
                                if matches!(x, Ev::HangUp) && k != ErrorKind::Other {
                                    continue;
                                }
                                let s = [
                                    Script::new(&[a.clone(), b.clone()], &[], usize::MAX, Some(x.clone())),
                                    Script::new(&[b.clone()], &[], usize::MAX, None),
                                ];
                                w.case(|| format!("{} | {} bytes written at a time", show_scripts(&s), slow), |st| connections(&s, &[], slow, false, M, st));
                            }
                        }
                    }
                }
            }
        })
        .sub("lost_before_accepted", move |w| {
            for a in &reqs6 {
                for x in ends() {
                    for y in ends() {
                        let mut s = vec![
                            Script::new(&[a.clone()], &[], usize::MAX, x.clone()),
                            Script::new(&[inc7.clone(), wrong2.clone()], &[], usize::MAX, y.clone()),
                        ];
                        s[0].evs[0] = Ev::OpenLost;
                        w.case(|| show_scripts(&s), |st| connections(&s, &[], 0, false, M, st));
                        s.push(Script::new(&[], &[], 0, None));
                        if x.is_none() {
                            w.case(|| show_scripts(&s), |st| connections(&s, &[], 0, false, M, st));
                        }
                    }
                }
            }
        })
        .sub("many", move |w| {
            // Many connections at once or after one another, of which some are
            // given up in some way.
            for n in (1..=40).chain([100, 129, 257, 300, 513, 1025, 4097, t.pick(10_000, 70_000)]) {
                for every in [1usize, 2, 3, 7] {
                    for e in 0..5 {
                        for at_once in [false, true] {
                            w.case(
                                || format!("{} connections{}, every {} ends with {:?}", n, if at_once { " at once" } else { "" }, every, ends()[e]),
                                |st| many(n, every, ends()[e].clone(), at_once, st),
                            );
                        }
                    }
                }
            }
        })
}

fn many(n: usize, every: usize, end: Option<Ev>, at_once: bool, st: &mut Stats) -> Res {
    fresh(sim::Plain);
    let req = enc_req(&Cmd::new(Op::Increment, None, &[b"k"]));
    let half = enc_req(&Cmd::new(Op::Set, Some(T_STR), &[b"k", b"wrong"]));
    let mut i = 0;
    let mut good = vec![];
    let mut checked = false;
    serve_idle(|| {
        st.transitions += 1;
        while i < n {
            let c = sim::open();
            if i % every == 0 && end.is_some() {
                sim::push(c, 0, &half[..half.len() - 1]);
                match end.as_ref().unwrap() {
                    Ev::Fin => sim::fin(c, 0),
                    Ev::Reset(k) => sim::fail(c, 1, Some(*k), Some(*k)),
                    Ev::Deaf(k) => sim::fail(c, 1, None, Some(*k)),
                    _ => sim::hang_up(c, 0),
                }
            } else {
                sim::push(c, 0, &req);
                good.push(c);
            }
            i += 1;
            if !at_once {
                return Ok(true);
            }
        }
        if !checked {
            checked = true;
            return Ok(true);
        }
        let mut nums: Vec<i64> = vec![];
        for c in &good {
            let (l, rest) = decode(&sim::sent(*c, 1))?;
            match l.as_slice() {
                [MResp::Val(MVal::Int(x))] if rest == 0 => nums.push(*x),
                _ => return Err(Fail::from(format!("connection {} of {} got {} answers and {} bytes", c, n, l.len(), rest))),
            }
        }
        nums.sort();
        ensure!(nums == (1..=good.len() as i64).collect::<Vec<_>>(), "{} increments gave {:?}", good.len(), nums);
        Ok(false)
    })?;
    ensure!(sim::panics().is_empty(), "a task panicked: {:?}", sim::panics());
    Ok(())
}

// --------------------------------------------------------------- configuration

static ENV: Mutex<()> = Mutex::new(());

struct Binds(Option<ErrorKind>);
impl Policy for Binds {
    fn bind(&mut self, _: SocketAddr) -> Do {
        self.0.map_or(Do::Upto(0), Do::Fail)
    }
}

/// Start the server with settings: the addresses it may bind to.
fn configured(host: Option<&std::ffi::OsStr>, port: Option<&std::ffi::OsStr>, hosts: &[IpAddr], ports: &[u16], fails: Option<ErrorKind>, st: &mut Stats) -> Res {
    let _lock = ENV.lock().unwrap_or_else(|e| e.into_inner());
    for (k, v) in [("HOST", host), ("PORT", port)] {
        match v {
            Some(v) => std::env::set_var(k, v),
            None => std::env::remove_var(k),
        }
    }
    fresh(Binds(fails));
    let mut opened = None;
    let r = serve(|ready| {
        if let Some(t) = ready.first() {
            return Ok(Step::Run(*t));
        }
        // It serves.
        if opened.is_none() && sim::listening() {
            let c = sim::open();
            sim::push(c, 0, &enc_req(&Cmd::new(Op::Echo, None, &[b"x"])));
            opened = Some(c);
            return Ok(Step::Acted);
        }
        Ok(Step::Stop)
    });
    std::env::remove_var("HOST");
    std::env::remove_var("PORT");
    let r = r?;
    st.transitions += 1;
    let bound = sim::bound();
    st.outcome(format!("{:?}{:?}", bound, r).as_bytes());
    ensure!(!bound.is_empty(), "the server bound to nothing");
    for b in &bound {
        ensure!(hosts.contains(&b.ip()) && ports.contains(&b.port()), "the server bound to {}, expected {:?} port {:?}", b, hosts, ports);
    }
    match fails {
        Some(k) => {
            let why = format!("{:?}", std::io::Error::from(k));
            match r {
                None => return Err("the server runs although it couldn't bind".into()),
                Some(Ok(())) => return Err("the server ended without an error although it couldn't bind".into()),
                Some(Err(e)) => ensure!(e.contains(&format!("{:?}", k)), "the server ended with {} when binding gave {}", e, why),
            }
        }
        None => {
            ensure!(r.is_none(), "the server ended: {:?}", r);
            let Some(c) = opened else { return Err("the server doesn't listen".into()) };
            let (l, _) = decode(&sim::sent(c, 1))?;
            ensure!(l.len() == 1, "the server doesn't answer");
        }
    }
    Ok(())
}

pub fn c30(t: Tier) -> Check {
    use std::ffi::OsStr;
    use std::os::unix::ffi::OsStrExt;
    let any: IpAddr = "0.0.0.0".parse().unwrap();
    // Valid ones and what they mean, invalid ones, and ones that may be either.
    let mut hosts: Vec<(Option<Vec<u8>>, Vec<IpAddr>)> = vec![(None, vec![any])];
    for h in ["127.0.0.1", "0.0.0.0", "255.255.255.255", "10.1.2.3", "::", "::1", "fe80::1", "2001:db8::ff00:42:8329", "::ffff:1.2.3.4", "1:2:3:4:5:6:7:8"] {
        hosts.push((Some(h.into()), vec![h.parse().unwrap()]));
    }
    for h in ["", "localhost", "1.2.3", "256.1.1.1", "1.2.3.4.5", "[::1]", ":::", "1.2.3.4:80", " 127.0.0.1", "127.0.0.1 ", "0x7f.0.0.1", "-1.0.0.0", "example.com", "::g", "1.2.3.4\n", "fe80::1%lo"] {
        hosts.push((Some(h.into()), vec![any]));
    }
    hosts.push((Some(b"127.0.0.\xff".to_vec()), vec![any]));
    let mut ports: Vec<(Option<Vec<u8>>, Vec<u16>)> = vec![(None, vec![46733])];
    for p in [0u16, 1, 22, 80, 1023, 1024, 46732, 46733, 46734, 65534, 65535] {
        ports.push((Some(p.to_string().into()), vec![p]));
    }
    for p in ["", "65536", "70000", "112269", "4294967296", "-1", "-80", "abc", "80x", " 80", "80 ", "0x50", "8.0", "1e3", "80\n", "٣"] {
        ports.push((Some(p.into()), vec![46733]));
    }
    for (p, n) in [("+80", 80), ("080", 80), ("00000000080", 80)] {
        ports.push((Some(p.into()), vec![n, 46733]));
    }
    ports.push((Some(b"8\xff".to_vec()), vec![46733]));
    let kinds = [None, Some(ErrorKind::AddrInUse), Some(ErrorKind::PermissionDenied), Some(ErrorKind::AddrNotAvailable), Some(ErrorKind::Other)];
    let all_ports: u32 = t.pick(2000, 65536);
    let sh = |v: &Option<Vec<u8>>| v.as_ref().map_or("absent".to_string(), |v| show(v));
    Check::new("values of the two settings, with binding succeeding or failing")
        .assume("a port written with a plus sign or leading zeros may count as valid or not")
        .sub("settings", move |w| {
            for (h, hw) in &hosts {
                for (p, pw) in &ports {
                    for f in kinds {
                        w.case(
                            || format!("HOST {} PORT {} binding {:?}", sh(h), sh(p), f),
                            |st| configured(h.as_deref().map(OsStr::from_bytes), p.as_deref().map(OsStr::from_bytes), hw, pw, f, st),
                        );
                    }
                }
            }
        })
        .sub("all_ports", move |w| {
            for p in (0..all_ports).chain([65535, 65534, 32767, 32768]) {
                w.case(
                    || format!("PORT {}", p),
                    |st| configured(None, Some(OsStr::new(&p.to_string())), &[any], &[p as u16], None, st),
                );
            }
            for p in 65536..65536 + all_ports / 16 {
                w.case(
                    || format!("PORT {}", p),
                    |st| configured(None, Some(OsStr::new(&p.to_string())), &[any], &[46733], None, st),
                );
            }
        })
        .sub("all_octets", move |w| {
            for i in 0..4 {
                for n in 0..=256u32 {
                    let mut o = ["1".to_string(), "2".into(), "3".into(), "4".into()];
                    o[i] = n.to_string();
                    let h = o.join(".");
                    let want = h.parse().unwrap_or(any);
                    w.case(|| format!("HOST {}", h), |st| configured(Some(OsStr::new(&h)), None, &[want], &[46733], None, st));
                }
            }
        })
}
