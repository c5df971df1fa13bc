//! C31: the interactive program's `main` on simulated standard streams.
use mc::*;
use std::cell::RefCell;
use std::future::Future;
use std::io::ErrorKind;
use std::rc::Rc;
use tokio::sim::{self, Do, Policy, Step};

/// What is printed for the lines of an input: the text, or nothing if the line
/// can't be parsed.
fn outputs(lines: &[&[u8]]) -> Vec<Option<String>> {
    let c = hop::Client::memory();
    lines
        .iter()
        .map(|l| {
            let l = std::str::from_utf8(l).ok()?;
            let mut f = Box::pin(hop_cli::process(&c, l.trim_end()));
            let w = std::task::Waker::noop();
            match f.as_mut().poll(&mut std::task::Context::from_waker(w)) {
                std::task::Poll::Ready(r) => r.ok().map(|s| s.into_owned()),
                _ => panic!("the call isn't ready"),
            }
        })
        .collect()
}

/// Whether `out` is what's printed for these lines. `last` tells that there's
/// no more input, `ended` how the program ended, if it did.
fn right(want: &[Option<String>], last: bool, out: &[u8], ended: &Option<Result<(), String>>) -> Res {
    fn eat(o: &mut &[u8], p: &[u8]) -> bool {
        let r = o.starts_with(p);
        if r {
            *o = &o[p.len()..];
        }
        r
    }
    let mut o = out;
    ensure!(eat(&mut o, b"> "), "no prompt in {}", show(out));
    for (i, w) in want.iter().enumerate() {
        let end = last && i + 1 == want.len();
        match w {
            Some(t) => {
                ensure!(eat(&mut o, t.as_bytes()) && eat(&mut o, b"\n"), "line {} has to print {:?}: {}", i, t, show(out));
                ensure!(eat(&mut o, b"> ") || end, "no prompt after line {}: {}", i, show(out));
            }
            // A line that isn't understood either ends the program, with an
            // error, or is answered somehow.
            None if o.is_empty() && ended.is_some() => {
                ensure!(matches!(ended, Some(Err(_))), "the program ended with success at line {}", i);
                return Ok(());
            }
            None => match o.windows(3).position(|w| w == b"\n> ") {
                Some(at) => o = &o[at + 3..],
                None => ensure!(end && o.ends_with(b"\n"), "no answer to line {}: {}", i, show(out)),
            },
        }
    }
    ensure!(o.is_empty() || (last && o.ends_with(b"\n")), "{} follows: {}", show(o), show(out));
    ensure!(last || ended.is_none(), "the program ended ({:?}): {}", ended, show(out));
    ensure!(!last || ended.is_some(), "the program didn't end with its input: {}", show(out));
    Ok(())
}

fn lines(b: &[u8]) -> Vec<&[u8]> {
    let mut l: Vec<&[u8]> = b.split(|c| *c == b'\n').collect();
    if l.last() == Some(&&b[..0]) {
        l.pop();
    }
    l
}

struct Slow {
    read: Do,
    write: Do,
    turn: bool,
}
impl Policy for Slow {
    fn read(&mut self, _: usize, _: usize, _: usize, _: usize) -> Do {
        self.next(self.read)
    }
    fn write(&mut self, _: usize, _: usize, _: usize) -> Do {
        self.next(self.write)
    }
}
impl Slow {
    fn next(&mut self, d: Do) -> Do {
        self.turn = !self.turn;
        match d {
            Do::Later if self.turn => Do::Upto(1),
            d => d,
        }
    }
}

/// Fails the nth read or write.
struct Faulty {
    reads: Option<usize>,
    writes: Option<usize>,
    kind: ErrorKind,
}
fn due(n: &mut Option<usize>) -> bool {
    match n {
        Some(0) => {
            *n = None;
            true
        }
        Some(i) => {
            *i -= 1;
            false
        }
        None => false,
    }
}
impl Policy for Faulty {
    fn read(&mut self, _: usize, _: usize, _: usize, _: usize) -> Do {
        if due(&mut self.reads) {
            Do::Fail(self.kind)
        } else {
            Do::Upto(usize::MAX)
        }
    }
    fn write(&mut self, _: usize, _: usize, _: usize) -> Do {
        if due(&mut self.writes) {
            Do::Fail(self.kind)
        } else {
            Do::Upto(usize::MAX)
        }
    }
}

/// Run the program. `idle` acts when it waits, until it gives false.
fn run(mut idle: impl FnMut(usize) -> Result<bool, Fail>) -> Result<(usize, Option<Result<(), String>>), Fail> {
    let t = sim::terminal();
    let mut fail = None;
    let mut n = 0;
    let mut drive = |ready: &[usize]| -> Step {
        n += 1;
        if n > 200_000 {
            fail = Some(Fail::from("the program never comes to rest"));
            return Step::Stop;
        }
        if let Some(r) = ready.first() {
            return Step::Run(*r);
        }
        match idle(t) {
            Ok(true) => Step::Acted,
            Ok(false) => Step::Stop,
            Err(f) => {
                fail = Some(f);
                Step::Stop
            }
        }
    };
    let r = guarded(|| sim::drive(&mut drive, cli_main::sim_main));
    match fail {
        Some(f) => Err(f),
        None => Ok((t, r.map_err(|e| Fail::from(format!("the program {}", e)))?)),
    }
}

/// Enter an input cut into chunks, and end it.
fn enter(input: &[u8], cuts: &[usize], p: impl Policy + 'static, st: &mut Stats) -> Res {
    sim::reset(Rc::new(RefCell::new(p)));
    let want = outputs(&lines(input));
    let mut ends: Vec<usize> = cuts.to_vec();
    ends.push(input.len());
    let mut next = 0;
    let mut at = 0;
    let mut over = false;
    let done = |at: usize| input[..at].iter().filter(|b| **b == b'\n').count();
    let r = run(|t| {
        st.transitions += 1;
        right(&want[..done(at)], false, &sim::sent(t, 1), &None)?;
        ensure!(!over, "the program doesn't end with its input");
        match ends.get(next) {
            Some(e) => {
                sim::push(t, 0, &input[at..*e]);
                at = *e;
                next += 1;
            }
            None => {
                sim::fin(t, 0);
                over = true;
            }
        }
        Ok(true)
    });
    let (t, e) = r.map_err(|f| Fail { key: f.key, msg: format!("{} (chunks end at {:?})", f.msg, cuts) })?;
    let out = sim::sent(t, 1);
    st.outcome(&out);
    let r = match over {
        true => right(&want, true, &out, &e),
        false => right(&want[..done(at)], false, &out, &e),
    };
    r.map_err(|f| Fail { key: f.key, msg: format!("{} (chunks end at {:?})", f.msg, cuts) })
}

/// A read or write fails: what is printed is still right as far as it goes,
/// and the program ends.
fn failing(input: &[u8], f: Faulty, st: &mut Stats) -> Res {
    let reads = f.reads.is_some();
    sim::reset(Rc::new(RefCell::new(f)));
    let want = outputs(&lines(input));
    let mut full = b"> ".to_vec();
    for w in &want {
        match w {
            Some(t) => full.extend(format!("{}\n> ", t).bytes()),
            None => break,
        }
    }
    let mut left: std::collections::VecDeque<u8> = input.iter().copied().collect();
    let mut over = false;
    let (t, e) = run(|t| {
        st.transitions += 1;
        ensure!(!over, "the program doesn't end");
        let mut l = vec![];
        while let Some(b) = left.pop_front() {
            l.push(b);
            if b == b'\n' {
                break;
            }
        }
        match l.is_empty() {
            true => {
                sim::fin(t, 0);
                over = true;
            }
            false => sim::push(t, 0, &l),
        }
        Ok(true)
    })?;
    let out = sim::sent(t, 1);
    st.outcome(&out);
    ensure!(full.starts_with(&out) || (over && out.starts_with(&full)) || want.contains(&None), "printed {}, expected {}", show(&out), show(&full));
    match e {
        None => return Err(Fail::from("the program didn't end")),
        Some(Ok(())) => ensure!(!reads || over, "the program ended with success"),
        Some(Err(_)) => {}
    }
    Ok(())
}

const LINES: [&str; 17] = [
    "increment a",
    "increment:float b",
    "decrement a",
    "get a",
    "echo",
    "delete a",
    "rename a b",
    "echo x  y ",
    "exists a",
    "nonsense",
    "",
    "get b  ",
    "  get a",
    "get a\r",
    "stats",
    "echo \u{e9} \t",
    "type b",
];

/// The inputs of some of the lines, with and without the last line's end.
fn inputs(n: usize, al: usize, mut f: impl FnMut(Vec<u8>)) {
    for n in 0..=n {
        sequences(al, n, |ix| {
            let l: Vec<&str> = ix.iter().map(|i| LINES[*i]).collect();
            let s = l.join("\n");
            f(s.clone().into_bytes());
            f((s + "\n").into_bytes());
        });
    }
}

pub fn subs(c: Check, t: Tier) -> Check {
    let go = |d| Slow { read: d, write: d, turn: false };
    c.sub("all_sequences", move |w| {
        inputs(t.pick(4, 5), LINES.len(), |b| {
            w.case(|| format!("{} at once", show(&b)), |st| enter(&b, &[], go(Do::Upto(usize::MAX)), st));
            let ends: Vec<usize> = (0..b.len()).filter(|i| b[*i] == b'\n').map(|i| i + 1).collect();
            w.case(|| format!("{} line by line", show(&b)), |st| enter(&b, &ends, go(Do::Upto(usize::MAX)), st));
        });
    })
    .sub("in_pieces", move |w| {
        inputs(2, LINES.len(), |b| {
            for d in [Do::Upto(1), Do::Upto(3), Do::Later] {
                w.case(|| format!("{} {:?}", show(&b), d), |st| enter(&b, &[], go(d), st));
            }
            for i in 0..=b.len() {
                let k = t.pick(i + 3, b.len() + 1).min(b.len() + 1);
                for j in i..k {
                    w.case(|| format!("{} cut at {} and {}", show(&b), i, j), |st| enter(&b, &[i, j], go(Do::Upto(usize::MAX)), st));
                }
            }
        });
    })
    .sub("long", move |w| {
        for n in [100, 4095, 8190, 8191, 8192, 8193, 16384, 20000] {
            let x = "x".repeat(n);
            let b = format!("increment a\necho {}\nget a\nincrement {}\nget a\n", x, x).into_bytes();
            w.case(|| format!("a line of {}", n), |st| enter(&b, &[], go(Do::Upto(usize::MAX)), st));
            w.case(|| format!("a line of {} in pieces", n), |st| enter(&b, &[50, n, n + 1], go(Do::Upto(1000)), st));
        }
        for n in [10, 300, 1000] {
            let b = "increment a\n".repeat(n).into_bytes();
            w.case(|| format!("{} lines", n), |st| enter(&b, &[], go(Do::Upto(usize::MAX)), st));
        }
        for l in [&b"get \xff\n"[..], b"\xc3\nget a\n", b"echo \xe2\x82\xac\n", b"\0\n", b"echo a\0b\nget a\n"] {
            for i in 0..=l.len() {
                w.case(|| format!("{} cut at {}", show(l), i), |st| enter(l, &[i], go(Do::Upto(usize::MAX)), st));
            }
        }
    })
    .sub("failing", move |w| {
        inputs(2, LINES.len(), |b| {
            let n = b.iter().filter(|c| **c == b'\n').count();
            for kind in [ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof, ErrorKind::Other] {
                for i in 0..=n {
                    w.case(|| format!("{} read {} fails: {:?}", show(&b), i, kind), |st| failing(&b, Faulty { reads: Some(i), writes: None, kind }, st));
                }
                for i in 0..=2 * n + 1 {
                    w.case(|| format!("{} write {} fails: {:?}", show(&b), i, kind), |st| failing(&b, Faulty { reads: None, writes: Some(i), kind }, st));
                }
            }
        });
    })
}

pub fn c31(t: Tier) -> Check {
    subs(Check::new("states: none are told apart; transitions: what is entered and awaited"), t)
}
