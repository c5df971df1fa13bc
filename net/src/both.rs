//! C19: clients on the server's connection and in memory, side by side.
use crate::calls::*;
use crate::client::*;
use crate::histories::{self, *};
use crate::server::*;
use hop::Client;
use mc::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use tokio::sim::{self, Do, Policy, Step};

/// The stream in one direction comes in two parts.
struct Cut {
    from_client: bool,
    at: usize,
    seen: usize,
    waited: bool,
}
impl Policy for Cut {
    fn read(&mut self, _: usize, end: usize, there: usize, room: usize) -> Do {
        // The server reads as end 1.
        if (end == 1) != self.from_client {
            return Do::Upto(usize::MAX);
        }
        let mut n = there.min(room);
        if self.seen < self.at {
            n = n.min(self.at - self.seen);
        } else if self.seen == self.at && !self.waited {
            self.waited = true;
            return Do::Later;
        }
        self.seen += n;
        Do::Upto(n)
    }
}

fn key(c: &Call) -> Option<String> {
    match c {
        // Inputs of recorded findings.
        Call::Set(_, MVal::Map(m), _) | Call::SetValue(_, MVal::Map(m)) if m.keys().any(|k| k.len() > 255) => Some("map-key-256".into()),
        _ => None,
    }
}

/// Make the calls, each on the connection of that number, with a client or,
/// if one of them isn't for it, the backend. Afterwards the keys are looked up.
fn run(calls: &[(usize, Call)], backend: bool, uni: &[Vec<u8>], policy: Rc<RefCell<dyn Policy>>, st: &mut Stats) -> Res {
    sim::reset(policy);
    let mut m = MState::default();
    let memory = Client::memory();
    let mem_backend = Arc::new(hop::backend::MemoryBackend::new());
    let mut gets: Vec<(usize, Call)> = vec![];
    for u in uni.iter().filter(|u| !u.is_empty()) {
        gets.push((0, Call::Get(u.clone(), None, false)));
    }
    let all: Vec<&(usize, Call)> = calls.iter().chain(&gets).collect();
    let conns = calls.iter().map(|c| c.0).max().unwrap_or(0) + 1;
    let mut on: Vec<On> = vec![];
    let mut at = 0;
    let mut actor: Option<Actor> = None;
    let mut trans = 0;
    let with = |c: &Call, msg: String| match key(c) {
        Some(k) => Fail::known(k, msg),
        None => Fail::from(msg),
    };
    let r = serve(|ready| {
        trans += 1;
        if let Some(t) = ready.first() {
            return Ok(Step::Run(*t));
        }
        ensure!(sim::listening(), "the server doesn't listen");
        if on.len() < conns {
            on.push(connected(backend)?);
            return Ok(Step::Acted);
        }
        let Some((n, c)) = all.get(at) else { return Ok(Step::Stop) };
        let fail = |msg: String| with(c, format!("call {} `{}`: {}", at + 1, c.show(), msg));
        let a = actor.get_or_insert_with(|| on[*n].start(c));
        if !a.ready() {
            return Err(fail("neither client nor server do anything".into()));
        }
        a.poll().map_err(&fail)?;
        if let Some(got) = a.out.take() {
            let before = m.show();
            let want = c.expect(&mut m);
            if !c.agrees(&want, &got) {
                return Err(fail(format!("over the network, in {} it gave {}, expected {}", before, show_out(&got), show_out(&want))));
            }
            let mem = guarded(|| if backend { at_once(on_backend(&mem_backend, c)) } else { at_once(on_client(&memory, c)) }).and_then(|x| x).map_err(&fail)?;
            if !c.agrees(&mem, &got) {
                return Err(fail(format!("in {} it gave {} over the network, but {} in memory", before, show_out(&got), show_out(&mem))));
            }
            if let Err(CErr::Run(e)) = got {
                st.outcome(&[e]);
            }
            actor = None;
            at += 1;
        }
        Ok(Step::Acted)
    });
    st.transitions += trans;
    st.state(h64(&m.canon()));
    drop(on);
    r.map(|_| ())
}

fn shown(l: &[(usize, Call)]) -> String {
    l.iter().map(|(n, c)| if *n == 0 { c.show() } else { format!("other: {}", c.show()) }).collect::<Vec<_>>().join("; ")
}

fn plain() -> Rc<RefCell<dyn Policy>> {
    Rc::new(RefCell::new(sim::Plain))
}
fn slow(r: usize, w: usize) -> Rc<RefCell<dyn Policy>> {
    Rc::new(RefCell::new(Slow(false, r, w)))
}

/// A history on the client and on the backend, as far as the calls are theirs.
fn both(w: &mut W, h: &[Call], uni: &[Vec<u8>], slowly: bool) {
    let l = || h.iter().map(|c| (0, c.clone())).collect::<Vec<_>>();
    let p = move || if slowly { slow(1, 1) } else { plain() };
    let how = if slowly { ", byte by byte" } else { "" };
    if h.iter().all(|c| !c.backend_only()) {
        w.case(|| format!("{}{}", shown(&l()), how), |st| run(&l(), false, uni, p(), st));
    }
    // Whether there are any keys or too many is the client's own business.
    if h.iter().all(|c| c.cmd().is_ok() || !matches!(c, Call::Exists(_) | Call::Is(..) | Call::SetItems(..) | Call::Stats)) {
        w.case(|| format!("on the backend: {}{}", shown(&l()), how), |st| run(&l(), true, uni, p(), st));
    }
}

pub fn c19(t: Tier) -> Check {
    Check::new("a sequence of calls on a client connected to the server, next to the same in memory and in the model; states: the data afterwards")
        .sub("every_call_in_every_state", move |w| histories::every_call_in_every_state(t, &mut |h, uni| both(w, h, uni, false)))
        .sub("all_sequences", move |w| histories::all_sequences(t, &mut |h, uni| both(w, h, uni, false)))
        .sub("edges", move |w| histories::edges(&mut |h, uni| both(w, h, uni, false)))
        .sub("number_of_keys", move |w| histories::number_of_keys(&mut |h, uni| both(w, h, uni, false)))
        .sub("contents", move |w| histories::contents(t == Tier::Thorough, &mut |h, uni| both(w, h, uni, false)))
        .sub("long_histories", move |w| histories::long(t == Tier::Thorough, &mut |h, uni| both(w, h, uni, false)))
        .sub("big", move |w| histories::big(&mut |h, uni| both(w, h, uni, false)))
        .sub("slowly", move |w| {
            let uni = ls(&[b"a", b"bb"]);
            let calls = all_calls(&[b"a"], &values(0));
            for v in values(0).into_iter().chain(if t == Tier::Thorough { values(1) } else { vec![] }) {
                for c in &calls {
                    both(w, &[Call::SetValue(b"a".to_vec(), v.clone()), c.clone()], &uni, true);
                }
            }
        })
        .sub("in_two_parts", move |w| {
            let a = b"a".to_vec();
            let calls = all_calls(&[b"a"], &values(0));
            for c in &calls {
                let Ok(cmd) = c.cmd() else { continue };
                let v = match &c {
                    Call::Get(_, Some(t), _) | Call::Length(_, Some(t), _) | Call::BGet(_, Some(t)) => values(0).into_iter().find(|v| v.ty() == *t).unwrap(),
                    Call::Append(_, v) => v.clone(),
                    Call::Keys(_) => values(0)[6].clone(),
                    _ => values(0)[3].clone(),
                };
                let s = Call::SetValue(a.clone(), v.clone());
                let h = vec![(0, s.clone()), (0, c.clone())];
                let req = mc::wire::enc_req(&s.cmd().unwrap()).len() + mc::wire::enc_req(&cmd).len();
                let mut m = MState::default();
                let mut ans = 0;
                for x in [&s, c] {
                    ans += match m.apply(&x.cmd().unwrap()) {
                        // The answer to stats is longer.
                        Ok(_) if matches!(x, Call::Stats) => 120,
                        Ok(v) => mc::wire::enc_resp(&mc::wire::MResp::Val(v)).len(),
                        Err(_) => 6,
                    };
                }
                for (from_client, n) in [(true, req), (false, ans)] {
                    for at in 0..=n {
                        w.case(
                            || format!("{}, the {} at byte {}", shown(&h), if from_client { "requests cut" } else { "answers cut" }, at),
                            |st| run(&h, c.backend_only(), std::slice::from_ref(&a), Rc::new(RefCell::new(Cut { from_client, at, seen: 0, waited: false })), st),
                        );
                    }
                }
            }
        })
        .sub("two_connections", move |w| {
            let v = values(0);
            let (a, b) = (b"a".to_vec(), b"bb".to_vec());
            let calls = [
                Call::Set(a.clone(), v[3].clone(), false),
                Call::Set(a.clone(), v[5].clone(), false),
                Call::Append(a.clone(), v[5].clone()),
                Call::Inc(false, a.clone(), None, None),
                Call::Inc(true, b.clone(), Some(T_FLOAT), None),
                Call::Delete(a.clone()),
                Call::Rename(a.clone(), b.clone()),
                Call::Get(a.clone(), None, false),
                Call::Type(b.clone()),
                Call::Stats,
            ];
            let uni = ls(&[b"a", b"bb"]);
            for n in 2..=t.pick(3, 4) {
                sequences(calls.len(), n, |ix| {
                    for who in 1..1usize << (n - 1) {
                        let h: Vec<(usize, Call)> = ix.iter().enumerate().map(|(i, c)| (who >> i & 1, calls[*c].clone())).collect();
                        for p in [0, 1] {
                            w.case(|| format!("{}{}", shown(&h), if p == 1 { ", slowly" } else { "" }), |st| run(&h, false, &uni, if p == 1 { slow(3, 5) } else { plain() }, st));
                        }
                    }
                });
            }
        })
}
