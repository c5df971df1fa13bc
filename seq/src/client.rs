//! C20 (and the in-memory part of C19): the client API on the memory backend.
use crate::calls::*;
use crate::engine::*;
use crate::histories;
use hop::backend::MemoryBackend;
use hop::Client;
use mc::*;
use std::sync::Arc;

enum On {
    Client(Client<MemoryBackend>),
    Backend(Arc<MemoryBackend>),
}

impl On {
    fn call(&self, c: &Call) -> Result<Result<MVal, CErr>, String> {
        guarded(|| match self {
            On::Client(x) => at_once(on_client(x, c)),
            On::Backend(x) => at_once(on_backend(x, c)),
        })
        .and_then(|r| r)
    }

    /// What the data holds: through the calls, which are all there is.
    fn dump(&self, uni: &[Vec<u8>]) -> Result<MState, String> {
        let mut m = MState::default();
        for k in uni {
            if k.is_empty() {
                continue;
            }
            match self.call(&Call::Get(k.clone(), None, false))? {
                Ok(v) => {
                    m.keys.insert(k.clone(), v);
                }
                Err(CErr::Run(E_NONEXISTENT)) => {}
                Err(e) => return Err(format!("getting {} failed: {:?}", show(k), e)),
            }
        }
        Ok(m)
    }
}

pub fn call_key(c: &Call) -> Option<String> {
    // Inputs of recorded findings.
    if let Call::Set(_, MVal::Map(m), _) | Call::SetValue(_, MVal::Map(m)) = c {
        if m.keys().any(|k| k.len() > 255) {
            return Some("map-key-256".into());
        }
    }
    None
}

fn run(on: &On, calls: &[Call], uni: &[Vec<u8>], st: &mut Stats) -> Res {
    let mut m = MState::default();
    for (i, c) in calls.iter().enumerate() {
        let before = m.clone();
        let want = c.expect(&mut m);
        let fail = |msg: String| match call_key(c) {
            Some(k) => Fail::known(k, msg),
            None => Fail::from(msg),
        };
        let got = on
            .call(c)
            .map_err(|e| fail(format!("step {}: in {} {} {}", i + 1, before.show(), c.show(), e)))?;
        st.transitions += 1;
        if !c.agrees(&want, &got) {
            return Err(fail(format!(
                "step {}: in {} {} gave {}, expected {}",
                i + 1, before.show(), c.show(), show_out(&got), show_out(&want)
            )));
        }
        if let Err(CErr::Run(e)) = got {
            st.outcome(&[e]);
        }
    }
    let d = on.dump(uni)?;
    ensure!(d.same_keys(&m), "afterwards the data is {}, expected {}", d.show(), m.show());
    st.state(h64(&m.canon()));
    Ok(())
}

fn shown(calls: &[Call]) -> String {
    calls.iter().map(|c| c.show()).collect::<Vec<_>>().join("; ")
}

fn both(w: &mut W, calls: &[Call], uni: &[Vec<u8>]) {
    if calls.iter().all(|c| !c.backend_only()) {
        w.case(|| shown(calls), |st| run(&On::Client(Client::memory()), calls, uni, st));
    }
    if calls.iter().all(|c| !matches!(c, Call::Exists(_) | Call::Is(..) | Call::SetItems(..) | Call::Stats)) {
        w.case(
            || format!("on the backend: {}", shown(calls)),
            |st| run(&On::Backend(Arc::new(MemoryBackend::new())), calls, uni, st),
        );
    }
}

pub fn c20(t: Tier) -> Check {
    Check::new("a sequence of calls on a client or backend, against the model; states: the data afterwards")
        .assume("calls on the in-memory backend complete without waiting, so that none run at the same time on one thread")
        .sub("every_call_in_every_state", move |w| histories::every_call_in_every_state(t, &mut |h, uni| both(w, h, uni)))
        .sub("all_sequences", move |w| histories::all_sequences(t, &mut |h, uni| both(w, h, uni)))
        .sub("edges", move |w| histories::edges(&mut |h, uni| both(w, h, uni)))
        .sub("number_of_keys", move |w| histories::number_of_keys(&mut |h, uni| both(w, h, uni)))
        .sub("contents", move |w| histories::contents(t == Tier::Thorough, &mut |h, uni| both(w, h, uni)))
        .sub("long_histories", move |w| histories::long(t == Tier::Thorough, &mut |h, uni| both(w, h, uni)))
        .sub("big", move |w| histories::big(&mut |h, uni| both(w, h, uni)))
        .sub("shared", move |w| {
            // Calls on a client act on the same data, those on separate clients don't.
            let v = values(0);
            for i in 0..v.len() {
                for j in 0..v.len() {
                    w.case(
                        || format!("{} / {}", v[i].show(), v[j].show()),
                        |st| {
                            let c = Client::memory();
                            let d = &c;
                            let e = Client::memory();
                            let a = b"a".to_vec();
                            at_once(on_client(&c, &Call::SetValue(a.clone(), v[i].clone())))?.map_err(|e| format!("{:?}", e))?;
                            at_once(on_client(&e, &Call::SetValue(a.clone(), v[j].clone())))?.map_err(|e| format!("{:?}", e))?;
                            st.transitions += 5;
                            for (cl, want) in [(&c, &v[i]), (d, &v[i]), (&e, &v[j])] {
                                let got = at_once(on_client(cl, &Call::Get(a.clone(), None, false)))?;
                                ensure!(matches!(&got, Ok(x) if x.same(want)), "got {}, expected {}", show_out(&got), want.show());
                            }
                            let got = at_once(on_client(d, &Call::Stats))?;
                            let want = MVal::List(ls(&[&be(3), &be(0), &be(0), &be(0)]));
                            ensure!(matches!(&got, Ok(x) if x.same(&want)), "stats are {}", show_out(&got));
                            Ok(())
                        },
                    );
                }
            }
        })
}
