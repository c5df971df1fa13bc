//! Programs of commands on several threads, and what they may do.
use crate::eng;
use hop_engine::Hop;
use mc::model::*;
use mc::*;
use sched::{Call, End};
use std::collections::HashSet;

#[derive(Clone)]
pub struct Prog {
    pub init: Vec<Cmd>,
    pub threads: Vec<Vec<Cmd>>,
    pub shards: usize,
}

impl Prog {
    pub fn show(&self) -> String {
        format!(
            "{} | after {} | {}",
            if self.shards == 1 { "all keys in one shard" } else { "keys in different shards" },
            if self.init.is_empty() { "nothing".to_string() } else { show_all(&self.init) },
            self.threads.iter().map(|t| show_all(t)).collect::<Vec<_>>().join(" || ")
        )
    }
}

type Ans = Result<Result<MVal, u8>, String>;

pub struct Seen<'a> {
    pub prog: &'a Prog,
    /// The state at first.
    pub init: &'a MState,
    pub ops: Vec<(usize, &'a Cmd, Result<MVal, u8>)>,
    /// Of each, those that ended before it began.
    pub after: Vec<u32>,
    pub end: MState,
}

fn canon_ans(v: &mut Vec<u8>, r: &Result<MVal, u8>) {
    match r {
        Ok(x) => {
            v.push(1);
            v.extend(x.canon())
        }
        Err(e) => v.extend([0, *e]),
    }
    v.push(0xfe);
}

pub const MAX_EXECUTIONS: u64 = 3_000_000;

/// Run all schedules of the program. `judge` is called for each new outcome of
/// those that completed; a deadlock or a panic fails.
pub fn run(p: &Prog, universe: &[Vec<u8>], st: &mut Stats, mut judge: impl FnMut(&Seen) -> Res) -> Res {
    sched::set_shards(p.shards);
    sched::set_quiet(true);
    let mut init = MState::default();
    for c in &p.init {
        let _ = init.apply(c);
    }
    let mut seen: HashSet<u64> = HashSet::new();
    let make = || {
        let hop = Hop::new();
        let mut m = MState::default();
        for c in &p.init {
            eng::go(&hop, &mut m, c).expect("setting up");
        }
        let threads = p
            .threads
            .iter()
            .map(|t| {
                t.iter()
                    .map(|c| {
                        let (hop, c) = (hop.clone(), c.clone());
                        Box::new(move || eng::dispatch(&hop, &c, b"")) as Call<Ans>
                    })
                    .collect()
            })
            .collect();
        (hop, threads)
    };
    let ex = sched::explore(MAX_EXECUTIONS, 5000, make, |hop: Hop, hist, end, schedule| {
        let order = || schedule.iter().map(|t| (b'A' + t) as char).collect::<String>();
        if end != End::Done {
            let stuck: Vec<String> = hist
                .iter()
                .enumerate()
                .filter(|(t, h)| h.len() < p.threads[*t].len())
                .map(|(t, h)| format!("`{}`", p.threads[t][h.len()].show()))
                .collect();
            std::mem::forget(hop);
            return Err(Fail::from(format!(
                "{} of {} (schedule {})",
                if end == End::Deadlock { "deadlock" } else { "no progress" },
                stuck.join(" and "),
                order()
            )));
        }
        let mut ops = vec![];
        let mut recs = vec![];
        for (t, h) in hist.iter().enumerate() {
            for (i, r) in h.iter().enumerate() {
                let c = &p.threads[t][i];
                let a = match &r.out {
                    Ok(Ok(a)) => a.clone(),
                    Ok(Err(e)) => return Err(Fail::from(format!("{} (schedule {})", e, order()))),
                    Err(e) => return Err(Fail::from(format!("`{}` panicked: {} (schedule {})", c.show(), e, order()))),
                };
                ops.push((t, c, a));
                recs.push((t, r.begin, r.end));
            }
        }
        let after: Vec<u32> = recs
            .iter()
            .enumerate()
            .map(|(i, r)| {
                let mut m = 0;
                for (j, q) in recs.iter().enumerate() {
                    if i != j && (q.0 == r.0 && j < i || q.0 != r.0 && q.2 < r.1) {
                        m |= 1 << j;
                    }
                }
                m
            })
            .collect();
        let end = eng::dump(hop.state(), universe).map_err(|e| Fail::from(format!("{} (schedule {})", e, order())))?;
        let mut key = vec![];
        for (o, a) in ops.iter().zip(&after) {
            canon_ans(&mut key, &o.2);
            key.extend(a.to_be_bytes());
        }
        key.extend(end.canon());
        if !seen.insert(h64(&key)) {
            return Ok(());
        }
        st.outcome(&key);
        st.state(h64(&end.canon()));
        let s = Seen { prog: p, init: &init, ops, after, end };
        judge(&s).map_err(|f| Fail {
            key: f.key,
            msg: format!(
                "{}: {} and left {} (schedule {})",
                f.msg,
                s.ops.iter().map(|(_, c, a)| format!("`{}` answered {}", c.show(), show_res(a))).collect::<Vec<_>>().join(", "),
                s.end.show(),
                order()
            ),
        })
    })?;
    st.schedules += ex.executions - ex.redundant;
    st.transitions += ex.steps;
    if !ex.complete {
        st.notes.push(format!("stopped at {} schedules of {}", MAX_EXECUTIONS, p.show()));
    }
    Ok(())
}

/// How far a rename that isn't atomic has come.
#[derive(Clone)]
enum Stage {
    Waiting,
    /// It has seen that there's nothing at the destination.
    Looked,
    /// It took the value out; which command has since created the source.
    Holds(MVal, Option<Op>),
    /// And has found the destination taken.
    Returns(MVal, Option<Op>),
    Over,
}

impl Stage {
    fn over(&self) -> bool {
        matches!(self, Stage::Over)
    }
    fn canon(&self, v: &mut Vec<u8>) {
        match self {
            Stage::Waiting => v.push(0),
            Stage::Looked => v.push(1),
            Stage::Holds(x, c) => {
                v.extend([2, c.map_or(255, |c| c as u8)]);
                v.extend(x.canon())
            }
            Stage::Returns(x, c) => {
                v.extend([3, c.map_or(255, |c| c as u8)]);
                v.extend(x.canon())
            }
            Stage::Over => v.push(4),
        }
        v.push(0xfd);
    }
}

/// What may be done with a rename.
#[derive(Clone, Copy, PartialEq)]
pub enum Renames {
    /// Nothing else happens in the middle of it.
    Atomic,
    /// It looks at the destination, takes the value and puts it at different
    /// points, and puts it back where it was if the destination was created in
    /// between.
    Steps,
    /// And can't put it back if the source was created in between, too.
    Lossy,
}

struct Search<'s, 'a> {
    s: &'s Seen<'a>,
    how: Renames,
    dead: HashSet<Vec<u8>>,
    /// By what the sources of renames that lost their value were created.
    lost: Vec<Op>,
}

impl<'s, 'a> Search<'s, 'a> {
    /// Take `st[i]` to the stage (from state `m` to `n`) and on to the end.
    fn to(&mut self, i: usize, stage: Stage, m: &MState, n: &MState, st: &[Stage]) -> bool {
        let mut next = st.to_vec();
        next[i] = stage;
        for (j, x) in next.iter_mut().enumerate() {
            if j != i {
                if let Stage::Holds(_, by) | Stage::Returns(_, by) = x {
                    let from = &self.s.ops[j].1.args[0];
                    if !m.keys.contains_key(from) && n.keys.contains_key(from) {
                        *by = Some(self.s.ops[i].1.op);
                    }
                }
            }
        }
        self.go(n, &next)
    }

    fn go(&mut self, m: &MState, st: &[Stage]) -> bool {
        if st.iter().all(|x| x.over()) {
            return m.same_keys(&self.s.end);
        }
        let mut key = m.canon();
        key.push(0xff);
        st.iter().for_each(|x| x.canon(&mut key));
        if self.dead.contains(&key) {
            return false;
        }
        for i in 0..st.len() {
            let (_, c, got) = &self.s.ops[i];
            let may = self.how != Renames::Atomic && c.op == Op::Rename && c.ty.is_none() && c.args.len() >= 2;
            match &st[i] {
                Stage::Over => {}
                Stage::Waiting => {
                    if (0..st.len()).any(|j| self.s.after[i] >> j & 1 == 1 && !st[j].over()) {
                        continue;
                    }
                    let mut n = m.clone();
                    let want = n.apply(c);
                    if same_answer(c, &want, got) && self.to(i, Stage::Over, m, &n, st) {
                        return true;
                    }
                    if may {
                        // Which of two reasons to fail it reports depends on when it looked.
                        let why = match got {
                            Err(E_PRECONDITION) => m.keys.contains_key(&c.args[1]),
                            Err(E_NONEXISTENT) => !m.keys.contains_key(&c.args[0]),
                            _ => false,
                        };
                        if why && self.to(i, Stage::Over, m, m, st) {
                            return true;
                        }
                        if matches!(got, Ok(_) | Err(E_PRECONDITION))
                            && !m.keys.contains_key(&c.args[1])
                            && self.to(i, Stage::Looked, m, m, st)
                        {
                            return true;
                        }
                    }
                }
                Stage::Looked => {
                    let mut n = m.clone();
                    if let Some(v) = n.keys.remove(&c.args[0]) {
                        if self.to(i, Stage::Holds(v, None), m, &n, st) {
                            return true;
                        }
                    }
                }
                Stage::Holds(v, by) => {
                    let to = &c.args[1];
                    match got {
                        Ok(MVal::Bytes(b)) if b == to && !m.keys.contains_key(to) => {
                            let mut n = m.clone();
                            n.keys.insert(to.clone(), v.clone());
                            if self.to(i, Stage::Over, m, &n, st) {
                                return true;
                            }
                        }
                        Err(E_PRECONDITION) if m.keys.contains_key(to) => {
                            if self.to(i, Stage::Returns(v.clone(), *by), m, m, st) {
                                return true;
                            }
                        }
                        _ => {}
                    }
                }
                Stage::Returns(v, by) => {
                    let from = &c.args[0];
                    if !m.keys.contains_key(from) {
                        let mut n = m.clone();
                        n.keys.insert(from.clone(), v.clone());
                        if self.to(i, Stage::Over, m, &n, st) {
                            return true;
                        }
                    } else if self.how == Renames::Lossy {
                        if let Some(by) = *by {
                            if self.to(i, Stage::Over, m, m, st) {
                                self.lost.push(by);
                                return true;
                            }
                        }
                    }
                }
            }
        }
        self.dead.insert(key);
        false
    }
}

/// Whether one order of the commands explains the outcome; if so, by which
/// commands the sources of renames were created that lost their value.
pub fn explained(s: &Seen, how: Renames) -> Option<Vec<Op>> {
    let mut f = Search { s, how, dead: HashSet::new(), lost: vec![] };
    let st = vec![Stage::Waiting; s.ops.len()];
    f.go(s.init, &st).then_some(f.lost)
}
