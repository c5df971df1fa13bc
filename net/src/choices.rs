//! All ways to take a program's choices, one run after the other.
use mc::*;
use std::cell::RefCell;
use std::rc::Rc;
use tokio::sim::{self, Do, Policy};

#[derive(Default)]
pub struct Choices {
    /// Taken, out of how many.
    path: Vec<(usize, usize)>,
    at: usize,
    /// Set when the run turns out to be like another.
    pub redundant: bool,
}

pub type Ch = Rc<RefCell<Choices>>;

impl Choices {
    pub fn pick(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if self.at == self.path.len() {
            self.path.push((0, n));
        }
        let (i, m) = self.path[self.at];
        assert!(m == n, "the run isn't deterministic: {} choices, {} before", n, m);
        self.at += 1;
        i
    }
}

/// Run for every way to take the choices; the number of runs.
pub fn explore(st: &mut Stats, max: u64, mut f: impl FnMut(&Ch, &mut Stats) -> Res) -> Res {
    let ch: Ch = Rc::default();
    let mut n = 0;
    loop {
        {
            let mut c = ch.borrow_mut();
            c.at = 0;
            c.redundant = false;
        }
        heartbeat();
        let r = f(&ch, st);
        let mut c = ch.borrow_mut();
        if let Err(e) = r {
            let p: Vec<String> = c.path[..c.at].iter().map(|x| x.0.to_string()).collect();
            return Err(Fail { key: e.key, msg: format!("{} (choices {})", e.msg, p.join(" ")) });
        }
        n += 1;
        if !c.redundant {
            st.schedules += 1;
        }
        let at = c.at;
        c.path.truncate(at);
        while let Some((i, m)) = c.path.pop() {
            if i + 1 < m {
                c.path.push((i + 1, m));
                break;
            }
        }
        if c.path.is_empty() {
            return Ok(());
        }
        if n >= max {
            st.notes.push(format!("stopped at {} runs of a program", max));
            return Ok(());
        }
    }
}

/// Writes as the choices say, at most so many of them differently.
pub struct Writes {
    pub ch: Ch,
    pub left: usize,
}
impl Policy for Writes {
    fn write(&mut self, _: usize, _: usize, len: usize) -> Do {
        if self.left == 0 {
            return Do::Upto(len);
        }
        let o = if len > 1 {
            vec![Do::Upto(len), Do::Upto(1), Do::Upto(len - 1), Do::Later]
        } else {
            vec![Do::Upto(len), Do::Later]
        };
        let i = self.ch.borrow_mut().pick(o.len());
        if i > 0 {
            self.left -= 1;
        }
        o[i]
    }
}

/// A new world.
pub fn fresh(p: impl Policy + 'static) {
    sim::reset(Rc::new(RefCell::new(p)));
}
