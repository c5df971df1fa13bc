//! C05, C06 and C07: commands running at the same time.
use crate::prog::{self, Prog, Renames};
use mc::model::*;
use mc::*;

fn c(op: Op, ty: Option<u8>, args: &[&[u8]]) -> Cmd {
    Cmd::new(op, ty, args)
}

fn set(k: &[u8], v: MVal) -> Cmd {
    set_cmd(k, &v)
}

const TWO: &[u8] = b"\0\0\0\0\0\0\0\x02";

/// Commands on one key.
fn on_key(k: &[u8]) -> Vec<Cmd> {
    use Op::*;
    vec![
        c(Increment, None, &[k]),
        c(Decrement, Some(T_INT), &[k]),
        c(Increment, Some(T_FLOAT), &[k]),
        c(IncrementBy, None, &[k, TWO]),
        c(DecrementBy, Some(T_FLOAT), &[k, &2f64.to_be_bytes()]),
        c(Set, None, &[k, b"uvwxyz01"]),
        c(Set, Some(T_INT), &[k, &100i64.to_be_bytes()]),
        c(Set, Some(T_LIST), &[k, b"p", b"q"]),
        c(Set, Some(T_MAP), &[k, b"p", b"q"]),
        c(Set, Some(T_STR), &[k, b"str"]),
        c(Get, None, &[k]),
        c(Get, Some(T_INT), &[k]),
        c(Delete, None, &[k]),
        c(Exists, None, &[k]),
        c(Is, Some(T_INT), &[k]),
        c(Is, Some(T_LIST), &[k]),
        c(Type, None, &[k]),
        c(Append, None, &[k, b"x"]),
        c(Append, Some(T_LIST), &[k, b"y"]),
        c(Append, Some(T_STR), &[k, b"z"]),
        c(Length, None, &[k]),
        c(Length, Some(T_LIST), &[k]),
        c(Keys, None, &[k]),
    ]
}

/// States of one key.
fn states(k: &[u8]) -> Vec<Vec<Cmd>> {
    let b = |x: &[u8]| x.to_vec();
    vec![
        vec![],
        vec![set(k, MVal::Int(5))],
        vec![set(k, MVal::Bytes(b(b"bytes")))],
        vec![set(k, MVal::Float(1.5))],
        vec![set(k, MVal::List(vec![b(b"l")]))],
        vec![set(k, MVal::Str("s".into()))],
        vec![set(k, MVal::Map([(b(b"m"), b(b"v")), (b(b"n"), b(b"w"))].into()))],
        vec![set(k, MVal::Set([b(b"i"), b(b"j")].into()))],
        vec![set(k, MVal::Bool(true))],
    ]
}

fn linearizable(p: &Prog, uni: &[Vec<u8>], st: &mut Stats) -> Res {
    prog::run(p, uni, st, |s| {
        ensure!(prog::explained(s, Renames::Atomic).is_some(), "no order of the commands explains the outcome");
        Ok(())
    })
}

fn programs(w: &mut W, init: &[Vec<Cmd>], cmds: &[Cmd], shape: &[usize], shards: &[usize], f: impl Fn(&Prog, &[Vec<u8>], &mut Stats) -> Res + Copy, keep: impl Fn(&[Vec<Cmd>]) -> bool) {
    let mut all = cmds.to_vec();
    all.extend(init.iter().flatten().cloned());
    let uni = crate::eng::universe(&all);
    // All ways of choosing the commands of a thread, and of these an unordered
    // choice for threads of the same length.
    let mut lists: Vec<Vec<Vec<Cmd>>> = vec![];
    for &n in shape {
        let mut l = vec![];
        sequences(cmds.len(), n, |s| l.push(s.iter().map(|i| cmds[*i].clone()).collect()));
        lists.push(l);
    }
    for i in init {
        let mut pick = vec![0usize; shape.len()];
        'outer: loop {
            let ordered = (1..pick.len()).all(|t| shape[t] != shape[t - 1] || pick[t - 1] <= pick[t]);
            if ordered {
                let threads: Vec<Vec<Cmd>> = pick.iter().enumerate().map(|(t, p)| lists[t][*p].clone()).collect();
                if keep(&threads) {
                    for &sh in shards {
                        let p = Prog { init: i.clone(), threads: threads.clone(), shards: sh };
                        w.case(|| p.show(), |st| f(&p, &uni, st));
                    }
                }
            }
            let mut t = 0;
            loop {
                if t == pick.len() {
                    break 'outer;
                }
                pick[t] += 1;
                if pick[t] < lists[t].len() {
                    break;
                }
                pick[t] = 0;
                t += 1;
            }
        }
    }
}

/// Something has to be changed for the order to matter.
fn changes(t: &[Vec<Cmd>]) -> bool {
    use Op::*;
    t.iter().flatten().any(|c| !matches!(c.op, Get | Exists | Is | Type | Length | Keys | Echo | Stats))
}

pub fn c06(t: Tier) -> Check {
    use Op::*;
    let k: &[u8] = b"a";
    let few = vec![
        c(Increment, None, &[k]),
        c(Increment, Some(T_FLOAT), &[k]),
        c(Set, None, &[k, b"uvwxyz01"]),
        c(Set, Some(T_LIST), &[k, b"p"]),
        c(Get, None, &[k]),
        c(Delete, None, &[k]),
        c(Append, None, &[k, b"x"]),
        c(Append, Some(T_LIST), &[k, b"y"]),
        c(Type, None, &[k]),
        c(Length, None, &[k]),
    ];
    let (few2, few3, few4, few5) = (few.clone(), few.clone(), few.clone(), few.clone());
    Check::new("a program of commands on several threads in every schedule, whose answers and final state some order of the commands has to explain; states: final states")
        .assume("memory is sequentially consistent; a thread is only preempted before taking a shard's lock or an atomic operation")
        .sub("two_commands", move |w| {
            let mut cmds = on_key(k);
            cmds.push(c(Set, Some(T_BOOL), &[k, b"\x01"]));
            cmds.push(c(Set, Some(T_SET), &[k, b"1", b"2"]));
            cmds.push(c(Set, Some(T_FLOAT), &[k, &2.5f64.to_be_bytes()]));
            cmds.push(c(Set, Some(T_INT), &[k, b"short"]));
            cmds.push(c(IncrementBy, Some(T_INT), &[k, b"short"]));
            cmds.push(c(Keys, Some(T_MAP), &[k]));
            cmds.push(c(Get, Some(T_LIST), &[k]));
            cmds.push(c(Append, Some(T_BYTES), &[k, b"1", b"2"]));
            programs(w, &states(k), &cmds, &[1, 1], &[1, 8], linearizable, changes)
        })
        .sub("commands_on_two_keys", move |w| {
            let mut cmds = on_key(b"a");
            cmds.extend(on_key(b"b"));
            let init: Vec<Vec<Cmd>> = states(b"a").into_iter().take(5).flat_map(|x| {
                [x.clone(), x.into_iter().chain([set(b"b", MVal::Int(7))]).collect()]
            }).collect();
            programs(w, &init, &cmds, &[1, 1], &[1], linearizable, |t| changes(t) && t[0][0].args[0] != t[1][0].args[0])
        })
        .sub("three_commands", move |w| {
            programs(w, &states(k), &on_key(k), &[1, 1, 1], &[1], linearizable, changes)
        })
        .sub("two_threads_of_two", move |w| {
            programs(w, &states(k)[..7], &few, &[2, 2], t.pick(&[1], &[1, 8]), linearizable, changes)
        })
        .sub("one_and_two", move |w| {
            programs(w, &states(k), &on_key(k), &[1, 2], t.pick(&[1], &[1, 8]), linearizable, changes)
        })
        .sub("four_commands", move |w| {
            let n = t.pick(8, 10);
            programs(w, &states(k)[..t.pick(5, 9)], &few2[..n], &[1, 1, 1, 1], &[1], linearizable, changes)
        })
        .sub("two_of_one_and_two", move |w| {
            programs(w, &states(k)[..t.pick(2, 5)], &few4[..t.pick(5, 8)], &[1, 1, 2], &[1], linearizable, changes)
        })
        .sub("two_and_three", move |w| {
            programs(w, &states(k)[..t.pick(2, 5)], &few5[..t.pick(5, 7)], &[2, 3], &[1], linearizable, changes)
        })
        .sub("two_threads_of_three", move |w| {
            programs(w, &states(k)[..2], &few3[..t.pick(6, 8)], &[3, 3], &[1], linearizable, changes)
        })
}

fn renamed(p: &Prog, uni: &[Vec<u8>], st: &mut Stats) -> Res {
    prog::run(p, uni, st, |s| {
        if prog::explained(s, Renames::Atomic).is_some() || prog::explained(s, Renames::Steps).is_some() {
            return Ok(());
        }
        if let Some(by) = prog::explained(s, Renames::Lossy) {
            let by = by.last().map_or("", |o| o.name());
            return Err(Fail::known(
                format!("put-back:{}", by),
                "a value was lost: a rename couldn't put it back because its key was created meanwhile",
            ));
        }
        Err("no order of the commands explains the outcome".into())
    })
}

pub fn c05(t: Tier) -> Check {
    use Op::*;
    let (a, b, d): (&[u8], &[u8], &[u8]) = (b"a", b"b", b"d");
    let cmds = vec![
        c(Rename, None, &[a, b]),
        c(Rename, None, &[b, a]),
        c(Rename, None, &[a, d]),
        c(Rename, None, &[d, b]),
        c(Rename, None, &[a, a]),
        c(Set, None, &[a, b"uvwxyz01"]),
        c(Set, None, &[b, b"uvwxyz02"]),
        c(Increment, None, &[a]),
        c(Increment, None, &[b]),
        c(Append, Some(T_LIST), &[a, b"y"]),
        c(Append, None, &[b, b"y"]),
        c(Delete, None, &[a]),
        c(Delete, None, &[b]),
        c(Get, None, &[a]),
        c(Get, None, &[b]),
    ];
    let init = vec![
        vec![set(a, MVal::Int(5))],
        vec![set(a, MVal::List(vec![b"l".to_vec()]))],
        vec![set(a, MVal::Int(5)), set(b, MVal::Bytes(b"bytes".to_vec()))],
        vec![set(b, MVal::Map([(b"m".to_vec(), b"v".to_vec())].into()))],
        vec![set(a, MVal::Int(5)), set(d, MVal::Int(-1))],
        vec![],
    ];
    let rename = |t: &[Vec<Cmd>]| t.iter().flatten().any(|c| c.op == Rename);
    let (i2, c2) = (init.clone(), cmds.clone());
    let (i3, c3) = (init.clone(), cmds.clone());
    let (i4, c4) = (init.clone(), cmds.clone());
    let (i5, c5, i6, c6) = (init.clone(), cmds.clone(), init.clone(), cmds.clone());
    Check::new("a program of renames and other commands on several threads in every schedule, whose answers and final state some order of the commands has to explain in which a rename takes a value and puts it where nothing is; states: final states")
        .assume("memory is sequentially consistent; a thread is only preempted before taking a shard's lock or an atomic operation")
        .assume("between being taken and being put the value may be seen at neither key; a failing rename may have taken it, if it puts it back")
        .sub("one_at_a_time", move |w| {
            // Every value of every type, alone: nothing but the value moves.
            let vals: Vec<MVal> = states(a).into_iter().flatten().map(|c| parse_value(c.ty.unwrap(), &c.args[1..]).unwrap()).collect();
            let mut cmds = vec![];
            for x in [a, b, d, b"", b"e\xff\0"] {
                for y in [a, b, d, b"", b"e\xff\0"] {
                    for ty in [None, Some(T_INT)] {
                        cmds.push(c(Rename, ty, &[x, y]));
                    }
                }
                cmds.push(c(Rename, None, &[x]));
            }
            cmds.push(c(Rename, None, &[]));
            cmds.push(c(Rename, None, &[a, b, d]));
            let uni: Vec<Vec<u8>> = [a, b, d, b"", b"e\xff\0"].iter().map(|x| x.to_vec()).collect();
            for v in &vals {
                for second in [None, Some(a), Some(b), Some(d)] {
                    for sh in [1, 8] {
                        let mut init = vec![set(b"e\xff\0", MVal::Set([b"1".to_vec(), b"2".to_vec()].into()))];
                        if let Some(k) = second {
                            init.push(set(k, v.clone()));
                        }
                        sequences(cmds.len(), 2, |s| {
                            let p = Prog { init: init.clone(), threads: vec![s.iter().map(|i| cmds[*i].clone()).collect()], shards: sh };
                            w.case(|| p.show(), |st| prog::run(&p, &uni, st, |s| {
                                ensure!(prog::explained(s, Renames::Atomic).is_some(), "not what the commands do");
                                Ok(())
                            }));
                        });
                    }
                }
            }
        })
        .sub("sizes", move |w| {
            // Long names and big values move whole as well.
            let text = |n: usize| (0..n).map(|i| b'a' + (i % 26) as u8).collect::<Vec<u8>>();
            let items = |n: usize| (0..n).map(|i| format!("item {}", i).into_bytes()).collect::<Vec<_>>();
            for n in [1usize, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1000, 1024, 4096, 65_535, 65_536, 70_000] {
                let mut vals = vec![MVal::Bytes(text(n)), MVal::Str(String::from_utf8(text(n)).unwrap()), MVal::List(vec![text(n), b"x".to_vec()])];
                // A request has at most 255 arguments.
                if n <= 254 {
                    vals.push(MVal::List(items(n)));
                    vals.push(MVal::Set(items(n).into_iter().collect()));
                    vals.push(MVal::Map(items(n / 2).into_iter().map(|i| (i.clone(), i)).collect()));
                }
                for v in vals {
                    for (x, y) in [(b"a".to_vec(), b"b".to_vec()), (text(n), b"b".to_vec()), (b"a".to_vec(), text(n)), (text(n), [text(n), b"+".to_vec()].concat())] {
                        if x == y {
                            continue;
                        }
                        for taken in [false, true] {
                            let mut init = vec![set(&x, v.clone())];
                            if taken {
                                init.push(set(&y, MVal::Int(5)));
                            }
                            let p = Prog { init, threads: vec![vec![c(Rename, None, &[&x, &y]), c(Rename, None, &[&y, &x])]], shards: 8 };
                            let uni = vec![x.clone(), y.clone()];
                            w.case(|| format!("values and names of {}: {}", n, p.show().chars().take(100).collect::<String>()), |st| prog::run(&p, &uni, st, |s| {
                                ensure!(prog::explained(s, Renames::Atomic).is_some(), "not what the commands do");
                                Ok(())
                            }));
                        }
                    }
                }
            }
        })
        .sub("names", move |w| {
            // From and to names that are almost the same.
            let ks = similar_keys();
            for x in &ks {
                for y in &ks {
                    if x == y {
                        continue;
                    }
                    for taken in [false, true] {
                        for sh in [1, 8] {
                            let mut init = vec![set(x, MVal::Str("of the first".into()))];
                            if taken {
                                init.push(set(y, MVal::Int(5)));
                            }
                            let threads = vec![vec![c(Rename, None, &[x, y]), c(Get, None, &[x]), c(Get, None, &[y]), c(Rename, None, &[y, x])]];
                            let p = Prog { init, threads, shards: sh };
                            let uni = vec![x.clone(), y.clone()];
                            w.case(|| p.show(), |st| prog::run(&p, &uni, st, |s| {
                                ensure!(prog::explained(s, Renames::Atomic).is_some(), "not what the commands do");
                                Ok(())
                            }));
                        }
                    }
                }
            }
        })
        .sub("two_commands", move |w| programs(w, &init, &cmds, &[1, 1], &[1, 8], renamed, rename))
        .sub("three_commands", move |w| programs(w, &i2, &c2, &[1, 1, 1], &[1, 8], renamed, rename))
        .sub("one_and_two", move |w| programs(w, &i3, &c3, &[1, 2], &[1, 8], renamed, rename))
        .sub("two_threads_of_two", move |w| {
            programs(w, &i4, &c4, &[2, 2], t.pick(&[8], &[1, 8]), renamed, rename)
        })
        .sub("two_of_one_and_two", move |w| programs(w, &i5[..t.pick(2, 4).min(i5.len())], &c5[..t.pick(6, 9)], &[1, 1, 2], &[8], renamed, rename))
        .sub("two_and_three", move |w| {
            programs(w, &i6[..t.pick(2, 4).min(i6.len())], &c6[..t.pick(4, 7)], &[2, 3], &[8], renamed, rename)
        })
}

fn completes(p: &Prog, uni: &[Vec<u8>], st: &mut Stats) -> Res {
    prog::run(p, uni, st, |_| Ok(()))
}

pub fn c07(t: Tier) -> Check {
    use Op::*;
    let (a, b): (&[u8], &[u8]) = (b"a", b"b");
    let mut all: Vec<Cmd> = vec![];
    for k in [a, b] {
        all.extend(on_key(k));
    }
    for op in OPS {
        if op.is_simple() {
            continue;
        }
        // Several keys, and one more than once.
        for args in [vec![a, a], vec![a, b], vec![b, a], vec![a, b, a], vec![a, a, a, a]] {
            for ty in [None, Some(T_INT), Some(T_MAP)] {
                if args.len() > 2 && !matches!(op, Exists | Is | Rename | Delete | Keys | Append | Set) {
                    continue;
                }
                all.push(c(op, ty, &args));
            }
        }
    }
    for op in [Set, Append] {
        for ty in TYPES {
            all.push(c(op, Some(ty), &[a, b"12345678", b"12345678", a, b]));
        }
    }
    all.push(c(Stats, None, &[]));
    all.push(c(Echo, None, &[a, a]));
    all.push(c(Increment, None, &[]));
    all.push(c(Rename, None, &[a]));
    all.sort();
    all.dedup();
    let both: Vec<Vec<Cmd>> = {
        let x = states(a);
        let y = states(b);
        let mut v = vec![];
        for (i, p) in x.iter().enumerate() {
            v.push(p.clone());
            v.push(p.iter().cloned().chain(y[(i + 1) % y.len()].iter().cloned()).collect());
        }
        v
    };
    let few = vec![
        c(Increment, None, &[a]),
        c(Set, None, &[a, b"uvwxyz01"]),
        c(Set, Some(T_MAP), &[b, a, b]),
        c(Get, None, &[a]),
        c(Get, None, &[b]),
        c(Delete, None, &[a]),
        c(Append, None, &[b, b"x"]),
        c(Keys, None, &[b]),
        c(Length, None, &[a]),
        c(Exists, None, &[a, b, a]),
        c(Is, Some(T_INT), &[b, a, b]),
        c(Rename, None, &[a, b]),
        c(Rename, None, &[b, a]),
        c(Rename, None, &[a, a]),
        c(Stats, None, &[]),
    ];
    let (all1, both1, few1) = (all.clone(), both.clone(), few.clone());
    let few2 = few.clone();
    let both2 = both.clone();
    Check::new("a program of commands on several threads in every schedule, all of which have to end; states: final states")
        .assume("memory is sequentially consistent; a thread is only preempted before taking a shard's lock or an atomic operation; a waiting writer doesn't keep readers out (as in the locks used)")
        .sub("one_command", move |w| programs(w, &both, &all, &[1], &[1, 2, 8], completes, |_| true))
        .sub("two_commands", move |w| programs(w, &both1[..18], &all1, &[1, 1], t.pick(&[1], &[1, 2]), completes, |_| true))
        .sub("three_commands", move |w| programs(w, &both2[..t.pick(8, 14)], &few1, &[1, 1, 1], &[1, 8], completes, |_| true))
        .sub("two_threads_of_two", move |w| programs(w, &both2_init(t), &few2[..t.pick(12, 15)], &[2, 2], t.pick(&[1], &[1, 8]), completes, |_| true))
        .sub("sessions_and_subscriptions", move |w| crate::managers::no_deadlock(w))
}

fn both2_init(t: Tier) -> Vec<Vec<Cmd>> {
    let mut v = vec![vec![set(b"a", MVal::Int(5))]];
    if t == Tier::Thorough {
        v.push(vec![set(b"a", MVal::Bytes(b"x".to_vec())), set(b"b", MVal::Map([(b"m".to_vec(), b"v".to_vec())].into()))]);
    }
    v
}
