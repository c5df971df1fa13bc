//! C01-C04: the commands against the model.
use crate::eng::*;
use hop_engine::Hop;
pub use crate::histories::{be, ls, values};
use mc::*;

pub fn fbe(f: f64) -> Vec<u8> {
    f.to_be_bytes().to_vec()
}

fn cmd(op: Op, ty: Option<u8>, args: Vec<Vec<u8>>) -> Cmd {
    Cmd { op, ty, args }
}

/// Commands that reach states.
pub fn builders() -> Vec<Cmd> {
    let mut v = vec![];
    for i in 0..2 {
        for x in values(i) {
            v.push(set_cmd(b"a", &x));
            if i == 0 {
                v.push(set_cmd(b"bb", &x));
            }
        }
    }
    for (op, t, a) in [
        (Op::Increment, None, vec![&b"a"[..]]),
        (Op::Decrement, Some(T_FLOAT), vec![b"a"]),
        (Op::Append, None, vec![b"a", b"z"]),
        (Op::Append, Some(T_LIST), vec![b"a", b"z", b""]),
        (Op::Append, Some(T_STR), vec![b"a", b"z"]),
        (Op::Append, Some(T_LIST), vec![b"bb"]),
        (Op::Delete, None, vec![b"a"]),
        (Op::Delete, None, vec![b"bb"]),
        (Op::Rename, None, vec![b"a", b"bb"]),
        (Op::Rename, None, vec![b"bb", b"a"]),
        (Op::Rename, None, vec![b"a", b"c"]),
        (Op::Set, None, vec![b"a", b"1"]),
        (Op::Set, None, vec![b"a", b"12345678", b"2"]),
    ] {
        v.push(Cmd::new(op, t, &a));
    }
    v
}

fn arg_lists() -> Vec<Vec<Vec<u8>>> {
    let n = be(3);
    let l: Vec<Vec<&[u8]>> = vec![
        vec![],
        vec![b"a"],
        vec![b"bb"],
        vec![b"c"],
        vec![b""],
        vec![b"", b"x"],
        vec![b"a", b""],
        vec![b"a", b"x"],
        vec![b"a", b"\x00"],
        vec![b"a", b"\x02"],
        vec![b"a", b"1234567"],
        vec![b"a", &n],
        vec![b"bb", &n],
        vec![b"c", &n],
        vec![b"a", b"a"],
        vec![b"a", b"bb"],
        vec![b"bb", b"a"],
        vec![b"a", b"c"],
        vec![b"c", b"a"],
        vec![b"a", b"\xff\xfe"],
        vec![b"a", "é".as_bytes()],
        vec![b"a", b"x", b"y"],
        vec![b"a", b"y", b"x"],
        vec![b"a", b"x", b"", b"y"],
        vec![b"a", b"\xc3", b"\xa9"],
        vec![b"a", b"x", b"y", b"x", b"w"],
        vec![b"a", b"x", b"x", b"x"],
        vec![b"a", b"bb", b"c"],
        vec![b"a", b"bb", b"bb", b"a"],
        vec![b"c", b"a", b"bb"],
        vec![b"A", b"b"],
    ];
    l.iter().map(|x| ls(x)).collect()
}

/// Every command with every type and every list of arguments.
pub fn everything() -> Vec<Cmd> {
    let mut v = vec![];
    for op in OPS {
        for ty in std::iter::once(None).chain(TYPES.iter().map(|t| Some(*t))) {
            if op == Op::Stats {
                v.push(cmd(op, ty, vec![]));
                continue;
            }
            for a in arg_lists() {
                v.push(cmd(op, ty, a));
            }
        }
    }
    v
}

fn histories(w: &mut W, alpha: &[Cmd], len: usize) {
    let uni = universe(alpha);
    sequences(alpha.len(), len, |ix| {
        w.case(
            || show_all(&ix.iter().map(|i| alpha[*i].clone()).collect::<Vec<_>>()),
            |st| {
                let hop = Hop::new();
                let mut m = MState::default();
                for (n, i) in ix.iter().enumerate() {
                    st.transitions += 1;
                    if n + 1 == ix.len() {
                        step(&hop, &mut m, &alpha[*i], &uni, b"")?;
                    } else {
                        go(&hop, &mut m, &alpha[*i])?;
                    }
                }
                st.state(h64(&m.canon()));
                Ok(())
            },
        );
    });
}

const LENGTHS: [usize; 24] = [
    1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 127, 128, 254, 255, 256, 257, 4095, 4096, 65534, 65535, 65536, 65537, 70001,
];

fn long(n: usize, c: u8) -> Vec<u8> {
    (0..n).map(|i| if i % 7 == 3 { c } else { b'a' + (i % 11) as u8 }).collect()
}

fn run_all(cmds: &[Cmd], st: &mut Stats) -> Res {
    let uni = universe(cmds);
    let hop = Hop::new();
    let mut m = MState::default();
    for (i, c) in cmds.iter().enumerate() {
        st.transitions += 1;
        step(&hop, &mut m, c, &uni, if i % 2 == 0 { b"" } else { b"before" })?;
    }
    st.state(h64(&m.canon()));
    Ok(())
}

/// Keys that something might confuse.
pub fn odd_keys() -> Vec<Vec<u8>> {
    let mut v = ls(&[
        b"a", b"A", b"aa", b"a\0", b"\0", b"\0\0", b" ", b"a ", b" a", b"\xff", b"\xff\xff", b"\x7f", b"\x80",
        b"__hop__", b"__hop__;x", b"_", b"__hop_", b"x__hop__:", b"0", b"-1", b"\n", b"\x00\x00\x00\x01a", b"a:b",
    ]);
    v.push("é".as_bytes().to_vec());
    v.push("e\u{301}".as_bytes().to_vec());
    v.push(long(255, b'z'));
    v.push(long(256, b'z'));
    v.push(long(256, b'y'));
    v.push(long(257, b'z'));
    v
}

pub fn c01(t: Tier) -> Check {
    Check::new("a command in a state of the keys; states: distinct contents of the key space")
        .assume("values, keys and arguments outside of the alphabets and boundary lengths behave like those in them")
        .assume("a listing of a map's keys may come in any order; floats are compared as numbers")
        .sub("every_command_in_every_state", move |w| {
            let states = reachable(&builders(), t.pick(2, 3));
            let alpha = everything();
            let uni = universe(&alpha);
            let step_ = t.pick(1, 1);
            let _ = step_;
            for (si, path) in states.iter().enumerate() {
                // Deeper states are combined with every command only in the
                // thorough tier.
                for c in &alpha {
                    let _ = si;
                    w.case(
                        || format!("after [{}]: {}", show_all(path), c.show()),
                        |st| {
                            let hop = Hop::new();
                            let mut m = MState::default();
                            for p in path {
                                go(&hop, &mut m, p)?;
                            }
                            st.state(h64(&m.canon()));
                            st.transitions += 1;
                            step(&hop, &mut m, c, &uni, b"")?;
                            // And nothing is different about the next answer.
                            let r = cmd(Op::Get, None, c.args.get(..1).unwrap_or(&[]).to_vec());
                            step(&hop, &mut m, &r, &uni, b"earlier answers")?;
                            Ok(())
                        },
                    );
                }
            }
        })
        .sub("all_histories", move |w| {
            let mut alpha = builders();
            for c in [
                Cmd::new(Op::Get, None, &[b"a"]),
                Cmd::new(Op::Type, None, &[b"a"]),
                Cmd::new(Op::Exists, None, &[b"a", b"bb"]),
                Cmd::new(Op::Is, Some(T_LIST), &[b"a"]),
                Cmd::new(Op::Length, None, &[b"a"]),
                Cmd::new(Op::Keys, None, &[b"a"]),
                Cmd::new(Op::Echo, None, &[b"a", b""]),
                Cmd::new(Op::Append, Some(T_BYTES), &[b"a", b"1"]),
                Cmd::new(Op::IncrementBy, None, &[b"a", &be(300)]),
                Cmd::new(Op::DecrementBy, Some(T_FLOAT), &[b"a", &fbe(0.5)]),
            ] {
                alpha.push(c);
            }
            histories(w, &alpha, 3);
            if t == Tier::Thorough {
                let small: Vec<Cmd> = alpha.iter().step_by(2).cloned().collect();
                histories(w, &small, 5);
            }
        })
        .sub("lengths", move |w| {
            for n in LENGTHS {
                let k = long(n, b'Z');
                let x = long(n, b'Y');
                let txt = String::from_utf8(long(n, b'Y')).unwrap();
                let uni_txt: String = (0..n.min(30000)).map(|i| if i % 3 == 0 { 'é' } else { 'x' }).collect();
                let mut vals = vec![
                    MVal::Bytes(x.clone()),
                    MVal::Str(txt),
                    MVal::Str(uni_txt),
                    MVal::List(vec![x.clone(), b"1".to_vec(), x.clone()]),
                    MVal::Map([(b"k".to_vec(), x.clone())].into()),
                ];
                if n <= 255 {
                    vals.push(MVal::Map([(x.clone(), x.clone()), (b"z".to_vec(), vec![])].into()));
                }
                if n <= 65535 {
                    vals.push(MVal::Set([x.clone(), b"1".to_vec()].into()));
                }
                for v in vals {
                    for key in [b"a".to_vec(), k.clone()] {
                        let mut cmds = vec![set_cmd(&key, &v)];
                        for op in [Op::Get, Op::Length, Op::Keys, Op::Type, Op::Exists, Op::Echo] {
                            cmds.push(cmd(op, None, vec![key.clone()]));
                        }
                        cmds.push(cmd(Op::Get, Some(v.ty()), vec![key.clone()]));
                        cmds.push(cmd(Op::Is, Some(v.ty()), vec![key.clone(), key.clone()]));
                        cmds.push(cmd(Op::Echo, None, vec![x.clone(), key.clone(), x.clone()]));
                        cmds.push(cmd(Op::Append, None, vec![key.clone(), x.clone(), b"!".to_vec()]));
                        cmds.push(cmd(Op::Rename, None, vec![key.clone(), b"other".to_vec()]));
                        cmds.push(cmd(Op::Rename, None, vec![b"other".to_vec(), key.clone()]));
                        cmds.push(cmd(Op::Delete, None, vec![key.clone()]));
                        cmds.push(cmd(Op::Delete, None, vec![key.clone()]));
                        w.case(|| show_all(&cmds), |st| run_all(&cmds, st));
                    }
                }
            }
        })
        .sub("contents", move |w| {
            for c in contents(t == Tier::Thorough) {
                for v in values_with(&c) {
                    let k = b"k".to_vec();
                    let cmds = vec![
                        set_cmd(&k, &v),
                        cmd(Op::Get, Some(v.ty()), vec![k.clone()]),
                        cmd(Op::Keys, None, vec![k.clone()]),
                        cmd(Op::Length, None, vec![k.clone()]),
                        cmd(Op::Append, None, vec![k.clone(), c.clone(), b"x".to_vec(), c.clone()]),
                        cmd(Op::Is, Some(v.ty()), vec![k.clone()]),
                        set_cmd(&k, &v),
                        // Without the type, as the type it has.
                        Cmd { op: Op::Set, ty: None, args: set_cmd(&k, &v).args },
                        cmd(Op::Get, None, vec![k.clone()]),
                    ];
                    w.case(|| show_all(&cmds), |st| run_all(&cmds, st));
                }
                let k = b"k".to_vec();
                let mut lists = vec![
                    vec![cmd(Op::Echo, None, vec![c.clone()]), cmd(Op::Echo, None, vec![k.clone(), c.clone(), k.clone(), c.clone()])],
                    vec![
                        cmd(Op::Append, Some(T_BYTES), vec![k.clone(), c.clone()]),
                        cmd(Op::Append, Some(T_LIST), vec![b"l".to_vec(), c.clone(), c.clone()]),
                        cmd(Op::Append, Some(T_STR), vec![b"s".to_vec(), c.clone(), b"x".to_vec()]),
                        cmd(Op::Append, None, vec![k.clone(), c.clone()]),
                        cmd(Op::Length, None, vec![b"s".to_vec()]),
                    ],
                    // As whatever type.
                    TYPES.iter().map(|t| cmd(Op::Set, Some(*t), vec![k.clone(), c.clone()])).collect(),
                    TYPES.iter().map(|t| cmd(Op::Set, Some(*t), vec![k.clone(), c.clone(), b"x".to_vec()])).collect(),
                    [None, Some(T_INT), Some(T_FLOAT)].iter().map(|t| cmd(Op::IncrementBy, *t, vec![k.clone(), c.clone()])).collect(),
                ];
                if !c.starts_with(b"__hop__:") {
                    lists.push(vec![
                        set_cmd(&c, &MVal::Int(3)),
                        cmd(Op::Increment, None, vec![c.clone()]),
                        cmd(Op::Exists, None, vec![c.clone()]),
                        cmd(Op::Type, None, vec![c.clone()]),
                        cmd(Op::Rename, None, vec![c.clone(), k.clone()]),
                        cmd(Op::Exists, None, vec![c.clone()]),
                        cmd(Op::Rename, None, vec![k.clone(), c.clone()]),
                        cmd(Op::Get, None, vec![c.clone()]),
                        cmd(Op::Delete, None, vec![c.clone()]),
                        cmd(Op::Append, Some(T_LIST), vec![c.clone(), c.clone()]),
                        cmd(Op::Get, None, vec![c.clone()]),
                    ]);
                }
                for cmds in lists {
                    w.case(|| show_all(&cmds), |st| run_all(&cmds, st));
                }
            }
        })
        .sub("counts", move |w| {
            for n in [0usize, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 126, 127, 128, 129, 200, 253, 254] {
                let items: Vec<Vec<u8>> = (0..n).map(|i| format!("i{}", i).into_bytes()).collect();
                let with = |first: &[u8]| {
                    let mut v = vec![first.to_vec()];
                    v.extend(items.iter().cloned());
                    v
                };
                for ty in TYPES {
                    let cmds = vec![
                        cmd(Op::Set, Some(ty), with(b"a")),
                        cmd(Op::Get, Some(ty), ls(&[b"a"])),
                        cmd(Op::Length, None, ls(&[b"a"])),
                        cmd(Op::Keys, None, ls(&[b"a"])),
                        cmd(Op::Append, Some(ty), with(b"a")),
                        cmd(Op::Append, Some(ty), with(b"c")),
                        cmd(Op::Set, None, with(b"a")),
                        cmd(Op::Set, None, with(b"fresh")),
                        cmd(Op::Length, Some(ty), ls(&[b"a"])),
                        cmd(Op::Rename, None, with(b"a")),
                        cmd(Op::Delete, None, with(b"i0")),
                    ];
                    w.case(|| show_all(&cmds), |st| run_all(&cmds, st));
                }
                // Items that repeat: all the same, in runs, taking turns, and
                // the last the same as the first.
                let repeats: [&dyn Fn(usize) -> usize; 4] = [&|_| 0, &|i| i / 3, &|i| i % 3, &|i| i % n.saturating_sub(1).max(1)];
                for (form, same) in repeats.into_iter().enumerate() {
                    let with = |first: &[u8]| {
                        let mut v = vec![first.to_vec()];
                        v.extend((0..n).map(|i| format!("i{}", same(i)).into_bytes()));
                        v
                    };
                    for ty in TYPES {
                        let cmds = vec![
                            cmd(Op::Set, Some(ty), with(b"a")),
                            cmd(Op::Get, Some(ty), ls(&[b"a"])),
                            cmd(Op::Length, None, ls(&[b"a"])),
                            cmd(Op::Keys, None, ls(&[b"a"])),
                            cmd(Op::Append, Some(ty), with(b"a")),
                            cmd(Op::Append, Some(ty), with(b"c")),
                            cmd(Op::Get, None, ls(&[b"c"])),
                            cmd(Op::Append, Some(ty), with(b"c")),
                            cmd(Op::Length, None, ls(&[b"c"])),
                        ];
                        w.case(|| format!("repeats of form {}: {}", form, show_all(&cmds)), |st| run_all(&cmds, st));
                    }
                    let keys = with(b"i0");
                    let cmds = vec![
                        set_cmd(b"i0", &MVal::Int(1)),
                        set_cmd(b"i1", &MVal::Int(1)),
                        cmd(Op::Exists, None, keys.clone()),
                        cmd(Op::Is, Some(T_INT), keys.clone()),
                        set_cmd(b"i2", &MVal::Str("s".into())),
                        cmd(Op::Exists, None, keys.clone()),
                        cmd(Op::Is, Some(T_INT), keys.clone()),
                        cmd(Op::Echo, None, keys[1..].to_vec()),
                    ];
                    w.case(|| format!("repeats of form {}: {}", form, show_all(&cmds)), |st| run_all(&cmds, st));
                }
                // As many keys, of which all, all but one, or all but one of
                // the type exist.
                for miss in [None, Some(0), Some(n / 2), Some(n.saturating_sub(1))] {
                    let mut cmds = vec![];
                    for (i, k) in items.iter().enumerate() {
                        if Some(i) != miss {
                            cmds.push(set_cmd(k, &MVal::Int(i as i64)));
                        }
                    }
                    cmds.push(cmd(Op::Exists, None, items.clone()));
                    cmds.push(cmd(Op::Is, Some(T_INT), items.clone()));
                    if let Some(i) = miss {
                        if let Some(k) = items.get(i) {
                            cmds.push(set_cmd(k, &MVal::Str("s".into())));
                            cmds.push(cmd(Op::Exists, None, items.clone()));
                            cmds.push(cmd(Op::Is, Some(T_INT), items.clone()));
                        }
                    }
                    w.case(
                        || format!("{} keys, without {:?}: {}", n, miss, show_all(&cmds[cmds.len().saturating_sub(5)..])),
                        |st| {
                            let hop = Hop::new();
                            let mut m = MState::default();
                            for c in &cmds {
                                st.transitions += 1;
                                go(&hop, &mut m, c)?;
                            }
                            Ok(())
                        },
                    );
                }
                let cmds = vec![cmd(Op::Echo, None, items.clone()), cmd(Op::Echo, Some(T_STR), items.clone())];
                w.case(|| format!("echo of {} arguments", n), |st| run_all(&cmds, st));
            }
        })
        .sub("large_collections", move |w| {
            // More than one request could carry.
            for n in [255usize, 256, 257, 500, 512, 513, 1000, 1001, 1024, 1025, 2048, 2049, 4096, 4097, 10000, 32768, 65534, 65535] {
                let item = |i: usize| format!("i{}", i).into_bytes();
                for v in [
                    MVal::List((0..n).map(item).collect()),
                    MVal::Set((0..n).map(item).collect()),
                    MVal::Map((0..n).map(|i| (item(i), item(n - i))).collect()),
                ] {
                    w.case(
                        || format!("a {} of {}", ty_name(v.ty()), n),
                        |st| {
                            let hop = Hop::new();
                            let mut m = MState::default();
                            hop.state().insert(b"a".to_vec(), value(&v));
                            m.keys.insert(b"a".to_vec(), v.clone());
                            let (ty, b) = (v.ty(), b"a".to_vec());
                            for c in [
                                cmd(Op::Get, None, vec![b.clone()]),
                                cmd(Op::Get, Some(ty), vec![b.clone()]),
                                cmd(Op::Length, None, vec![b.clone()]),
                                cmd(Op::Length, Some(ty), vec![b.clone()]),
                                cmd(Op::Keys, None, vec![b.clone()]),
                                cmd(Op::Keys, Some(T_MAP), vec![b.clone()]),
                                cmd(Op::Is, Some(ty), vec![b.clone()]),
                                cmd(Op::Type, None, vec![b.clone()]),
                                cmd(Op::Rename, None, ls(&[b"a", b"b"])),
                                cmd(Op::Get, None, ls(&[b"b"])),
                                cmd(Op::Delete, None, ls(&[b"b"])),
                            ] {
                                st.transitions += 1;
                                go(&hop, &mut m, &c)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        })
        .sub("similar_values", move |w| {
            // One value in the place of another that is almost the same.
            for ty in TYPES {
                let vs: Vec<MVal> = similar_values(ty).into_iter().filter(|v| set_cmd(b"a", v).args.len() > 1).collect();
                for v in &vs {
                    for x in &vs {
                        let again = Cmd { ty: None, ..set_cmd(b"a", x) };
                        for second in [set_cmd(b"a", x), again] {
                            let cmds = vec![
                                set_cmd(b"a", v),
                                second,
                                cmd(Op::Get, None, ls(&[b"a"])),
                                cmd(Op::Keys, None, ls(&[b"a"])),
                                cmd(Op::Length, None, ls(&[b"a"])),
                                cmd(Op::Rename, None, ls(&[b"a", b"b"])),
                                cmd(Op::Get, Some(ty), ls(&[b"b"])),
                            ];
                            w.case(|| show_all(&cmds), |st| run_all(&cmds, st));
                        }
                    }
                }
            }
        })
        .sub("exact_floats", move |w| {
            // What isn't counted with stays the same to the bit.
            for bits in (0..64u32).map(|b| 1u64 << b).chain([
                0, 1 << 63, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0xfff8_0000_0000_0000, 0x7ff8_0000_0000_0001,
                0xffff_ffff_ffff_ffff, 0x7ff8_dead_beef_0000, 0x3ff0_0000_0000_0000, 0x3ff0_0000_0000_0001, 0x000f_ffff_ffff_ffff, 0x7fef_ffff_ffff_ffff,
            ]) {
                w.case(|| format!("the float {:016x}", bits), |st| {
                    let hop = Hop::new();
                    let v = MVal::Float(f64::from_bits(bits));
                    let none = Cmd { ty: None, ..set_cmd(b"a", &v) };
                    for c in [
                        set_cmd(b"a", &v),
                        cmd(Op::Get, None, ls(&[b"a"])),
                        cmd(Op::Get, Some(T_FLOAT), ls(&[b"a"])),
                        set_cmd(b"a", &MVal::Float(2.5)),
                        none,
                        cmd(Op::Get, None, ls(&[b"a"])),
                        cmd(Op::Rename, None, ls(&[b"a", b"b"])),
                        cmd(Op::Get, None, ls(&[b"b"])),
                    ] {
                        st.transitions += 1;
                        let got = guarded(|| dispatch(&hop, &c, b"")).and_then(|r| r)?;
                        if c.op != Op::Rename && c.args.get(1) != Some(&fbe(2.5)) {
                            ensure!(matches!(&got, Ok(g) if g.same_bits(&v)), "`{}` gave {:?}", c.show(), got);
                        }
                    }
                    Ok(())
                });
            }
        })
        .sub("keys_are_told_apart", move |w| {
            let mut ks = odd_keys();
            ks.extend(similar_keys());
            ks.sort();
            ks.dedup();
            for a in &ks {
                for b in &ks {
                    if a == b {
                        continue;
                    }
                    let cmds = vec![
                        set_cmd(a, &MVal::Int(1)),
                        cmd(Op::Exists, None, vec![b.clone()]),
                        cmd(Op::Is, Some(T_INT), vec![b.clone()]),
                        cmd(Op::Get, None, vec![b.clone()]),
                        cmd(Op::Delete, None, vec![b.clone()]),
                        cmd(Op::Append, Some(T_LIST), vec![b.clone(), b"1".to_vec()]),
                        cmd(Op::Increment, None, vec![a.clone()]),
                        cmd(Op::Increment, None, vec![b.clone()]),
                        cmd(Op::Rename, None, vec![a.clone(), b.clone()]),
                        cmd(Op::Delete, None, vec![b.clone()]),
                        cmd(Op::Rename, None, vec![a.clone(), b.clone()]),
                        cmd(Op::Get, None, vec![a.clone()]),
                        cmd(Op::Get, None, vec![b.clone()]),
                        cmd(Op::Type, None, vec![b.clone()]),
                        cmd(Op::Length, None, vec![b.clone()]),
                        cmd(Op::IncrementBy, None, vec![a.clone(), be(7)]),
                        cmd(Op::DecrementBy, None, vec![b.clone(), be(9)]),
                        set_cmd(b, &MVal::Map([(a.clone(), b.clone())].into_iter().filter(|x| x.0.len() < 256).collect())),
                        cmd(Op::Keys, None, vec![b.clone()]),
                        cmd(Op::Get, None, vec![a.clone()]),
                    ];
                    w.case(|| show_all(&cmds), |st| run_all(&cmds, st));
                }
            }
        })
        .sub("every_command_by_name", move |w| {
            // Every command on a key of any name, that is missing or of each type.
            let mut ks = odd_keys();
            ks.extend(similar_keys());
            for n in [31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 70000] {
                ks.push(long(n, b'k'));
            }
            ks.sort();
            ks.dedup();
            let mut vals: Vec<Option<MVal>> = vec![None];
            vals.extend(values(1).into_iter().map(Some));
            for k in &ks {
                for v in &vals {
                    for op in OPS {
                        if op.is_simple() {
                            continue;
                        }
                        for ty in [None].into_iter().chain((0..8).map(Some)) {
                            let mut lists = vec![vec![k.clone()], vec![k.clone(), be(1)]];
                            // An answer can't hold a longer one.
                            if op != Op::Set || k.len() < 256 {
                                lists.push(vec![k.clone(), k.clone()]);
                            }
                            if matches!(op, Op::Exists | Op::Is) {
                                lists.push(vec![k.clone(), b"other".to_vec()]);
                            }
                            for a in lists {
                                let mut cmds = vec![];
                                if let Some(v) = v {
                                    cmds.push(set_cmd(k, v));
                                    cmds.push(set_cmd(b"other", v));
                                }
                                cmds.push(cmd(op, ty, a));
                                w.case(|| show_all(&cmds), |st| run_all(&cmds, st));
                            }
                        }
                    }
                }
            }
        })
        .sub("growing", move |w| {
            // Values that grow past every size a length field might have.
            for ty in [T_BYTES, T_LIST, T_STR] {
                for piece in [1usize, 255, 4096] {
                    let per = if ty == T_LIST { 254 } else { 2 };
                    w.case(
                        || format!("append {} pieces of {} bytes to a {} again and again", per, piece, ty_name(ty)),
                        |st| {
                            let hop = Hop::new();
                            let mut m = MState::default();
                            let rounds = match ty {
                                T_LIST => if piece > 1 { 12 } else { 250 },
                                _ => if piece > 1 { 40 } else { 300 },
                            };
                            for i in 0..rounds {
                                let mut args = vec![b"a".to_vec()];
                                for j in 0..per {
                                    args.push(long(piece, b'A' + ((i * per + j) % 26) as u8));
                                }
                                let c = cmd(Op::Append, Some(ty), args);
                                let uni = ls(&[b"a"]);
                                st.transitions += 2;
                                step(&hop, &mut m, &c, &uni, b"")?;
                                step(&hop, &mut m, &cmd(Op::Length, None, uni.clone()), &uni, b"")?;
                                heartbeat();
                            }
                            step(&hop, &mut m, &cmd(Op::Get, None, ls(&[b"a"])), &ls(&[b"a"]), b"")?;
                            Ok(())
                        },
                    );
                }
            }
            // Many keys at once.
            w.case(
                || "4000 keys set, changed, renamed and deleted".into(),
                |st| {
                    let hop = Hop::new();
                    let mut m = MState::default();
                    let k = |i: usize| format!("key{}", i).into_bytes();
                    for i in 0..4000 {
                        go(&hop, &mut m, &set_cmd(&k(i), &MVal::Int(i as i64)))?;
                    }
                    for i in 0..4000 {
                        st.transitions += 1;
                        match i % 4 {
                            0 => go(&hop, &mut m, &cmd(Op::Delete, None, vec![k(i)]))?,
                            1 => go(&hop, &mut m, &cmd(Op::IncrementBy, None, vec![k(i), be(i as i64)]))?,
                            2 => go(&hop, &mut m, &cmd(Op::Rename, None, vec![k(i), k(i + 5000)]))?,
                            _ => go(&hop, &mut m, &set_cmd(&k(i), &MVal::Str("x".into())))?,
                        }
                    }
                    for i in 0..9100 {
                        go(&hop, &mut m, &cmd(Op::Get, None, vec![k(i)]))?;
                    }
                    Ok(())
                },
            );
        })
}

pub fn c02(t: Tier) -> Check {
    Check::new("a failing command in a state of the keys; what it must leave alone is everything")
        .sub("every_failing_command", move |w| {
            let states = reachable(&builders(), t.pick(2, 3));
            let mut alpha = everything();
            // More ways for a command to fail.
            let bad: Vec<Vec<Vec<u8>>> = vec![
                ls(&[b"c", b"\xff"]),
                ls(&[b"c", b"ok", b"\xff"]),
                ls(&[b"c", b""]),
                ls(&[b"c", b"", b"x"]),
                ls(&[b"c", b"123"]),
                ls(&[b"c", b"1234567", b"12345678"]),
                ls(&[b"a", b"bb", b""]),
                ls(&[b"c", b"c"]),
                ls(&[b"c", b"bb"]),
                ls(&[b"bb", b"\xff"]),
                ls(&[b"bb", b"1"]),
                ls(&[b"", b"a"]),
                ls(&[b"a", b"", b"bb"]),
                ls(&[b"", b"", b""]),
            ];
            for op in OPS {
                if op.is_simple() {
                    continue;
                }
                for ty in std::iter::once(None).chain(TYPES.iter().map(|t| Some(*t))) {
                    for a in &bad {
                        alpha.push(cmd(op, ty, a.clone()));
                    }
                }
            }
            let uni = universe(&alpha);
            for path in &states {
                for c in &alpha {
                    // Those the specification has succeed are judged by
                    // C01, but must not fail halfway either.
                    let mut m = MState::default();
                    for p in path {
                        let _ = m.apply(p);
                    }
                    if !changes(c.op) && m.clone().apply(c).is_ok() {
                        continue;
                    }
                    w.case(
                        || format!("after [{}]: {}", show_all(path), c.show()),
                        |st| failing(path, c, &uni, st),
                    );
                }
            }
        })
        .sub("failing_with_big_arguments", move |w| {
            for n in [255usize, 256, 65535, 65536] {
                for ex in values(0) {
                    for op in OPS {
                        if op.is_simple() {
                            continue;
                        }
                        for ty in std::iter::once(None).chain(TYPES.iter().map(|t| Some(*t))) {
                            for c in [
                                cmd(op, ty, vec![b"a".to_vec(), long(n, 0xff)]),
                                cmd(op, ty, vec![long(n, b'x')]),
                                cmd(op, ty, vec![b"a".to_vec(), long(n, b'x'), long(n, 0xff)]),
                            ] {
                                let path = vec![set_cmd(b"a", &ex)];
                                let uni = universe(&[c.clone(), path[0].clone()]);
                                let mut m = MState::default();
                                let _ = m.apply(&path[0]);
                                // The format has no room for every answer.
                                if m.apply(&c).is_ok_and(|v| !changes(c.op) || !v.fits()) {
                                    continue;
                                }
                                w.case(
                                    || format!("after [{}]: {}", show_all(&path), c.show()),
                                    |st| failing(&path, &c, &uni, st),
                                );
                            }
                        }
                    }
                }
            }
        })
}

fn failing(path: &[Cmd], c: &Cmd, uni: &[Vec<u8>], st: &mut Stats) -> Res {
    let hop = Hop::new();
    let mut m = MState::default();
    for p in path {
        go(&hop, &mut m, p)?;
    }
    st.state(h64(&m.canon()));
    let before = dump(hop.state(), uni)?;
    st.transitions += 1;
    let r = dispatch(&hop, c, b"answers before")?;
    if r.is_err() {
        st.outcome(format!("{:?}{:?}", c.op, r.as_ref().err()).as_bytes());
        let after = dump(hop.state(), uni)?;
        ensure!(
            after.canon() == before.canon(),
            "`{}` failed ({}) but changed {} to {}",
            c.show(), show_res(&r), before.show(), after.show()
        );
        // Again, and once something else succeeded.
        let r2 = dispatch(&hop, c, b"")?;
        ensure!(same_answer(c, &r, &r2), "`{}` failed with {}, then answered {}", c.show(), show_res(&r), show_res(&r2));
        let after = dump(hop.state(), uni)?;
        ensure!(
            after.canon() == before.canon(),
            "`{}` failed twice but changed {} to {}",
            c.show(), before.show(), after.show()
        );
    } else if m.clone().apply(c).is_err() {
        return Err(format!("`{}` has to fail in {} but answered {}", c.show(), m.show(), show_res(&r)).into());
    }
    Ok(())
}

fn changes(op: Op) -> bool {
    !matches!(op, Op::Get | Op::Exists | Op::Is | Op::Type | Op::Length | Op::Keys | Op::Echo | Op::Stats)
}

const INTS: [i64; 34] = [
    0, 1, -1, 2, -2, 3, 7, 10, 127, 128, 255, 256, -256, 1000, 65535, 65536, i32::MAX as i64, i32::MAX as i64 + 1,
    i32::MIN as i64, i32::MIN as i64 - 1, u32::MAX as i64, u32::MAX as i64 + 1, 1 << 52, (1 << 53) - 1, 1 << 53,
    (1 << 53) + 1, -(1 << 53) - 1, 1 << 62, i64::MAX - 1, i64::MAX, i64::MIN, i64::MIN + 1, -(1 << 62),
    0x0102030405060708,
];

fn floats() -> Vec<f64> {
    vec![
        0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.1, 0.2, -0.3, 1.5, 3.0, 1e10, 123456789.123, 1e15, 9007199254740992.0,
        9007199254740993.0, -9007199254740992.0, 1e300, -1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324,
        f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN,
    ]
}

const ARITH: [Op; 4] = [Op::Increment, Op::Decrement, Op::IncrementBy, Op::DecrementBy];

pub fn c03(t: Tier) -> Check {
    Check::new("an arithmetic command on a key holding a number; states: numbers held")
        .assume("floats are compared as numbers, any NaN equals any other, and the sign of a zero result is not judged")
        .sub("all_pairs_of_numbers", move |w| {
            let mut starts: Vec<Option<MVal>> = vec![None];
            starts.extend(INTS.iter().map(|i| Some(MVal::Int(*i))));
            starts.extend(floats().into_iter().map(|f| Some(MVal::Float(f))));
            let mut amounts: Vec<Vec<u8>> = INTS.iter().map(|i| be(*i)).collect();
            amounts.extend(floats().into_iter().map(fbe));
            for s in &starts {
                for op in ARITH {
                    for ty in [None, Some(T_INT), Some(T_FLOAT)] {
                        let am: Vec<Option<&Vec<u8>>> = if matches!(op, Op::IncrementBy | Op::DecrementBy) {
                            amounts.iter().map(Some).collect()
                        } else {
                            vec![None]
                        };
                        for a in am {
                            let mut cmds = vec![];
                            if let Some(s) = s {
                                cmds.push(set_cmd(b"n", s));
                            }
                            let mut args = vec![b"n".to_vec()];
                            args.extend(a.cloned());
                            cmds.push(cmd(op, ty, args.clone()));
                            cmds.push(cmd(op, ty, args));
                            cmds.push(Cmd::new(Op::Get, None, &[b"n"]));
                            cmds.push(Cmd::new(Op::Type, None, &[b"n"]));
                            w.case(|| show_all(&cmds), |st| run_all(&cmds, st));
                        }
                    }
                }
            }
        })
        .sub("types", move |w| {
            let mut starts: Vec<Option<MVal>> = vec![None];
            starts.extend(values(0).into_iter().map(Some));
            starts.extend(values(1).into_iter().map(Some));
            for s in &starts {
                for op in ARITH {
                    for ty in std::iter::once(None).chain(TYPES.iter().map(|t| Some(*t))) {
                        for len in 0..=8usize {
                            for extra in 0..3 {
                                let mut cmds = vec![];
                                if let Some(s) = s {
                                    cmds.push(set_cmd(b"n", s));
                                }
                                let mut args = vec![b"n".to_vec()];
                                if extra > 0 {
                                    args.push((1..=len as u8).collect());
                                }
                                if extra > 1 {
                                    args.push(be(77));
                                }
                                cmds.push(cmd(op, ty, args));
                                cmds.push(Cmd::new(Op::Get, None, &[b"n"]));
                                w.case(|| show_all(&cmds), |st| run_all(&cmds, st));
                            }
                        }
                    }
                }
            }
        })
        .sub("all_histories", move |w| {
            let mut alpha = vec![];
            for ty in [None, Some(T_INT), Some(T_FLOAT)] {
                alpha.push(Cmd::new(Op::Increment, ty, &[b"n"]));
                alpha.push(Cmd::new(Op::Decrement, ty, &[b"n"]));
                for a in [be(3), be(i64::MIN), be(i64::MAX), fbe(0.5), fbe(1e300), fbe(f64::NAN)] {
                    alpha.push(Cmd::new(Op::IncrementBy, ty, &[b"n", &a]));
                    alpha.push(Cmd::new(Op::DecrementBy, ty, &[b"n", &a]));
                }
            }
            alpha.push(Cmd::new(Op::Delete, None, &[b"n"]));
            alpha.push(set_cmd(b"n", &MVal::Float(2.0)));
            alpha.push(set_cmd(b"n", &MVal::Int(i64::MAX)));
            alpha.push(set_cmd(b"n", &MVal::Str("5".into())));
            alpha.push(set_cmd(b"n", &MVal::Bool(true)));
            histories(w, &alpha, t.pick(3, 4));
        })
        .sub("counting_far", move |w| {
            for (op, ty) in [
                (Op::Increment, None),
                (Op::Decrement, None),
                (Op::Increment, Some(T_FLOAT)),
                (Op::Decrement, Some(T_FLOAT)),
                (Op::Increment, Some(T_INT)),
            ] {
                for start in [0i64, i64::MAX - 500, i64::MIN + 500, 250, 65500, -300, u32::MAX as i64 - 500] {
                    w.case(
                        || format!("1000 x {} from {}", op.name(), start),
                        |st| {
                            let hop = Hop::new();
                            let mut m = MState::default();
                            let v = if ty == Some(T_FLOAT) { MVal::Float(start as f64) } else { MVal::Int(start) };
                            go(&hop, &mut m, &set_cmd(b"n", &v))?;
                            for _ in 0..1000 {
                                st.transitions += 1;
                                step(&hop, &mut m, &Cmd::new(op, ty, &[b"n"]), &ls(&[b"n"]), b"")?;
                                st.state(h64(&m.canon()));
                            }
                            Ok(())
                        },
                    );
                }
            }
        })
}

pub fn c04(t: Tier) -> Check {
    let pieces: Vec<Vec<Vec<u8>>> = vec![
        vec![],
        ls(&[b""]),
        ls(&[b"a"]),
        ls(&["é".as_bytes()]),
        ls(&[b"\xc3"]),
        ls(&[b"\xa9b"]),
        ls(&[b"a", b"bc"]),
        ls(&[b"bc", b"a"]),
        ls(&["é".as_bytes(), b"\xc3", "𝄞".as_bytes()]),
        ls(&[b"", b"a", b""]),
        vec![long(300, b'Q')],
        ls(&[b"a", b"a", b"a", b"a"]),
    ];
    let mut alpha = vec![];
    for ty in [None, Some(T_BYTES), Some(T_LIST), Some(T_STR)] {
        for p in &pieces {
            let mut args = vec![b"k".to_vec()];
            args.extend(p.iter().cloned());
            alpha.push(cmd(Op::Append, ty, args));
        }
    }
    let appends = alpha.clone();
    for v in [
        MVal::Bytes(b"0".to_vec()),
        MVal::Bytes("é".as_bytes().to_vec()),
        MVal::Str("0é".into()),
        MVal::Str(String::new()),
        MVal::List(ls(&[b"0", b""])),
        MVal::List(vec![]),
        MVal::Int(1),
        MVal::Set(Default::default()),
        MVal::Map([(b"a".to_vec(), b"b".to_vec())].into()),
    ] {
        if !args_of(&v).is_empty() {
            alpha.push(set_cmd(b"k", &v));
        }
    }
    for ty in [None, Some(T_BYTES), Some(T_LIST), Some(T_STR), Some(T_SET)] {
        alpha.push(cmd(Op::Length, ty, ls(&[b"k"])));
    }
    alpha.push(cmd(Op::Get, None, ls(&[b"k"])));
    alpha.push(cmd(Op::Delete, None, ls(&[b"k"])));
    let alpha2 = alpha.clone();
    Check::new("an append or length command on a key; states: contents of the key")
        .sub("all_histories", move |w| {
            histories(w, &alpha2, 3);
            if t == Tier::Thorough {
                let small: Vec<Cmd> = alpha2.iter().enumerate().filter(|(i, _)| i % 2 == 0 || *i > 40).map(|x| x.1.clone()).collect();
                histories(w, &small, 4);
            }
        })
        .sub("every_type", move |w| {
            let mut starts: Vec<Option<MVal>> = vec![None];
            starts.extend(values(0).into_iter().map(Some));
            starts.extend(values(1).into_iter().map(Some));
            for s in &starts {
                for ty in std::iter::once(None).chain(TYPES.iter().map(|t| Some(*t))) {
                    for a in &appends {
                        let mut cmds = vec![];
                        if let Some(s) = s {
                            cmds.push(set_cmd(b"k", s));
                        }
                        let mut a = a.clone();
                        a.ty = ty;
                        cmds.push(a);
                        cmds.push(cmd(Op::Length, None, ls(&[b"k"])));
                        cmds.push(cmd(Op::Length, ty, ls(&[b"k"])));
                        cmds.push(cmd(Op::Get, None, ls(&[b"k"])));
                        w.case(|| show_all(&cmds), |st| run_all(&cmds, st));
                    }
                }
            }
        })
        .sub("contents", move |w| {
            let k = b"k".to_vec();
            for c in contents(t == Tier::Thorough) {
                for ty in [T_BYTES, T_LIST, T_STR] {
                    for args in [
                        vec![k.clone(), c.clone()],
                        vec![k.clone(), c.clone(), c.clone()],
                        vec![k.clone(), b"x".to_vec(), c.clone()],
                        vec![k.clone(), c.clone(), b"x".to_vec()],
                    ] {
                        let cmds = vec![
                            cmd(Op::Append, Some(ty), args.clone()),
                            cmd(Op::Length, None, vec![k.clone()]),
                            cmd(Op::Append, Some(ty), args.clone()),
                            cmd(Op::Append, None, args),
                            cmd(Op::Length, Some(ty), vec![k.clone()]),
                            cmd(Op::Get, None, vec![k.clone()]),
                        ];
                        w.case(|| show_all(&cmds), |st| run_all(&cmds, st));
                    }
                }
            }
        })
        .sub("similar_values", move |w| {
            // To one value what another holds that is almost the same.
            for ty in [T_BYTES, T_LIST, T_STR] {
                let vs: Vec<MVal> = similar_values(ty).into_iter().filter(|v| set_cmd(b"k", v).args.len() > 1).collect();
                for v in &vs {
                    for x in &vs {
                        let args = set_cmd(b"k", x).args;
                        let cmds = vec![
                            set_cmd(b"k", v),
                            cmd(Op::Append, Some(ty), args.clone()),
                            cmd(Op::Append, None, args.clone()),
                            cmd(Op::Append, Some(ty), set_cmd(b"k", v).args),
                            cmd(Op::Get, None, ls(&[b"k"])),
                            cmd(Op::Length, None, ls(&[b"k"])),
                        ];
                        w.case(|| show_all(&cmds), |st| run_all(&cmds, st));
                    }
                }
            }
        })
        .sub("past_the_format", move |w| {
            // A list longer than an answer can say still has all its items.
            for n in [65_530usize, 65_534, 65_535, 65_536, 70_000, 131_071] {
                for more in [1usize, 2, 10, 254] {
                    for ty in [None, Some(T_LIST)] {
                        w.case(|| format!("{} items to a list of {}", more, n), |st| {
                            let hop = Hop::new();
                            let item = |i: usize| format!("i{}", i).into_bytes();
                            hop.state().insert(b"k".to_vec(), value(&MVal::List((0..n).map(item).collect())));
                            let mut args = vec![b"k".to_vec()];
                            args.extend((n..n + more).map(item));
                            let c = cmd(Op::Append, ty, args);
                            let mut resp = vec![];
                            // Without a type it may be refused, and then changes nothing. The count in the
                            // answer is the known finding list-65536, and can be a panic.
                            let r = guarded(|| with_req(&c, |r| hop.dispatch(r, &mut resp)).map(|x| x.is_ok())).and_then(|r| r).unwrap_or(true);
                            st.transitions += 1;
                            let want: Vec<Vec<u8>> = (0..if r { n + more } else { n }).map(item).collect();
                            ensure!(r || ty.is_none(), "the append failed");
                            let got = hop.state().key_ref(b"k").map(|v| mval(v.value()));
                            ensure!(got.is_some_and(|g| g.same(&MVal::List(want))), "the list isn't what it was and the items");
                            Ok(())
                        });
                    }
                }
            }
        })
        .sub("sizes", move |w| {
            for ty in [T_BYTES, T_LIST, T_STR] {
                for n in LENGTHS {
                    for n2 in [1usize, 255, 256, 65535, 65536] {
                        let x = long(n, b'A');
                        let y = long(n2, b'B');
                        let k = b"k".to_vec();
                        let cmds = vec![
                            cmd(Op::Append, Some(ty), vec![k.clone(), x.clone()]),
                            cmd(Op::Append, Some(ty), vec![k.clone(), y.clone(), x.clone()]),
                            cmd(Op::Append, None, vec![k.clone(), y.clone()]),
                            cmd(Op::Length, Some(ty), vec![k.clone()]),
                            cmd(Op::Get, Some(ty), vec![k.clone()]),
                        ];
                        w.case(|| show_all(&cmds), |st| run_all(&cmds, st));
                    }
                }
                for n in 0..=254usize {
                    let mut args = vec![b"k".to_vec()];
                    args.extend((0..n).map(|i| format!("{},", i).into_bytes()));
                    let cmds = vec![
                        cmd(Op::Append, Some(ty), args.clone()),
                        cmd(Op::Append, None, args),
                        cmd(Op::Length, None, ls(&[b"k"])),
                    ];
                    w.case(|| format!("append {} pieces to {}", n, ty_name(ty)), |st| run_all(&cmds, st));
                }
            }
        })
}
