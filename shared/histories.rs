//! Histories of calls on the client API. Included by the checkers (`#[path]`).
use crate::calls::*;
use mc::*;

pub fn be(i: i64) -> Vec<u8> {
    i.to_be_bytes().to_vec()
}
pub fn ls(v: &[&[u8]]) -> Vec<Vec<u8>> {
    v.iter().map(|x| x.to_vec()).collect()
}

/// Two values of each type.
pub fn values(i: usize) -> Vec<MVal> {
    let m = |v: &[(&[u8], &[u8])]| MVal::Map(v.iter().map(|(a, b)| (a.to_vec(), b.to_vec())).collect());
    let s = |v: &[&[u8]]| MVal::Set(v.iter().map(|a| a.to_vec()).collect());
    if i == 0 {
        vec![
            MVal::Bytes(b"x\xffy".to_vec()),
            MVal::Bool(true),
            MVal::Float(1.5),
            MVal::Int(5),
            MVal::Str("zé".into()),
            MVal::List(ls(&[b"p", b"q", b"p"])),
            m(&[(b"k", b"v"), (b"m", b"nn")]),
            s(&[b"p", b"qq"]),
        ]
    } else {
        vec![
            MVal::Bytes(b"0123456789".to_vec()),
            MVal::Bool(false),
            MVal::Float(-0.0),
            MVal::Int(-1),
            MVal::Str("w".into()),
            MVal::List(ls(&[b"\x00"])),
            m(&[(b"", b"")]),
            s(&[b""]),
        ]
    }
}

/// Takes a history and the keys it uses.
pub type Take<'a> = &'a mut dyn FnMut(&[Call], &[Vec<u8>]);

fn edge_values() -> Vec<MVal> {
    let items = |n: usize| (0..n).map(|i| format!("i{}", i).into_bytes()).collect::<Vec<_>>();
    let mut v = vec![
        MVal::Bytes(vec![]),
        MVal::Str(String::new()),
        MVal::List(vec![]),
        MVal::Map(Default::default()),
        MVal::Set(Default::default()),
        MVal::List(ls(&[b"x", b"", b"y"])),
        MVal::Int(i64::MIN),
        MVal::Int(i64::MAX),
        MVal::Float(f64::NAN),
        MVal::Float(f64::INFINITY),
        MVal::Float(f64::MIN_POSITIVE),
        MVal::Bytes(vec![7; 300]),
        MVal::Bytes(vec![0; 70_000]),
        MVal::Str("\u{1F600}\0x".into()),
        MVal::Set([vec![9; 300], vec![9; 256], vec![9; 255]].into_iter().collect()),
        MVal::Map([(vec![9; 255], vec![8; 70_000]), (vec![1], vec![])].into_iter().collect()),
        MVal::Map([(vec![9; 256], vec![8])].into_iter().collect()),
    ];
    for n in [1, 2, 126, 127, 128, 253, 254, 255, 256, 300] {
        v.push(MVal::List(items(n)));
        v.push(MVal::Set(items(n).into_iter().collect()));
        v.push(MVal::Map(items(n).into_iter().map(|k| (k, b"v".to_vec())).collect()));
    }
    v
}

pub fn every_call_in_every_state(t: Tier, take: Take) {
    let keys: [&[u8]; 2] = [b"a", b"bb"];
    let uni = ls(&[b"a", b"bb", b"c", b"A"]);
    let mut vals: Vec<MVal> = values(0);
    vals.extend(values(1));
    let calls = all_calls(&keys, &vals);
    let mut setup: Vec<Vec<Call>> = vec![vec![]];
    for i in 0..2 {
        for v in values(i) {
            setup.push(vec![Call::SetValue(b"a".to_vec(), v.clone())]);
            for x in values(0) {
                if t == Tier::Thorough || v.ty() == x.ty() || i == 0 {
                    setup.push(vec![Call::SetValue(b"a".to_vec(), v.clone()), Call::SetValue(b"bb".to_vec(), x.clone())]);
                }
            }
        }
    }
    for s in &setup {
        for c in &calls {
            let mut h = s.clone();
            h.push(c.clone());
            take(&h, &uni);
        }
    }
}

pub fn all_sequences(t: Tier, take: Take) {
    let uni = ls(&[b"a", b"bb"]);
    let v = values(0);
    let a = b"a".to_vec();
    let b = b"bb".to_vec();
    let calls = vec![
        Call::Set(a.clone(), v[3].clone(), false),
        Call::Set(a.clone(), v[2].clone(), false),
        Call::Set(a.clone(), v[5].clone(), false),
        Call::Set(b.clone(), v[6].clone(), false),
        Call::Append(a.clone(), v[0].clone()),
        Call::Append(a.clone(), v[5].clone()),
        Call::Append(a.clone(), v[4].clone()),
        Call::Inc(false, a.clone(), None, None),
        Call::Inc(true, a.clone(), Some(T_INT), Some(MVal::Int(5))),
        Call::Inc(false, a.clone(), Some(T_FLOAT), None),
        Call::Delete(a.clone()),
        Call::Rename(a.clone(), b.clone()),
        Call::Rename(b.clone(), a.clone()),
        Call::Get(a.clone(), Some(T_INT), false),
        Call::Get(b.clone(), Some(T_MAP), false),
        Call::Length(b.clone(), None, false),
        Call::Keys(b.clone()),
        Call::Type(a.clone()),
        Call::Exists(vec![a.clone(), b.clone()]),
        Call::Is(T_MAP, vec![b.clone()]),
        Call::Stats,
    ];
    for n in 1..=t.pick(4, 5) {
        sequences(calls.len(), n, |ix| {
            let h: Vec<Call> = ix.iter().map(|i| calls[*i].clone()).collect();
            take(&h, &uni);
        });
    }
}

pub fn edges(take: Take) {
    let uni = ls(&[b"a"]);
    for v in edge_values() {
        let a = b"a".to_vec();
        for c in [
            Call::Set(a.clone(), v.clone(), false),
            Call::Set(a.clone(), v.clone(), true),
            Call::SetValue(a.clone(), v.clone()),
            Call::BAppend(a.clone(), v.clone()),
            Call::SetValue(vec![], v.clone()),
        ] {
            take(&[c.clone(), Call::Get(a.clone(), Some(v.ty()), false)], &uni);
            take(&[c.clone(), Call::Get(a.clone(), None, false), c.clone()], &uni);
            if matches!(v.ty(), T_BYTES | T_LIST | T_STR) {
                take(&[c.clone(), Call::Append(a.clone(), v.clone()), Call::Length(a.clone(), None, false)], &uni);
            }
            if v.ty() == T_MAP {
                take(&[c.clone(), Call::Keys(a.clone())], &uni);
            }
            if matches!(v.ty(), T_INT | T_FLOAT) {
                for n in [false, true] {
                    take(&[c.clone(), Call::Inc(n, a.clone(), Some(v.ty()), Some(v.clone()))], &uni);
                    take(&[c.clone(), Call::Inc(n, a.clone(), None, None)], &uni);
                }
            }
        }
    }
    for c in all_calls(&[b""], &values(0)) {
        take(&[c], &uni);
    }
    for k in [&[7u8; 300][..], b"\0", b"\xff\xfe", b"a b", b"__hop_"] {
        for c in all_calls(&[k], &values(0)) {
            take(&[Call::SetValue(k.to_vec(), MVal::Int(7)), c], &ls(&[k]));
        }
    }
}

pub fn number_of_keys(take: Take) {
    let uni = ls(&[b"a"]);
    for n in 0..=300usize {
        let keys: Vec<Vec<u8>> = vec![b"a".to_vec(); n];
        take(&[Call::Set(b"a".to_vec(), MVal::Int(1), false), Call::Exists(keys.clone())], &uni);
        take(&[Call::Set(b"a".to_vec(), MVal::Int(1), false), Call::Is(T_INT, keys.clone())], &uni);
        let mut other = keys;
        if n > 0 {
            // The one that makes a difference first or last.
            for at in [0, n - 1, n / 2] {
                other[at] = b"zz".to_vec();
                take(&[Call::Set(b"a".to_vec(), MVal::Int(1), false), Call::Exists(other.clone())], &uni);
                take(&[Call::Set(b"a".to_vec(), MVal::Int(1), false), Call::Is(T_INT, other.clone())], &uni);
                other[at] = b"a".to_vec();
            }
        }
    }
}


/// Contents of every kind in every place of calls.
pub fn contents(all: bool, take: Take) {
    let (a, k) = (b"a".to_vec(), b"k".to_vec());
    for c in mc::contents(all) {
        // what the engine does with the keys it reserves for itself is judged elsewhere
        let uni = if c.starts_with(b"__hop__:") { vec![a.clone(), k.clone()] } else { vec![a.clone(), k.clone(), c.clone()] };
        for v in values_with(&c) {
            let x = Call::SetValue(a.clone(), v.clone());
            take(&[x.clone(), Call::Get(a.clone(), Some(v.ty()), false), Call::Get(a.clone(), None, false), Call::Keys(a.clone()), Call::Length(a.clone(), None, false)], &uni);
            take(&[Call::Set(a.clone(), v.clone(), false), Call::Get(a.clone(), Some(v.ty()), true)], &uni);
            if matches!(v.ty(), T_BYTES | T_LIST | T_STR) {
                take(&[x, Call::Append(a.clone(), v.clone()), Call::Append(k.clone(), v), Call::Get(a.clone(), None, false)], &uni);
            }
        }
        take(&[Call::Echo(c.clone())], &uni);
        if !c.starts_with(b"__hop__:") {
            take(
                &[
                    Call::SetValue(c.clone(), MVal::Int(3)),
                    Call::Inc(false, c.clone(), None, None),
                    Call::Exists(vec![c.clone(), c.clone()]),
                    Call::IsOne(T_INT, c.clone()),
                    Call::Rename(c.clone(), k.clone()),
                    Call::ExistsOne(c.clone()),
                    Call::Rename(k.clone(), c.clone()),
                    Call::Type(c.clone()),
                    Call::Get(c.clone(), None, false),
                    Call::Delete(c.clone()),
                ],
                &uni,
            );
        }
    }
}

/// Many calls one after another, with the statistics in between.
pub fn long(all: bool, take: Take) {
    let k = || b"a".to_vec();
    let inc = || Call::Inc(false, k(), None, None);
    let get = |k: &[u8]| Call::Get(k.to_vec(), None, false);
    let lists: [&[Call]; 5] = [
        &[inc(), Call::Stats],
        &[get(b"none"), Call::Stats],
        &[Call::Stats],
        &[inc(), get(b"a"), get(b"none"), Call::ExistsOne(k()), Call::Rename(b"none".to_vec(), k()), Call::Stats, Call::Type(k())],
        &[Call::SetValue(b"b".to_vec(), MVal::Bytes(b"x".to_vec())), Call::Rename(b"b".to_vec(), b"c".to_vec()), Call::Stats, Call::Delete(b"c".to_vec())],
    ];
    let uni = ls(&[b"a", b"b", b"c"]);
    for l in lists {
        for n in [300usize, 1100, if all { 300_000 } else { 66_000 }] {
            let h: Vec<Call> = l.iter().cycle().take(n * l.len().min(2)).cloned().collect();
            take(&h, &uni);
        }
    }
}

/// Contents of up to more than 16 MiB.
pub fn big(take: Take) {
    let a = b"a".to_vec();
    let text = |n: usize| (0..n).map(|i| b'a' + (i % 23) as u8).collect::<Vec<u8>>();
    for n in [65_535usize, 65_536, 100_000, 1 << 20, (1 << 20) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 1] {
        let s = String::from_utf8(text(n)).unwrap();
        take(&[Call::Echo(text(n)), Call::Echo(b"x".to_vec())], &[]);
        for v in [MVal::Bytes(text(n)), MVal::Str(s), MVal::List(vec![b"x".to_vec(), text(n)]), MVal::Set([text(n)].into()), MVal::Map([(b"k".to_vec(), text(n))].into())] {
            // The known finding set-item-65536.
            if matches!(v, MVal::Set(_)) && n > 65_535 {
                continue;
            }
            let mut h = vec![Call::SetValue(a.clone(), v.clone()), Call::Get(a.clone(), Some(v.ty()), false), Call::Length(a.clone(), None, false)];
            if matches!(v.ty(), T_BYTES | T_LIST | T_STR) {
                h.push(Call::Append(a.clone(), v.clone()));
                h.push(Call::Length(a.clone(), None, false));
            }
            take(&h, &ls(&[b"a"]));
        }
    }
}
