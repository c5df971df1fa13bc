//! Shared parts of the checks: the runner (exhaustive enumeration, workers,
//! evidence, known findings), the reference model and the independent codec.
pub mod frame;
pub mod model;
pub mod wire;
pub use frame::*;
pub use model::*;

/// FNV-1a, for counting distinct things.
pub fn h64(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

/// Bytes printed so that they can be read: long ones are abbreviated.
pub fn show(b: &[u8]) -> String {
    if b.len() > 48 {
        return format!("{}..({} bytes, fnv {:x})", show(&b[..16]), b.len(), h64(b));
    }
    let mut s = String::from("\"");
    for c in b {
        match c {
            0x20..=0x7e if *c != b'"' && *c != b'\\' => s.push(*c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s.push('"');
    s
}

/// Contents that something might treat specially: every byte, every pair of
/// telling bytes (around text and triples of them if `all`), characters of
/// every encoded length, and words.
pub fn contents(all: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    const T: [u8; 19] = [0, 1, 4, 9, 10, 13, b' ', b'"', b'-', b'0', b':', b'=', b'A', b'a', 0x7f, 0x80, 0xc3, 0xa9, 0xff];
    for a in T {
        v.push([&[a][..], b"text"].concat());
        v.push([b"text", &[a][..]].concat());
        v.push([b"te", &[a][..], b"xt"].concat());
        for b in T {
            v.push(vec![a, b]);
            if all {
                v.push([&[a][..], b"text", &[b]].concat());
                for c in T {
                    v.push(vec![a, b, c]);
                }
            }
        }
    }
    for c in "\u{7f}\u{80}\u{e9}\u{301}\u{7ff}\u{800}\u{2028}\u{d7ff}\u{e000}\u{feff}\u{fffd}\u{ffff}\u{10000}\u{1f980}\u{10ffff}".chars() {
        v.push(c.to_string().into_bytes());
        v.push(format!("a{}", c).into_bytes());
        v.push(format!("{}a", c).into_bytes());
        v.push(format!("{}{}", c, c).into_bytes());
        // Cut within the character.
        let e = c.to_string().into_bytes();
        v.push(e[..e.len() - 1].to_vec());
        v.push([b"a", &e[..e.len() - 1], b"a"].concat());
    }
    for s in [
        "true", "false", "null", "nil", "NaN", "inf", "-inf", "1.5", "-1", "007", "__hop__", "__hop__:x", "__hop__:", "get a", "set:int a 1", "a=b", "a\nb",
        "\r\n\r\n", "  padded  ", "\\", "\\n", "\\0", "%s", "{}", "${a}", "../..", "/", ".", "*", "MiXeD", "00000000", "\x01\x02\x03\x04\x05\x06\x07\x08",
    ] {
        v.push(s.as_bytes().to_vec());
    }
    for n in 0..18 {
        v.push(vec![0; n]);
        v.push(vec![255; n]);
    }
    v.sort();
    v.dedup();
    v.retain(|c| !c.is_empty());
    v
}

/// Values with the content in every place there is.
pub fn values_with(c: &[u8]) -> Vec<MVal> {
    let c = || c.to_vec();
    let x = || b"x".to_vec();
    let mut v = vec![
        MVal::Bytes(c()),
        MVal::List(vec![c()]),
        MVal::List(vec![c(), x(), c()]),
        MVal::List(vec![x(), c()]),
        MVal::Map([(c(), x())].into()),
        MVal::Map([(x(), c())].into()),
        MVal::Map([(c(), c()), (x(), x())].into()),
        MVal::Set([c()].into()),
        MVal::Set([c(), x(), [c(), x()].concat()].into()),
    ];
    if let Ok(s) = String::from_utf8(c()) {
        v.push(MVal::Str(s));
    }
    v
}

/// Keys that something might confuse.
pub fn similar_keys() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for stem in [&b"a"[..], b"abcdefgh", b"a name of more than thirty-two bytes"] {
        v.push(stem.to_vec());
        for tail in [&b" "[..], b"  ", b"\0", b"\n", b"\t", b":", b"a", b"h", b"\xff", b"\xc2\xa0", b"\xef\xbb\xbf"] {
            v.push([stem, tail].concat());
            v.push([tail, stem].concat());
        }
        v.push(stem.to_ascii_uppercase());
    }
    v.sort();
    v.dedup();
    v
}

/// Values of a type that are almost the same: one begins like another, has
/// the same keys or members, or as many.
pub fn similar_values(ty: u8) -> Vec<MVal> {
    let items: Vec<Vec<u8>> = [&b"a"[..], b"aa", b"b", b"abcdefgh", b"abcdefghij", b"abcdefghik"].iter().map(|x| x.to_vec()).collect();
    let texts = ["", "a", "aa", "ab", "b", "A", "a ", " a", "a\0", "abcdefgh", "abcdefghi", "abcdefgi", "abcdefgh\0", "\u{e9}", "e\u{301}"];
    let mut v = vec![];
    match ty {
        T_BYTES => v.extend(texts.iter().map(|x| MVal::Bytes(x.as_bytes().to_vec()))),
        T_STR => v.extend(texts.iter().map(|x| MVal::Str(x.to_string()))),
        T_BOOL => v.extend([MVal::Bool(false), MVal::Bool(true)]),
        T_INT => v.extend([0i64, -1, 1, 256, 1 << 32, 1 << 53, (1 << 53) + 1, i64::MIN, i64::MAX].map(MVal::Int)),
        T_FLOAT => v.extend(
            [0u64, 1 << 63, 1, 0x3ff0_0000_0000_0000, 0x3ff0_0000_0000_0001, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000]
                .map(|b| MVal::Float(f64::from_bits(b))),
        ),
        T_LIST => {
            v.push(MVal::List(vec![]));
            for a in &items {
                v.push(MVal::List(vec![a.clone()]));
                for b in &items {
                    v.push(MVal::List(vec![a.clone(), b.clone()]));
                }
            }
        }
        T_SET => {
            v.push(MVal::Set([].into()));
            for (i, a) in items.iter().enumerate() {
                for (j, b) in items[..=i].iter().enumerate() {
                    v.push(MVal::Set([a.clone(), b.clone()].into()));
                    for c in &items[..j] {
                        v.push(MVal::Set([a.clone(), b.clone(), c.clone()].into()));
                    }
                }
            }
        }
        _ => {
            v.push(MVal::Map([].into()));
            let items = [items[0].clone(), items[1].clone(), items[3].clone()];
            for a in &items {
                for b in &items {
                    v.push(MVal::Map([(a.clone(), b.clone())].into()));
                    for c in items.iter().filter(|c| *c < a) {
                        for d in &items {
                            v.push(MVal::Map([(a.clone(), b.clone()), (c.clone(), d.clone())].into()));
                        }
                    }
                }
            }
        }
    }
    v.dedup_by(|a, b| a.same_bits(b));
    v
}
