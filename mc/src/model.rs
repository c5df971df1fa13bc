//! The reference model: a map from keys to typed values, and what each command
//! does to it. Written from the documented behaviour; shares no code with hop.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum MVal {
    Bytes(Vec<u8>),
    Bool(bool),
    Float(f64),
    Int(i64),
    Str(String),
    List(Vec<Vec<u8>>),
    Map(BTreeMap<Vec<u8>, Vec<u8>>),
    Set(BTreeSet<Vec<u8>>),
}

pub const T_BYTES: u8 = 0;
pub const T_BOOL: u8 = 1;
pub const T_FLOAT: u8 = 2;
pub const T_INT: u8 = 3;
pub const T_STR: u8 = 4;
pub const T_LIST: u8 = 5;
pub const T_MAP: u8 = 6;
pub const T_SET: u8 = 7;
pub const TYPES: [u8; 8] = [0, 1, 2, 3, 4, 5, 6, 7];

pub const E_ARGUMENT: u8 = 0;
pub const E_KEY_UNSPECIFIED: u8 = 1;
pub const E_TYPE_DIFFERENT: u8 = 2;
pub const E_TYPE_UNEXPECTED: u8 = 3;
pub const E_PRECONDITION: u8 = 4;
pub const E_NONEXISTENT: u8 = 5;
pub const E_TYPE_REQUIRED: u8 = 6;
pub const E_TYPE_INVALID: u8 = 7;

impl MVal {
    pub fn ty(&self) -> u8 {
        match self {
            MVal::Bytes(_) => T_BYTES,
            MVal::Bool(_) => T_BOOL,
            MVal::Float(_) => T_FLOAT,
            MVal::Int(_) => T_INT,
            MVal::Str(_) => T_STR,
            MVal::List(_) => T_LIST,
            MVal::Map(_) => T_MAP,
            MVal::Set(_) => T_SET,
        }
    }

    pub fn default_of(ty: u8) -> MVal {
        match ty {
            T_BYTES => MVal::Bytes(vec![]),
            T_BOOL => MVal::Bool(false),
            T_FLOAT => MVal::Float(0.0),
            T_INT => MVal::Int(0),
            T_STR => MVal::Str(String::new()),
            T_LIST => MVal::List(vec![]),
            T_MAP => MVal::Map(BTreeMap::new()),
            _ => MVal::Set(BTreeSet::new()),
        }
    }

    /// Whether the wire format has room for it.
    pub fn fits(&self) -> bool {
        match self {
            MVal::List(l) => l.len() < 1 << 16,
            MVal::Map(m) => m.len() < 1 << 16 && m.keys().all(|k| k.len() < 1 << 8),
            MVal::Set(s) => s.len() < 1 << 16 && s.iter().all(|x| x.len() < 1 << 16),
            _ => true,
        }
    }

    /// Same type and content. Floats: the same number, or both not a number
    /// (which one of the several is not defined by arithmetic).
    pub fn same(&self, o: &MVal) -> bool {
        match (self, o) {
            (MVal::Bytes(a), MVal::Bytes(b)) => a == b,
            (MVal::Bool(a), MVal::Bool(b)) => a == b,
            (MVal::Float(a), MVal::Float(b)) => a == b || (a.is_nan() && b.is_nan()),
            (MVal::Int(a), MVal::Int(b)) => a == b,
            (MVal::Str(a), MVal::Str(b)) => a == b,
            (MVal::List(a), MVal::List(b)) => a == b,
            (MVal::Map(a), MVal::Map(b)) => a == b,
            (MVal::Set(a), MVal::Set(b)) => a == b,
            _ => false,
        }
    }

    /// Like `same`, bit for bit.
    pub fn same_bits(&self, o: &MVal) -> bool {
        match (self, o) {
            (MVal::Float(a), MVal::Float(b)) => a.to_bits() == b.to_bits(),
            _ => self.same(o),
        }
    }

    pub fn canon(&self) -> Vec<u8> {
        let mut v = vec![self.ty()];
        fn put(v: &mut Vec<u8>, b: &[u8]) {
            v.extend((b.len() as u32).to_be_bytes());
            v.extend(b);
        }
        match self {
            MVal::Bytes(b) => put(&mut v, b),
            MVal::Bool(b) => v.push(*b as u8),
            MVal::Float(f) => v.extend(if f.is_nan() { f64::NAN.to_bits() } else { f.to_bits() }.to_be_bytes()),
            MVal::Int(i) => v.extend(i.to_be_bytes()),
            MVal::Str(s) => put(&mut v, s.as_bytes()),
            MVal::List(l) => {
                v.extend((l.len() as u32).to_be_bytes());
                l.iter().for_each(|x| put(&mut v, x))
            }
            MVal::Map(m) => {
                v.extend((m.len() as u32).to_be_bytes());
                m.iter().for_each(|(a, b)| {
                    put(&mut v, a);
                    put(&mut v, b)
                })
            }
            MVal::Set(m) => {
                v.extend((m.len() as u32).to_be_bytes());
                m.iter().for_each(|a| put(&mut v, a))
            }
        }
        v
    }

    pub fn show(&self) -> String {
        let s = |b: &Vec<u8>| crate::show(b);
        match self {
            MVal::Bytes(b) => format!("bytes {}", s(b)),
            MVal::Bool(b) => format!("bool {}", b),
            MVal::Float(f) => format!("float {:?}", f),
            MVal::Int(i) => format!("int {}", i),
            MVal::Str(x) => format!("str {}", crate::show(x.as_bytes())),
            MVal::List(l) => format!("list [{}]", some(l.iter().map(s))),
            MVal::Map(l) => format!("map {{{}}}", some(l.iter().map(|(a, b)| format!("{}={}", s(a), s(b))))),
            MVal::Set(l) => format!("set {{{}}}", some(l.iter().map(s))),
        }
    }
}

fn some(i: impl Iterator<Item = String>) -> String {
    let v: Vec<String> = i.collect();
    if v.len() > 8 {
        format!("{}, .. {} items", v[..3].join(", "), v.len())
    } else {
        v.join(", ")
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum Op {
    Increment = 0,
    Decrement = 1,
    IncrementBy = 2,
    DecrementBy = 3,
    Set = 10,
    Get = 11,
    Delete = 12,
    Exists = 13,
    Is = 14,
    Rename = 15,
    Type = 16,
    Append = 20,
    Length = 21,
    Keys = 22,
    Echo = 100,
    Stats = 101,
}

pub const OPS: [Op; 16] = [
    Op::Increment, Op::Decrement, Op::IncrementBy, Op::DecrementBy, Op::Set, Op::Get, Op::Delete, Op::Exists,
    Op::Is, Op::Rename, Op::Type, Op::Append, Op::Length, Op::Keys, Op::Echo, Op::Stats,
];

impl Op {
    pub fn name(self) -> &'static str {
        match self {
            Op::Increment => "increment",
            Op::Decrement => "decrement",
            Op::IncrementBy => "increment:by",
            Op::DecrementBy => "decrement:by",
            Op::Set => "set",
            Op::Get => "get",
            Op::Delete => "delete",
            Op::Exists => "exists",
            Op::Is => "is",
            Op::Rename => "rename",
            Op::Type => "type",
            Op::Append => "append",
            Op::Length => "length",
            Op::Keys => "keys",
            Op::Echo => "echo",
            Op::Stats => "stats",
        }
    }
    pub fn of(n: u8) -> Option<Op> {
        OPS.iter().copied().find(|o| *o as u8 == n)
    }
    /// Stats carries neither keys nor arguments nor their count.
    pub fn is_simple(self) -> bool {
        self == Op::Stats
    }
}

pub fn ty_name(t: u8) -> &'static str {
    ["bytes", "bool", "float", "int", "str", "list", "map", "set"][t as usize]
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Cmd {
    pub op: Op,
    pub ty: Option<u8>,
    pub args: Vec<Vec<u8>>,
}

impl Cmd {
    pub fn new(op: Op, ty: Option<u8>, args: &[&[u8]]) -> Cmd {
        Cmd { op, ty, args: args.iter().map(|a| a.to_vec()).collect() }
    }
    pub fn show(&self) -> String {
        let mut s = self.op.name().to_string();
        if let Some(t) = self.ty {
            s.push_str(&format!(":{}", ty_name(t)));
        }
        for (i, a) in self.args.iter().enumerate() {
            if i > 6 {
                s.push_str(&format!(" ..{} args", self.args.len()));
                break;
            }
            s.push(' ');
            s.push_str(&crate::show(a));
        }
        s
    }
}

pub fn show_all(cmds: &[Cmd]) -> String {
    cmds.iter().map(|c| c.show()).collect::<Vec<_>>().join("; ")
}

#[derive(Clone, Debug, Default)]
pub struct MState {
    pub keys: BTreeMap<Vec<u8>, MVal>,
    /// Successful and failed commands so far.
    pub ok: u64,
    pub err: u64,
    pub started: u64,
    pub ended: u64,
}

impl MState {
    pub fn canon(&self) -> Vec<u8> {
        let mut v = vec![];
        for (k, x) in &self.keys {
            v.extend((k.len() as u32).to_be_bytes());
            v.extend(k);
            v.extend(x.canon());
        }
        v
    }
    pub fn show(&self) -> String {
        format!(
            "{{{}}}",
            self.keys.iter().map(|(k, v)| format!("{}: {}", crate::show(k), v.show())).collect::<Vec<_>>().join(", ")
        )
    }
    pub fn same_keys(&self, o: &MState) -> bool {
        self.keys.len() == o.keys.len()
            && self.keys.iter().zip(&o.keys).all(|((a, b), (c, d))| a == c && b.same(d))
    }

    /// What the command answers; the state is changed accordingly.
    pub fn apply(&mut self, c: &Cmd) -> Result<MVal, u8> {
        let r = self.apply_inner(c);
        match r {
            Ok(_) => self.ok += 1,
            Err(_) => self.err += 1,
        }
        r
    }

    fn apply_inner(&mut self, c: &Cmd) -> Result<MVal, u8> {
        let key = || c.args.first().filter(|k| !k.is_empty()).cloned().ok_or(E_KEY_UNSPECIFIED);
        let rest = || c.args.get(1..).unwrap_or(&[]).to_vec();
        match c.op {
            Op::Set => {
                let k = key()?;
                if c.args.len() < 2 {
                    return Err(E_ARGUMENT);
                }
                let ty = c.ty.or(self.keys.get(&k).map(|v| v.ty())).unwrap_or(T_BYTES);
                let v = parse_value(ty, &rest())?;
                self.keys.insert(k, v.clone());
                Ok(v)
            }
            Op::Get => {
                let v = self.keys.get(&key()?).ok_or(E_NONEXISTENT)?;
                if c.ty.map_or(false, |t| t != v.ty()) {
                    return Err(E_TYPE_DIFFERENT);
                }
                Ok(v.clone())
            }
            Op::Delete => {
                if c.ty.is_some() {
                    return Err(E_TYPE_UNEXPECTED);
                }
                let k = key()?;
                self.keys.remove(&k).ok_or(E_PRECONDITION)?;
                Ok(MVal::Bytes(k))
            }
            Op::Exists => {
                if c.ty.is_some() {
                    return Err(E_TYPE_UNEXPECTED);
                }
                if c.args.is_empty() {
                    return Err(E_ARGUMENT);
                }
                Ok(MVal::Bool(c.args.iter().all(|k| self.keys.contains_key(k))))
            }
            Op::Is => {
                let t = c.ty.ok_or(E_TYPE_REQUIRED)?;
                if c.args.is_empty() {
                    return Err(E_ARGUMENT);
                }
                Ok(MVal::Bool(c.args.iter().all(|k| self.keys.get(k).map_or(false, |v| v.ty() == t))))
            }
            Op::Type => {
                let k = key()?;
                if c.ty.is_some() {
                    return Err(E_TYPE_UNEXPECTED);
                }
                Ok(MVal::Int(self.keys.get(&k).ok_or(E_NONEXISTENT)?.ty() as i64))
            }
            Op::Rename => {
                if c.ty.is_some() {
                    return Err(E_TYPE_UNEXPECTED);
                }
                let k = key()?;
                let to = c.args.get(1).filter(|k| !k.is_empty()).cloned().ok_or(E_ARGUMENT)?;
                if !self.keys.contains_key(&k) {
                    return Err(E_NONEXISTENT);
                }
                if self.keys.contains_key(&to) {
                    return Err(E_PRECONDITION);
                }
                let v = self.keys.remove(&k).unwrap();
                self.keys.insert(to.clone(), v);
                Ok(MVal::Bytes(to))
            }
            Op::Append => {
                let k = key()?;
                if c.ty.map_or(false, |t| t != T_BYTES && t != T_LIST && t != T_STR) {
                    return Err(E_TYPE_DIFFERENT);
                }
                let mut v = match self.keys.get(&k) {
                    Some(v) => v.clone(),
                    None => MVal::default_of(c.ty.unwrap_or(T_BYTES)),
                };
                if c.ty.map_or(false, |t| t != v.ty()) {
                    return Err(E_TYPE_DIFFERENT);
                }
                match &mut v {
                    MVal::Bytes(b) => rest().iter().for_each(|a| b.extend(a)),
                    MVal::List(l) => l.extend(rest()),
                    MVal::Str(s) => rest().iter().for_each(|a| {
                        if let Ok(a) = std::str::from_utf8(a) {
                            s.push_str(a)
                        }
                    }),
                    _ => return Err(E_TYPE_DIFFERENT),
                }
                self.keys.insert(k, v.clone());
                Ok(v)
            }
            Op::Length => {
                let k = key()?;
                if matches!(c.ty, Some(T_BOOL) | Some(T_FLOAT) | Some(T_INT)) {
                    return Err(E_TYPE_INVALID);
                }
                let v = self.keys.get(&k).ok_or(E_NONEXISTENT)?;
                if c.ty.map_or(false, |t| t != v.ty()) {
                    return Err(E_TYPE_DIFFERENT);
                }
                Ok(MVal::Int(match v {
                    MVal::Bytes(b) => b.len(),
                    MVal::Str(s) => s.chars().count(),
                    MVal::List(l) => l.len(),
                    MVal::Map(m) => m.len(),
                    MVal::Set(m) => m.len(),
                    _ => return Err(E_TYPE_INVALID),
                } as i64))
            }
            Op::Keys => {
                let k = key()?;
                if c.ty.map_or(false, |t| t != T_MAP) {
                    return Err(E_TYPE_INVALID);
                }
                match self.keys.get(&k).ok_or(E_NONEXISTENT)? {
                    // The order of a map's keys isn't defined: see `same_answer`.
                    MVal::Map(m) => Ok(MVal::List(m.keys().cloned().collect())),
                    _ if c.ty.is_some() => Err(E_TYPE_DIFFERENT),
                    _ => Err(E_TYPE_INVALID),
                }
            }
            Op::Echo => Ok(MVal::List(c.args.clone())),
            Op::Stats => {
                if c.ty.is_some() {
                    return Err(E_TYPE_UNEXPECTED);
                }
                let n = [("commands_successful", self.ok), ("commands_errored", self.err)];
                Ok(MVal::Map(n.iter().map(|(k, n)| (k.as_bytes().to_vec(), n.to_be_bytes().to_vec())).collect()))
            }
            Op::Increment | Op::Decrement | Op::IncrementBy | Op::DecrementBy => {
                let k = key()?;
                let by = matches!(c.op, Op::IncrementBy | Op::DecrementBy);
                let neg = matches!(c.op, Op::Decrement | Op::DecrementBy);
                let (mut i, mut f) = (1i64, 1f64);
                if by {
                    let a: [u8; 8] =
                        c.args.get(1).and_then(|a| a.get(..8)).ok_or(E_ARGUMENT)?.try_into().unwrap();
                    i = i64::from_be_bytes(a);
                    f = f64::from_be_bytes(a);
                }
                let want = match c.ty {
                    Some(T_FLOAT) => Some(T_FLOAT),
                    Some(_) => Some(T_INT),
                    None => None,
                };
                let cur = match self.keys.get(&k) {
                    Some(v) => v.clone(),
                    None => MVal::default_of(want.unwrap_or(T_INT)),
                };
                if want.map_or(false, |t| t != cur.ty()) {
                    return Err(E_TYPE_DIFFERENT);
                }
                let v = match cur {
                    MVal::Int(x) => MVal::Int(if neg { x.wrapping_sub(i) } else { x.wrapping_add(i) }),
                    MVal::Float(x) => MVal::Float(if neg { x - f } else { x + f }),
                    _ => return Err(E_TYPE_DIFFERENT),
                };
                self.keys.insert(k, v.clone());
                Ok(v)
            }
        }
    }
}

/// The value a `set` of that type stores for its arguments after the key.
pub fn parse_value(ty: u8, args: &[Vec<u8>]) -> Result<MVal, u8> {
    let first = args.first();
    let eight = || -> Result<[u8; 8], u8> {
        Ok(first.and_then(|a| a.get(..8)).ok_or(E_ARGUMENT)?.try_into().unwrap())
    };
    Ok(match ty {
        T_BYTES => MVal::Bytes(first.ok_or(E_ARGUMENT)?.clone()),
        T_BOOL => MVal::Bool(*first.and_then(|a| a.first()).ok_or(E_ARGUMENT)? > 0),
        T_FLOAT => MVal::Float(f64::from_be_bytes(eight()?)),
        T_INT => MVal::Int(i64::from_be_bytes(eight()?)),
        T_STR => MVal::Str(String::from_utf8(first.ok_or(E_ARGUMENT)?.clone()).map_err(|_| E_ARGUMENT)?),
        T_LIST => MVal::List(args.to_vec()),
        // A key without a value at the end is left out.
        T_MAP => MVal::Map(args.chunks_exact(2).map(|c| (c[0].clone(), c[1].clone())).collect()),
        _ => MVal::Set(args.iter().cloned().collect()),
    })
}

/// The arguments after the key of a `set` or `append` of the value.
pub fn args_of(v: &MVal) -> Vec<Vec<u8>> {
    match v {
        MVal::Bytes(b) => vec![b.clone()],
        MVal::Bool(b) => vec![vec![*b as u8]],
        MVal::Float(f) => vec![f.to_be_bytes().to_vec()],
        MVal::Int(i) => vec![i.to_be_bytes().to_vec()],
        MVal::Str(s) => vec![s.clone().into_bytes()],
        MVal::List(l) => l.clone(),
        MVal::Map(m) => m.iter().flat_map(|(a, b)| [a.clone(), b.clone()]).collect(),
        MVal::Set(s) => s.iter().cloned().collect(),
    }
}

pub fn set_cmd(key: &[u8], v: &MVal) -> Cmd {
    let mut args = vec![key.to_vec()];
    args.extend(args_of(v));
    Cmd { op: Op::Set, ty: Some(v.ty()), args }
}

/// Whether an answer is the one the model gives. The keys of a map come in any
/// order, and the statistics are judged by the check of theirs.
pub fn same_answer(c: &Cmd, want: &Result<MVal, u8>, got: &Result<MVal, u8>) -> bool {
    match (want, got) {
        (Err(a), Err(b)) => a == b,
        (Ok(a), Ok(b)) => match (c.op, a, b) {
            (Op::Keys, MVal::List(a), MVal::List(b)) => {
                let (mut a, mut b) = (a.clone(), b.clone());
                a.sort();
                b.sort();
                a == b
            }
            (Op::Stats, MVal::Map(_), MVal::Map(_)) => true,
            _ => a.same(b),
        },
        _ => false,
    }
}

/// Whether the numbers of commands in an answer to the statistics command are
/// those the model gives. What is zero may be left out.
pub fn same_stats(want: &MVal, got: &MVal) -> bool {
    match (want, got) {
        (MVal::Map(a), MVal::Map(b)) => a.iter().all(|(k, v)| b.get(k).map_or(v.iter().all(|x| *x == 0), |w| v == w)),
        _ => false,
    }
}

pub fn show_res(r: &Result<MVal, u8>) -> String {
    match r {
        Ok(v) => format!("ok {}", v.show()),
        Err(e) => format!("error {}", err_name(*e)),
    }
}

pub fn err_name(e: u8) -> &'static str {
    [
        "ArgumentRetrieval", "KeyUnspecified", "KeyTypeDifferent", "KeyTypeUnexpected", "PreconditionFailed",
        "KeyNonexistent", "KeyTypeRequired", "KeyTypeInvalid",
    ]
    .get(e as usize)
    .copied()
    .unwrap_or("(unknown)")
}

/// All sequences of exactly `len` indices below `n`, in order.
pub fn sequences(n: usize, len: usize, mut f: impl FnMut(&[usize])) {
    let mut v = vec![0usize; len];
    if n == 0 && len > 0 {
        return;
    }
    loop {
        f(&v);
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < n {
                break;
            }
            v[i] = 0;
        }
    }
}

/// All ways of cutting `n` bytes into non-empty chunks, as lists of cut
/// positions (2^(n-1) of them).
pub fn chunkings(n: usize, mut f: impl FnMut(&[usize])) {
    assert!(n <= 24);
    if n == 0 {
        f(&[]);
        return;
    }
    for m in 0u32..(1 << (n - 1)) {
        let mut cuts = vec![];
        for i in 1..n {
            if m >> (i - 1) & 1 == 1 {
                cuts.push(i);
            }
        }
        cuts.push(n);
        f(&cuts);
    }
}
