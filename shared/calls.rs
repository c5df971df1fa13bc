//! The client API as data: every call, what it has to give, and how to make it
//! on any backend. Included by the checkers that link the client (`#[path]`).
use crate::eng::*;
use hop::backend::Backend;
use hop::request::CommandConfigurationError;
use hop::Client;
use hop_engine::command::request::{ParseError as ReqErr, RequestBuilderError};
use hop_engine::state::Value;
use mc::*;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum CErr {
    /// The engine's refusal.
    Run(u8),
    /// The request can't be built.
    Build(u8),
    BadRequest(u8),
    TypeInvalid,
    TypeUnsupported(u8),
    NoKeys,
    TooManyKeys,
    /// Connection trouble.
    Conn(&'static str),
}

/// Turn a backend's error into the common form.
pub trait Norm {
    fn norm(self) -> CErr;
}

pub fn build_num(e: &RequestBuilderError) -> u8 {
    match e {
        RequestBuilderError::ArgumentEmpty => 0,
        RequestBuilderError::TooManyArguments => 1,
        RequestBuilderError::ValueEmpty => 2,
    }
}

pub fn perr_num(e: ReqErr) -> u8 {
    match e {
        ReqErr::CommandIdInvalid => 0,
        ReqErr::KeyTypeInvalid => 1,
    }
}

impl Norm for hop::backend::memory::Error {
    fn norm(self) -> CErr {
        use hop::backend::memory::Error::*;
        match self {
            BadRequest { source } => CErr::BadRequest(perr_num(source)),
            BuildingRequest { source } => CErr::Build(build_num(&source)),
            Dispatching { source } | RunningCommand { source } => CErr::Run(err_num(source)),
            KeyTypeInvalid { .. } => CErr::TypeInvalid,
            KeyTypeUnsupported { key_type, .. } => CErr::TypeUnsupported(kt_num(key_type)),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Call {
    /// Append the items as one of the three types.
    Append(Vec<u8>, MVal),
    /// Increment (or decrement if set): type asked for and amount, if any.
    Inc(bool, Vec<u8>, Option<u8>, Option<MVal>),
    Delete(Vec<u8>),
    Echo(Vec<u8>),
    /// One key through `key`, or any through `keys`.
    ExistsOne(Vec<u8>),
    Exists(Vec<Vec<u8>>),
    IsOne(u8, Vec<u8>),
    Is(u8, Vec<Vec<u8>>),
    /// The type asked for, if any; whether through the method's other name.
    Get(Vec<u8>, Option<u8>, bool),
    Type(Vec<u8>),
    Keys(Vec<u8>),
    Length(Vec<u8>, Option<u8>, bool),
    Rename(Vec<u8>, Vec<u8>),
    /// The typed setter, and its other name.
    Set(Vec<u8>, MVal, bool),
    /// A list given to `set`, which may repeat items.
    SetItems(Vec<u8>, Vec<Vec<u8>>),
    SetValue(Vec<u8>, MVal),
    Stats,
    // The backend's own methods take more types than the client asks for.
    BAppend(Vec<u8>, MVal),
    BIncBy(bool, Vec<u8>, MVal),
    BInc(bool, Vec<u8>, Option<u8>),
    BLength(Vec<u8>, Option<u8>),
    BGet(Vec<u8>, Option<u8>),
}

impl Call {
    pub fn show(&self) -> String {
        let k = |k: &[u8]| show(k);
        let t = |t: &Option<u8>| t.map_or("".to_string(), |t| format!(".{}()", ty_name(t)));
        let inc = |neg: &bool| if *neg { "decrement" } else { "increment" };
        match self {
            Call::Append(a, v) => format!("append({}, {})", k(a), v.show()),
            Call::Inc(n, a, ty, by) => {
                format!("{}({}){}{}", inc(n), k(a), t(ty), by.as_ref().map_or("".into(), |b| format!(".by({})", b.show())))
            }
            Call::Delete(a) => format!("delete({})", k(a)),
            Call::Echo(a) => format!("echo({})", k(a)),
            Call::ExistsOne(a) => format!("exists().key({})", k(a)),
            Call::Exists(a) => format!("exists().keys({})", MVal::List(a.clone()).show()),
            Call::IsOne(t, a) => format!("is({}).key({})", ty_name(*t), k(a)),
            Call::Is(t, a) => format!("is({}).keys({})", ty_name(*t), MVal::List(a.clone()).show()),
            Call::Get(a, ty, al) => format!("get({}){}{}", k(a), t(ty), if *al { " (other name)" } else { "" }),
            Call::Type(a) => format!("key_type({})", k(a)),
            Call::Keys(a) => format!("keys({})", k(a)),
            Call::Length(a, ty, _) => format!("length({}){}", k(a), t(ty)),
            Call::Rename(a, b) => format!("rename({}, {})", k(a), k(b)),
            Call::Set(a, v, al) => format!("set({}, {}){}", k(a), v.show(), if *al { " (other name)" } else { "" }),
            Call::SetItems(a, v) => format!("set({}).set({})", k(a), MVal::List(v.clone()).show()),
            Call::SetValue(a, v) => format!("set({}).value({})", k(a), v.show()),
            Call::Stats => "stats()".into(),
            Call::BAppend(a, v) => format!("backend.append({}, {})", k(a), v.show()),
            Call::BIncBy(n, a, v) => format!("backend.{}_by({}, {})", inc(n), k(a), v.show()),
            Call::BInc(n, a, ty) => format!("backend.{}({}{})", inc(n), k(a), t(ty)),
            Call::BLength(a, ty) => format!("backend.length({}{})", k(a), t(ty)),
            Call::BGet(a, ty) => format!("backend.get({}{})", k(a), t(ty)),
        }
    }

    pub fn backend_only(&self) -> bool {
        matches!(self, Call::BAppend(..) | Call::BIncBy(..) | Call::BInc(..) | Call::BLength(..) | Call::BGet(..))
    }

    /// The command the call stands for, or why it is refused up front.
    pub fn cmd(&self) -> Result<Cmd, CErr> {
        let c = |op, ty, args: Vec<Vec<u8>>| Ok(Cmd { op, ty, args });
        let inc = |neg: &bool, by: bool| match (neg, by) {
            (false, false) => Op::Increment,
            (false, true) => Op::IncrementBy,
            (true, false) => Op::Decrement,
            (true, true) => Op::DecrementBy,
        };
        let with = |k: &Vec<u8>, v: Vec<Vec<u8>>| {
            let mut a = vec![k.clone()];
            a.extend(v);
            a
        };
        let many = |k: &Vec<Vec<u8>>| match k.len() {
            0 => Err(CErr::NoKeys),
            1..=255 => Ok(k.clone()),
            _ => Err(CErr::TooManyKeys),
        };
        let cmd = match self {
            Call::Append(k, v) => c(Op::Append, Some(v.ty()), with(k, args_of(v)))?,
            Call::BAppend(k, v) => {
                if k.is_empty() {
                    return Err(CErr::Build(0));
                }
                if !matches!(v.ty(), T_BYTES | T_LIST | T_STR) {
                    return Err(CErr::TypeUnsupported(v.ty()));
                }
                c(Op::Append, Some(v.ty()), with(k, args_of(v)))?
            }
            Call::Inc(n, k, None, _) => c(inc(n, false), None, with(k, vec![]))?,
            Call::Inc(n, k, Some(t), by) => {
                let one = if *t == T_FLOAT { MVal::Float(1.0) } else { MVal::Int(1) };
                c(inc(n, true), Some(*t), with(k, args_of(by.as_ref().unwrap_or(&one))))?
            }
            Call::BIncBy(n, k, v) => {
                if k.is_empty() {
                    return Err(CErr::Build(0));
                }
                if !matches!(v.ty(), T_INT | T_FLOAT) {
                    return Err(CErr::TypeUnsupported(v.ty()));
                }
                c(inc(n, true), Some(v.ty()), with(k, args_of(v)))?
            }
            Call::BInc(n, k, t) => c(inc(n, false), *t, with(k, vec![]))?,
            Call::Delete(k) => c(Op::Delete, None, with(k, vec![]))?,
            Call::Echo(k) => c(Op::Echo, None, with(k, vec![]))?,
            Call::ExistsOne(k) => c(Op::Exists, None, with(k, vec![]))?,
            Call::Exists(k) => c(Op::Exists, None, many(k)?)?,
            Call::IsOne(t, k) => c(Op::Is, Some(*t), with(k, vec![]))?,
            Call::Is(t, k) => c(Op::Is, Some(*t), many(k)?)?,
            Call::Get(k, t, _) | Call::BGet(k, t) => c(Op::Get, *t, with(k, vec![]))?,
            Call::Type(k) => c(Op::Type, None, with(k, vec![]))?,
            Call::Keys(k) => c(Op::Keys, None, with(k, vec![]))?,
            Call::Length(k, t, _) | Call::BLength(k, t) => c(Op::Length, *t, with(k, vec![]))?,
            Call::Rename(a, b) => c(Op::Rename, None, vec![a.clone(), b.clone()])?,
            Call::Set(k, v, _) | Call::SetValue(k, v) => {
                if v.ty() == T_MAP || v.ty() == T_SET {
                    // Empty ones are refused; keys and items may be empty.
                    let a = args_of(v);
                    if k.is_empty() || a.is_empty() {
                        return Err(CErr::Build(0));
                    }
                    if a.len() > 254 {
                        return Err(CErr::Build(1));
                    }
                    return c(Op::Set, Some(v.ty()), with(k, a));
                }
                c(Op::Set, Some(v.ty()), with(k, args_of(v)))?
            }
            Call::SetItems(k, v) => {
                let v = MVal::Set(v.iter().cloned().collect());
                return Call::Set(k.clone(), v, false).cmd();
            }
            Call::Stats => c(Op::Stats, None, vec![])?,
        };
        if cmd.args.iter().any(|a| a.is_empty()) {
            return Err(CErr::Build(0));
        }
        if cmd.args.len() > 255 {
            return Err(CErr::Build(1));
        }
        Ok(cmd)
    }

    /// What the call has to give in the state, which is changed accordingly.
    pub fn expect(&self, m: &mut MState) -> Result<MVal, CErr> {
        let cmd = self.cmd()?;
        if cmd.op == Op::Stats {
            let v = vec![m.ok, m.err, m.started, m.ended];
            m.ok += 1;
            return Ok(MVal::List(v.iter().map(|x| x.to_be_bytes().to_vec()).collect()));
        }
        m.apply(&cmd).map_err(CErr::Run)
    }

    /// Whether the outcome is the one expected. Which of the reasons a request
    /// can't be built is named is the business of the builder's own check.
    pub fn agrees(&self, want: &Result<MVal, CErr>, got: &Result<MVal, CErr>) -> bool {
        // With a key and a type that are both refused, either is.
        let why = |e: &CErr| match (self, e) {
            (Call::BIncBy(_, k, v) | Call::BAppend(k, v), CErr::TypeUnsupported(t)) if k.is_empty() && v.ty() == *t => CErr::Build(0),
            _ => e.clone(),
        };
        match (want, got) {
            (Err(a), Err(b)) if matches!((why(a), why(b)), (CErr::Build(_), CErr::Build(_))) => true,
            (Err(a), Err(b)) => a == b,
            (Ok(a), Ok(b)) => match (self, a, b) {
                (Call::Keys(_), MVal::List(a), MVal::List(b)) => {
                    let (mut a, mut b) = (a.clone(), b.clone());
                    a.sort();
                    b.sort();
                    a == b
                }
                _ => a.same(b),
            },
            _ => false,
        }
    }
}

pub fn show_out(r: &Result<MVal, CErr>) -> String {
    match r {
        Ok(v) => v.show(),
        Err(CErr::Run(e)) => format!("the error {}", err_name(*e)),
        Err(e) => format!("the error {:?}", e),
    }
}

/// Make a call on a client.
pub async fn on_client<B: Backend + Send + Sync + 'static>(c: &Client<B>, call: &Call) -> Result<MVal, CErr>
where
    B::Error: Norm,
{
    let l = MVal::List;
    let set_of = |v: Vec<Vec<u8>>| -> MVal {
        let n = v.len();
        let s: std::collections::BTreeSet<Vec<u8>> = v.into_iter().collect();
        // A set naming an item twice isn't one: let it differ from any.
        if s.len() != n { MVal::Str("(items repeated)".into()) } else { MVal::Set(s) }
    };
    macro_rules! go {
        ($f:expr, $w:expr) => {
            match $f.await {
                Ok(v) => Ok($w(v)),
                Err(e) => Err(e.norm()),
            }
        };
    }
    macro_rules! conf {
        ($r:expr) => {
            match $r {
                Ok(f) => f,
                Err(CommandConfigurationError::NoKeys) => return Err(CErr::NoKeys),
                Err(CommandConfigurationError::TooManyKeys) => return Err(CErr::TooManyKeys),
            }
        };
    }
    let val = |v: Value| mval(&v);
    match call.clone() {
        Call::Append(k, MVal::Bytes(v)) => go!(c.append(k).bytes(v), MVal::Bytes),
        Call::Append(k, MVal::List(v)) => go!(c.append(k).list(v), l),
        Call::Append(k, MVal::Str(v)) => {
            if v.len() % 2 == 0 {
                go!(c.append(k).str(v), MVal::Str)
            } else {
                go!(c.append(k).string(v), MVal::Str)
            }
        }
        Call::Append(..) => unreachable!(),
        Call::Inc(false, k, None, _) => go!(c.increment(k), val),
        Call::Inc(true, k, None, _) => go!(c.decrement(k), val),
        Call::Inc(false, k, Some(T_INT), None) => go!(c.increment(k).int(), MVal::Int),
        Call::Inc(false, k, Some(T_INT), Some(MVal::Int(n))) => go!(c.increment(k).int().by(n), MVal::Int),
        Call::Inc(false, k, Some(_), None) => go!(c.increment(k).float(), MVal::Float),
        Call::Inc(false, k, Some(_), Some(MVal::Float(n))) => go!(c.increment(k).float().by(n), MVal::Float),
        Call::Inc(true, k, Some(T_INT), None) => go!(c.decrement(k).int(), MVal::Int),
        Call::Inc(true, k, Some(T_INT), Some(MVal::Int(n))) => go!(c.decrement(k).int().by(n), MVal::Int),
        Call::Inc(true, k, Some(_), None) => go!(c.decrement(k).float(), MVal::Float),
        Call::Inc(true, k, Some(_), Some(MVal::Float(n))) => go!(c.decrement(k).float().by(n), MVal::Float),
        Call::Inc(..) => unreachable!(),
        Call::Delete(k) => go!(c.delete(k), MVal::Bytes),
        Call::Echo(k) => go!(c.echo(k), l),
        Call::ExistsOne(k) => go!(c.exists().key(k), MVal::Bool),
        Call::Exists(k) => go!(conf!(c.exists().keys(k)), MVal::Bool),
        Call::IsOne(t, k) => go!(c.is(kt(t)).key(k), MVal::Bool),
        Call::Is(t, k) => go!(conf!(c.is(kt(t)).keys(k)), MVal::Bool),
        Call::Get(k, None, _) => go!(c.get(k), val),
        Call::Get(k, Some(t), other) => match (t, other) {
            (T_BOOL, false) => go!(c.get(k).bool(), MVal::Bool),
            (T_BOOL, true) => go!(c.get(k).boolean(), MVal::Bool),
            (T_BYTES, _) => go!(c.get(k).bytes(), MVal::Bytes),
            (T_FLOAT, _) => go!(c.get(k).float(), MVal::Float),
            (T_INT, false) => go!(c.get(k).int(), MVal::Int),
            (T_INT, true) => go!(c.get(k).integer(), MVal::Int),
            (T_LIST, _) => go!(c.get(k).list(), l),
            (T_MAP, _) => go!(c.get(k).map(), |m| mval(&Value::Map(m))),
            (T_SET, _) => go!(c.get(k).set(), |m| mval(&Value::Set(m))),
            (_, false) => go!(c.get(k).str(), MVal::Str),
            (_, true) => go!(c.get(k).string(), MVal::Str),
        },
        Call::Type(k) => go!(c.key_type(k), |t| MVal::Int(kt_num(t) as i64)),
        Call::Keys(k) => go!(c.keys(k), l),
        Call::Length(k, t, other) => {
            let f = c.length(k);
            let f = match (t, other) {
                (None, _) => f,
                (Some(T_BYTES), _) => f.bytes(),
                (Some(T_LIST), _) => f.list(),
                (Some(T_MAP), _) => f.map(),
                (Some(T_SET), _) => f.set(),
                (Some(_), false) => f.str(),
                (Some(_), true) => f.string(),
            };
            go!(f, MVal::Int)
        }
        Call::Rename(a, b) => go!(c.rename(a, b), MVal::Bytes),
        Call::Set(k, v, other) => match (v, other) {
            (MVal::Bool(v), false) => go!(c.set(k).bool(v), MVal::Bool),
            (MVal::Bool(v), true) => go!(c.set(k).boolean(v), MVal::Bool),
            (MVal::Bytes(v), _) => go!(c.set(k).bytes(v), MVal::Bytes),
            (MVal::Float(v), _) => go!(c.set(k).float(v), MVal::Float),
            (MVal::Int(v), false) => go!(c.set(k).int(v), MVal::Int),
            (MVal::Int(v), true) => go!(c.set(k).integer(v), MVal::Int),
            (MVal::List(v), _) => go!(c.set(k).list(v), l),
            (MVal::Map(v), _) => go!(c.set(k).map(v), |m| mval(&Value::Map(m))),
            (MVal::Set(v), _) => go!(c.set(k).set(v.into_iter().collect::<Vec<_>>()), set_of),
            (MVal::Str(v), false) => go!(c.set(k).str(v), MVal::Str),
            (MVal::Str(v), true) => go!(c.set(k).string(v), MVal::Str),
        },
        Call::SetItems(k, v) => go!(c.set(k).set(v), set_of),
        Call::SetValue(k, v) => go!(c.set(k).value(value(&v)), val),
        Call::Stats => go!(c.stats(), stats),
        b => unreachable!("{}", b.show()),
    }
}

/// Make a call on a backend itself.
pub async fn on_backend<B: Backend + Send + Sync + 'static>(b: &Arc<B>, call: &Call) -> Result<MVal, CErr>
where
    B::Error: Norm,
{
    let (val, l) = (|v: Value| mval(&v), MVal::List);
    let t = |t: Option<u8>| t.map(kt);
    macro_rules! go {
        ($f:expr, $w:expr) => {
            match $f.await {
                Ok(v) => Ok($w(v)),
                Err(e) => Err(e.norm()),
            }
        };
    }
    match call.clone() {
        Call::BAppend(k, v) | Call::Append(k, v) => go!(b.append(&k, value(&v)), val),
        Call::BIncBy(false, k, v) => go!(b.increment_by(&k, value(&v)), val),
        Call::BIncBy(true, k, v) => go!(b.decrement_by(&k, value(&v)), val),
        Call::BInc(false, k, ty) => go!(b.increment(&k, t(ty)), val),
        Call::BInc(true, k, ty) => go!(b.decrement(&k, t(ty)), val),
        Call::BLength(k, ty) | Call::Length(k, ty, _) => go!(b.length(&k, t(ty)), MVal::Int),
        Call::BGet(k, ty) | Call::Get(k, ty, _) => go!(b.get(&k, t(ty)), val),
        Call::Inc(neg, k, None, _) => {
            if neg {
                go!(b.decrement(&k, None), val)
            } else {
                go!(b.increment(&k, None), val)
            }
        }
        Call::Inc(neg, k, Some(ty), by) => {
            let v = by.unwrap_or(if ty == T_FLOAT { MVal::Float(1.0) } else { MVal::Int(1) });
            if neg {
                go!(b.decrement_by(&k, value(&v)), val)
            } else {
                go!(b.increment_by(&k, value(&v)), val)
            }
        }
        Call::Delete(k) => go!(b.delete(&k), MVal::Bytes),
        Call::Echo(k) => go!(b.echo(&k), l),
        Call::ExistsOne(k) => go!(b.exists(&[k]), MVal::Bool),
        Call::IsOne(ty, k) => go!(b.is(kt(ty), &[k]), MVal::Bool),
        Call::Type(k) => go!(b.key_type(&k), |t| MVal::Int(kt_num(t) as i64)),
        Call::Keys(k) => go!(b.keys(&k), l),
        Call::Rename(x, y) => go!(b.rename(&x, &y), MVal::Bytes),
        Call::Set(k, v, _) | Call::SetValue(k, v) => go!(b.set(&k, value(&v)), val),
        Call::Exists(k) => go!(b.exists(&k), MVal::Bool),
        Call::Is(ty, k) => go!(b.is(kt(ty), &k), MVal::Bool),
        Call::SetItems(k, v) => go!(b.set(&k, value(&MVal::Set(v.into_iter().collect()))), val),
        Call::Stats => go!(b.stats(), stats),
    }
}

fn stats(s: hop::model::StatsData) -> MVal {
    let n = [s.commands_successful(), s.commands_errored(), s.sessions_started(), s.sessions_ended()];
    MVal::List(n.iter().map(|x| x.to_be_bytes().to_vec()).collect())
}

/// Calls of every kind and type on small keys and values.
pub fn all_calls(keys: &[&[u8]], vals: &[MVal]) -> Vec<Call> {
    let mut v = vec![Call::Stats, Call::Exists(vec![]), Call::Is(T_INT, vec![])];
    let types = || std::iter::once(None).chain(TYPES.iter().map(|t| Some(*t)));
    for k in keys {
        let k = k.to_vec();
        for x in vals {
            if matches!(x.ty(), T_BYTES | T_LIST | T_STR) {
                v.push(Call::Append(k.clone(), x.clone()));
            }
            v.push(Call::BAppend(k.clone(), x.clone()));
            v.push(Call::Set(k.clone(), x.clone(), false));
            v.push(Call::Set(k.clone(), x.clone(), true));
            v.push(Call::SetValue(k.clone(), x.clone()));
            for n in [false, true] {
                v.push(Call::BIncBy(n, k.clone(), x.clone()));
                if let MVal::Int(_) | MVal::Float(_) = x {
                    v.push(Call::Inc(n, k.clone(), Some(x.ty()), Some(x.clone())));
                }
            }
        }
        v.push(Call::SetItems(k.clone(), vec![b"p".to_vec(), b"q".to_vec(), b"p".to_vec()]));
        for n in [false, true] {
            v.push(Call::Inc(n, k.clone(), None, None));
            v.push(Call::Inc(n, k.clone(), Some(T_INT), None));
            v.push(Call::Inc(n, k.clone(), Some(T_FLOAT), None));
        }
        v.push(Call::Delete(k.clone()));
        v.push(Call::Echo(k.clone()));
        v.push(Call::ExistsOne(k.clone()));
        v.push(Call::Type(k.clone()));
        v.push(Call::Keys(k.clone()));
        for t in types() {
            v.push(Call::Get(k.clone(), t, false));
            v.push(Call::Get(k.clone(), t, true));
            v.push(Call::BGet(k.clone(), t));
            v.push(Call::BLength(k.clone(), t));
            v.push(Call::BInc(false, k.clone(), t));
            v.push(Call::BInc(true, k.clone(), t));
            if !matches!(t, Some(T_BOOL) | Some(T_INT) | Some(T_FLOAT)) {
                v.push(Call::Length(k.clone(), t, false));
                v.push(Call::Length(k.clone(), t, true));
            }
            if let Some(t) = t {
                v.push(Call::IsOne(t, k.clone()));
            }
        }
        for k2 in keys {
            v.push(Call::Rename(k.clone(), k2.to_vec()));
            v.push(Call::Exists(vec![k.clone(), k2.to_vec()]));
            for t in TYPES {
                v.push(Call::Is(t, vec![k.clone(), k2.to_vec()]));
            }
        }
    }
    v
}

/// Poll a future that has nothing to wait for.
pub fn at_once<F: std::future::Future>(f: F) -> Result<F::Output, String> {
    use std::task::*;
    fn raw() -> RawWaker {
        fn no(_: *const ()) {}
        fn clone(_: *const ()) -> RawWaker {
            raw()
        }
        static V: RawWakerVTable = RawWakerVTable::new(clone, no, no, no);
        RawWaker::new(std::ptr::null(), &V)
    }
    let w = unsafe { Waker::from_raw(raw()) };
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    for _ in 0..4 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return Ok(r);
        }
    }
    Err("the call never completes: it waits for nothing".into())
}
