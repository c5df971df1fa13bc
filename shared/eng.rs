//! Adapter between the engine under test and the model. Included by the
//! checkers that link the engine (`#[path]`).
use hop_engine::command::request::{Context, RequestBuilder};
use hop_engine::command::{CommandId, Request};
use hop_engine::dashmap::{DashMap, DashSet};
use hop_engine::state::{KeyType, State, Value};
use hop_engine::Hop;
use mc::model::*;
use mc::*;
use std::convert::TryFrom;

pub fn kt(t: u8) -> KeyType {
    match t {
        0 => KeyType::Bytes,
        1 => KeyType::Boolean,
        2 => KeyType::Float,
        3 => KeyType::Integer,
        4 => KeyType::String,
        5 => KeyType::List,
        6 => KeyType::Map,
        _ => KeyType::Set,
    }
}

pub fn kt_num(t: KeyType) -> u8 {
    match t {
        KeyType::Bytes => 0,
        KeyType::Boolean => 1,
        KeyType::Float => 2,
        KeyType::Integer => 3,
        KeyType::String => 4,
        KeyType::List => 5,
        KeyType::Map => 6,
        KeyType::Set => 7,
    }
}

pub fn cid(op: Op) -> CommandId {
    match op {
        Op::Increment => CommandId::Increment,
        Op::Decrement => CommandId::Decrement,
        Op::IncrementBy => CommandId::IncrementBy,
        Op::DecrementBy => CommandId::DecrementBy,
        Op::Set => CommandId::Set,
        Op::Get => CommandId::Get,
        Op::Delete => CommandId::Delete,
        Op::Exists => CommandId::Exists,
        Op::Is => CommandId::Is,
        Op::Rename => CommandId::Rename,
        Op::Type => CommandId::Type,
        Op::Append => CommandId::Append,
        Op::Length => CommandId::Length,
        Op::Keys => CommandId::Keys,
        Op::Echo => CommandId::Echo,
        Op::Stats => CommandId::Stats,
    }
}

pub fn err_num(e: hop_engine::command::DispatchError) -> u8 {
    use hop_engine::command::DispatchError::*;
    match e {
        ArgumentRetrieval => E_ARGUMENT,
        KeyUnspecified => E_KEY_UNSPECIFIED,
        KeyTypeDifferent => E_TYPE_DIFFERENT,
        KeyTypeUnexpected => E_TYPE_UNEXPECTED,
        PreconditionFailed => E_PRECONDITION,
        KeyNonexistent => E_NONEXISTENT,
        KeyTypeRequired => E_TYPE_REQUIRED,
        KeyTypeInvalid => E_TYPE_INVALID,
    }
}

pub fn mval(v: &Value) -> MVal {
    match v {
        Value::Boolean(b) => MVal::Bool(*b),
        Value::Bytes(b) => MVal::Bytes(b.clone()),
        Value::Float(f) => MVal::Float(*f),
        Value::Integer(i) => MVal::Int(*i),
        Value::List(l) => MVal::List(l.clone()),
        Value::Map(m) => MVal::Map(m.iter().map(|r| (r.key().clone(), r.value().clone())).collect()),
        Value::Set(s) => MVal::Set(s.iter().map(|r| r.key().clone()).collect()),
        Value::String(s) => MVal::Str(s.clone()),
    }
}

pub fn dmap(m: &std::collections::BTreeMap<Vec<u8>, Vec<u8>>) -> DashMap<Vec<u8>, Vec<u8>> {
    let d = DashMap::new();
    for (k, v) in m {
        d.insert(k.clone(), v.clone());
    }
    d
}

pub fn dset(m: &std::collections::BTreeSet<Vec<u8>>) -> DashSet<Vec<u8>> {
    let d = DashSet::new();
    for k in m {
        d.insert(k.clone());
    }
    d
}

pub fn value(v: &MVal) -> Value {
    match v {
        MVal::Bool(b) => Value::Boolean(*b),
        MVal::Bytes(b) => Value::Bytes(b.clone()),
        MVal::Float(f) => Value::Float(*f),
        MVal::Int(i) => Value::Integer(*i),
        MVal::List(l) => Value::List(l.clone()),
        MVal::Map(m) => Value::Map(dmap(m)),
        MVal::Set(s) => Value::Set(dset(s)),
        MVal::Str(s) => Value::String(s.clone()),
    }
}

/// The command as a request: built where the builder can, parsed from its wire
/// bytes where it can't (empty arguments).
pub fn with_req<R>(c: &Cmd, f: impl FnOnce(&Request) -> R) -> Result<R, String> {
    if c.args.iter().all(|a| !a.is_empty()) {
        let mut b = RequestBuilder::new_with_key_type(cid(c.op), c.ty.map(kt));
        for a in &c.args {
            b.bytes(a.as_slice()).map_err(|e| format!("building `{}` failed: {:?}", c.show(), e))?;
        }
        Ok(f(&b.into_request()))
    } else {
        let bytes = mc::wire::enc_req(c);
        let mut ctx = Context::new();
        match ctx.feed(&bytes) {
            Ok(Some(r)) => Ok(f(&r)),
            o => Err(format!("parsing `{}` gave {:?}", c.show(), o)),
        }
    }
}

/// Dispatch, with bytes already in the response buffer that have to stay.
pub fn dispatch(hop: &Hop, c: &Cmd, before: &[u8]) -> Result<Result<MVal, u8>, String> {
    let mut resp = before.to_vec();
    let r = with_req(c, |r| hop.dispatch(r, &mut resp))?;
    if !resp.starts_with(before) {
        return Err(format!("`{}` changed the bytes already in the response buffer", c.show()));
    }
    let new = &resp[before.len()..];
    match r {
        Ok(()) => match mc::wire::dec_value(new) {
            Ok(v) => Ok(Ok(v)),
            Err(e) => Err(format!("the answer of `{}` is malformed: {}", c.show(), e)),
        },
        Err(e) => {
            if !new.is_empty() {
                return Err(format!("`{}` failed but wrote {} bytes of an answer", c.show(), new.len()));
            }
            Ok(Err(err_num(e)))
        }
    }
}

/// What the store holds under the given keys.
pub fn dump(state: &State, universe: &[Vec<u8>]) -> Result<MState, String> {
    let mut m = MState::default();
    for k in universe {
        if k.is_empty() {
            if state.contains_key(k) {
                return Err("the empty key exists".into());
            }
            continue;
        }
        if k.starts_with(b"__hop__:") {
            continue;
        }
        let there = state.contains_key(k);
        match state.key_ref(k) {
            Some(r) => {
                if !there {
                    return Err(format!("{} is there but contains_key denies it", show(k)));
                }
                let v = mval(r.value());
                if kt_num(r.value().kind()) != v.ty() {
                    return Err(format!("kind() of {} is wrong", show(k)));
                }
                if r.key() != k {
                    return Err(format!("looking up {} gives {}", show(k), show(r.key())));
                }
                m.keys.insert(k.clone(), v);
            }
            None => {
                if there {
                    return Err(format!("{} is not there but contains_key claims it", show(k)));
                }
            }
        }
    }
    Ok(m)
}

/// Run a command on both, and compare the answers and all of the state.
pub fn step(hop: &Hop, model: &mut MState, c: &Cmd, universe: &[Vec<u8>], before: &[u8]) -> Result<(), String> {
    let old = model.clone();
    let want = model.apply(c);
    let got = dispatch(hop, c, before)?;
    if !same_answer(c, &want, &got) {
        return Err(format!(
            "in {} `{}` answered {}, expected {}",
            old.show(), c.show(), show_res(&got), show_res(&want)
        ));
    }
    let d = dump(hop.state(), universe)?;
    if !d.same_keys(model) {
        return Err(format!(
            "in {} `{}` ({}) left {}, expected {}",
            old.show(), c.show(), show_res(&got), d.show(), model.show()
        ));
    }
    Ok(())
}

/// Like `step` without looking at the state: for getting to a state.
pub fn go(hop: &Hop, model: &mut MState, c: &Cmd) -> Result<(), String> {
    let want = model.apply(c);
    let got = dispatch(hop, c, b"")?;
    if !same_answer(c, &want, &got) {
        return Err(format!("on the way `{}` answered {}, expected {}", c.show(), show_res(&got), show_res(&want)));
    }
    Ok(())
}

/// All arguments occurring in the commands, as keys to look for.
pub fn universe(cmds: &[Cmd]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = cmds.iter().flat_map(|c| c.args.iter().cloned()).collect();
    v.push(vec![]);
    v.sort();
    v.dedup();
    v
}

/// The states reachable by sequences of up to `depth` of the commands, each
/// with the shortest such sequence: breadth first over the model, whose states
/// are told apart by everything that the keys hold.
pub fn reachable(cmds: &[Cmd], depth: usize) -> Vec<Vec<Cmd>> {
    let mut seen = std::collections::HashSet::new();
    seen.insert(MState::default().canon());
    let mut all = vec![vec![]];
    let mut frontier: Vec<(MState, Vec<Cmd>)> = vec![(MState::default(), vec![])];
    for _ in 0..depth {
        let mut next = vec![];
        for (s, path) in &frontier {
            for c in cmds {
                let mut t = s.clone();
                let _ = t.apply(c);
                if seen.insert(t.canon()) {
                    let mut p = path.clone();
                    p.push(c.clone());
                    all.push(p.clone());
                    next.push((t, p));
                }
            }
        }
        frontier = next;
    }
    all
}

pub fn cmdid_try(n: u8) -> Option<CommandId> {
    CommandId::try_from(n).ok()
}
