//! An independent codec of the wire format, to judge the one under test by.
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn enc_req(c: &Cmd) -> Vec<u8> {
    let mut v = vec![];
    match c.ty {
        Some(t) => v.extend([c.op as u8 | 0x80, t]),
        None => v.push(c.op as u8),
    }
    if !c.op.is_simple() {
        v.push(c.args.len() as u8);
        for a in &c.args {
            v.extend((a.len() as u32).to_be_bytes());
            v.extend(a);
        }
    }
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum ReqParse {
    /// The command and the number of bytes it is made of.
    Done(Cmd, usize),
    More,
    /// 0: unknown command, 1: unknown type.
    Bad(u8),
}

pub fn parse_req(b: &[u8]) -> ReqParse {
    let Some(&b0) = b.first() else { return ReqParse::More };
    let Some(op) = Op::of(b0 & 0x7f) else { return ReqParse::Bad(0) };
    let mut i = 1;
    let mut ty = None;
    if b0 & 0x80 != 0 {
        let Some(&t) = b.get(1) else { return ReqParse::More };
        if t > 7 {
            return ReqParse::Bad(1);
        }
        ty = Some(t);
        i = 2;
    }
    let mut args = vec![];
    if !op.is_simple() {
        let Some(&n) = b.get(i) else { return ReqParse::More };
        i += 1;
        for _ in 0..n {
            let Some(l) = b.get(i..i + 4) else { return ReqParse::More };
            let l = u32::from_be_bytes(l.try_into().unwrap()) as usize;
            i += 4;
            let Some(a) = b.get(i..i + l) else { return ReqParse::More };
            args.push(a.to_vec());
            i += l;
        }
    }
    ReqParse::Done(Cmd { op, ty, args }, i)
}

/// The kinds of a response.
pub const K_BOOL: u8 = 0;
pub const K_BYTES: u8 = 1;
pub const K_FLOAT: u8 = 2;
pub const K_INT: u8 = 3;
pub const K_LIST: u8 = 4;
pub const K_MAP: u8 = 5;
pub const K_SET: u8 = 6;
pub const K_STR: u8 = 7;
pub const K_PARSE_ERROR: u8 = 8;
pub const K_DISPATCH_ERROR: u8 = 9;

#[derive(Clone, Debug)]
pub enum MResp {
    Val(MVal),
    Parse(u8),
    Dispatch(u8),
}

impl MResp {
    pub fn same(&self, o: &MResp) -> bool {
        match (self, o) {
            (MResp::Val(a), MResp::Val(b)) => a.same_bits(b),
            (MResp::Parse(a), MResp::Parse(b)) => a == b,
            (MResp::Dispatch(a), MResp::Dispatch(b)) => a == b,
            _ => false,
        }
    }
    pub fn show(&self) -> String {
        match self {
            MResp::Val(v) => v.show(),
            MResp::Parse(e) => format!("parse error {}", e),
            MResp::Dispatch(e) => format!("dispatch error {}", err_name(*e)),
        }
    }
}

pub fn enc_resp(r: &MResp) -> Vec<u8> {
    let mut p = vec![];
    fn put32(p: &mut Vec<u8>, b: &[u8]) {
        p.extend((b.len() as u32).to_be_bytes());
        p.extend(b);
    }
    match r {
        MResp::Parse(e) => p.extend([K_PARSE_ERROR, *e]),
        MResp::Dispatch(e) => p.extend([K_DISPATCH_ERROR, *e]),
        MResp::Val(v) => match v {
            MVal::Bool(b) => p.extend([K_BOOL, *b as u8]),
            MVal::Float(f) => {
                p.push(K_FLOAT);
                p.extend(f.to_bits().to_be_bytes());
            }
            MVal::Int(i) => {
                p.push(K_INT);
                p.extend(i.to_be_bytes());
            }
            MVal::Bytes(b) => {
                p.push(K_BYTES);
                put32(&mut p, b);
            }
            MVal::Str(b) => {
                p.push(K_STR);
                put32(&mut p, b.as_bytes());
            }
            MVal::List(l) => {
                p.push(K_LIST);
                p.extend((l.len() as u16).to_be_bytes());
                l.iter().for_each(|x| put32(&mut p, x));
            }
            MVal::Map(m) => {
                p.push(K_MAP);
                p.extend((m.len() as u16).to_be_bytes());
                for (a, b) in m {
                    p.push(a.len() as u8);
                    p.extend(a);
                    put32(&mut p, b);
                }
            }
            MVal::Set(m) => {
                p.push(K_SET);
                p.extend((m.len() as u16).to_be_bytes());
                for a in m {
                    p.extend((a.len() as u16).to_be_bytes());
                    p.extend(a);
                }
            }
        },
    }
    let mut v = (p.len() as u32).to_be_bytes().to_vec();
    v.extend(p);
    v
}

/// Decode one well-formed response; the response and its number of bytes.
pub fn dec_resp(b: &[u8]) -> Result<(MResp, usize), String> {
    let n = u32::from_be_bytes(b.get(..4).ok_or("no length")?.try_into().unwrap()) as usize;
    let p = b.get(4..4 + n).ok_or_else(|| format!("{} bytes claimed, {} there", n, b.len() - 4))?;
    let mut i = 1;
    fn take<'a>(p: &'a [u8], i: &mut usize, n: usize) -> Result<&'a [u8], String> {
        let r = p.get(*i..*i + n).ok_or("an element is longer than the response")?;
        *i += n;
        Ok(r)
    }
    fn u16_(p: &[u8], i: &mut usize) -> Result<usize, String> {
        Ok(u16::from_be_bytes(take(p, i, 2)?.try_into().unwrap()) as usize)
    }
    fn u32_(p: &[u8], i: &mut usize) -> Result<usize, String> {
        Ok(u32::from_be_bytes(take(p, i, 4)?.try_into().unwrap()) as usize)
    }
    let kind = *p.first().ok_or("no kind")?;
    let r = match kind {
        K_BOOL => match take(p, &mut i, 1)?[0] {
            0 => MResp::Val(MVal::Bool(false)),
            1 => MResp::Val(MVal::Bool(true)),
            x => return Err(format!("boolean byte {}", x)),
        },
        K_FLOAT => MResp::Val(MVal::Float(f64::from_bits(u64::from_be_bytes(take(p, &mut i, 8)?.try_into().unwrap())))),
        K_INT => MResp::Val(MVal::Int(i64::from_be_bytes(take(p, &mut i, 8)?.try_into().unwrap()))),
        K_BYTES => {
            let n = u32_(p, &mut i)?;
            MResp::Val(MVal::Bytes(take(p, &mut i, n)?.to_vec()))
        }
        K_STR => {
            let n = u32_(p, &mut i)?;
            MResp::Val(MVal::Str(String::from_utf8(take(p, &mut i, n)?.to_vec()).map_err(|_| "text is not UTF-8")?))
        }
        K_LIST => {
            let n = u16_(p, &mut i)?;
            let mut l = vec![];
            for _ in 0..n {
                let n = u32_(p, &mut i)?;
                l.push(take(p, &mut i, n)?.to_vec());
            }
            MResp::Val(MVal::List(l))
        }
        K_MAP => {
            let n = u16_(p, &mut i)?;
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let n = take(p, &mut i, 1)?[0] as usize;
                let k = take(p, &mut i, n)?.to_vec();
                let n = u32_(p, &mut i)?;
                if m.insert(k, take(p, &mut i, n)?.to_vec()).is_some() {
                    return Err("a map key twice".into());
                }
            }
            MResp::Val(MVal::Map(m))
        }
        K_SET => {
            let n = u16_(p, &mut i)?;
            let mut m = BTreeSet::new();
            for _ in 0..n {
                let n = u16_(p, &mut i)?;
                if !m.insert(take(p, &mut i, n)?.to_vec()) {
                    return Err("a set item twice".into());
                }
            }
            MResp::Val(MVal::Set(m))
        }
        K_PARSE_ERROR => MResp::Parse(take(p, &mut i, 1)?[0]),
        K_DISPATCH_ERROR => MResp::Dispatch(take(p, &mut i, 1)?[0]),
        k => return Err(format!("kind {}", k)),
    };
    if i != p.len() {
        return Err(format!("{} bytes claimed, {} used", p.len(), i));
    }
    Ok((r, 4 + n))
}

/// Decode what the engine wrote for one command.
pub fn dec_value(b: &[u8]) -> Result<MVal, String> {
    match dec_resp(b)? {
        (MResp::Val(v), n) if n == b.len() => Ok(v),
        (MResp::Val(_), n) => Err(format!("{} bytes after the answer", b.len() - n)),
        (r, _) => Err(format!("not a value: {}", r.show())),
    }
}
