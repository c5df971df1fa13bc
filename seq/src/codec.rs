//! C08-C14: requests and responses against the independent codec.
use crate::eng::*;
use crate::engine::{be, fbe, ls, values};
use hop_engine::command::request::{Context as ReqContext, ParseError as ReqParseError, RequestBuilder, RequestBuilderError};
use hop_engine::command::response::{self, Context as RespContext, Instruction, ParseError as RespParseError, Response};
use hop_engine::command::{DispatchError, Request};
use hop_engine::state::Value;
use hop_engine::Hop;
use mc::wire::*;
use mc::*;
use std::convert::TryFrom;

fn all_types() -> impl Iterator<Item = Option<u8>> {
    std::iter::once(None).chain(TYPES.iter().map(|t| Some(*t)))
}

fn blob(n: usize, seed: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 31 + seed * 17 + (i >> 8)) as u8).collect()
}

fn build(c: &Cmd) -> Result<RequestBuilder, String> {
    let mut b = match c.ty {
        Some(t) => RequestBuilder::new_with_key_type(cid(c.op), kt(t)),
        None => RequestBuilder::new(cid(c.op)),
    };
    for a in &c.args {
        b.bytes(a.as_slice()).map_err(|e| format!("building `{}` failed: {:?}", c.show(), e))?;
    }
    Ok(b)
}

/// Everything a request says about itself.
fn says(r: &Request, c: &Cmd, bytes: &[u8], who: &str) -> Result<(), String> {
    let name = || format!("the {} request `{}`", who, c.show());
    if r.command_id() != cid(c.op) {
        return Err(format!("{} has command {:?}", name(), r.command_id()));
    }
    if r.key_type().map(kt_num) != c.ty {
        return Err(format!("{} has type {:?}", name(), r.key_type()));
    }
    if r.arg_count() != c.args.len() {
        return Err(format!("{} has {} arguments", name(), r.arg_count()));
    }
    for (i, a) in c.args.iter().enumerate() {
        if r.arg(i) != Some(a.as_slice()) {
            return Err(format!("{} has argument {} = {:?}, not {}", name(), i, r.arg(i).map(show), show(a)));
        }
    }
    let n = c.args.len();
    for i in [n, n + 1, 255, 256, 257] {
        if i >= n && r.arg(i).is_some() {
            return Err(format!("{} has an argument {}", name(), i));
        }
    }
    let want_key = match c.op {
        Op::Echo | Op::Stats => None,
        _ => c.args.first().filter(|k| !k.is_empty()).map(|k| k.as_slice()),
    };
    if r.key() != want_key {
        return Err(format!("{} has key {:?}", name(), r.key().map(show)));
    }
    match r.args(..) {
        None => {
            if n != 0 {
                return Err(format!("{} has no args(..)", name()));
            }
        }
        Some(it) => {
            if it.len() != n {
                return Err(format!("{}: args(..).len() is {}", name(), it.len()));
            }
            let v: Vec<Vec<u8>> = it.map(|x| x.to_vec()).collect();
            if v != c.args {
                return Err(format!("{}: args(..) differs", name()));
            }
        }
    }
    if n > 1 {
        let mut it = r.args(1..).ok_or("no args(1..)")?;
        for (i, a) in c.args[1..].iter().enumerate() {
            if it.len() != n - 1 - i {
                return Err(format!("{}: {} of args(1..) left at {}", name(), it.len(), i));
            }
            if it.next() != Some(a.as_slice()) {
                return Err(format!("{}: args(1..) differs at {}", name(), i));
            }
        }
        if it.next().is_some() || it.next().is_some() {
            return Err(format!("{}: args(1..) doesn't end", name()));
        }
        let last: Vec<Vec<u8>> = r.args(n - 1..n).ok_or("no args(n-1..n)")?.map(|x| x.to_vec()).collect();
        if last != c.args[n - 1..] {
            return Err(format!("{}: args(n-1..n) differs", name()));
        }
        let incl: Vec<Vec<u8>> = r.args(0..=1).ok_or("no args(0..=1)")?.map(|x| x.to_vec()).collect();
        if incl != c.args[..2] {
            return Err(format!("{}: args(0..=1) differs", name()));
        }
    }
    // Typed views of each argument.
    for (i, a) in c.args.iter().enumerate().take(6) {
        let int: Option<i64> = r.typed_arg(i);
        let want = a.get(..8).map(|x| i64::from_be_bytes(x.try_into().unwrap()));
        if int != want {
            return Err(format!("{}: argument {} as an integer is {:?}", name(), i, int));
        }
        let f: Option<f64> = r.typed_arg(i);
        if f.map(|f| f.to_bits()) != want.map(|x| x as u64) {
            return Err(format!("{}: argument {} as a float is {:?}", name(), i, f));
        }
        let b: Option<bool> = r.typed_arg(i);
        if b != a.first().map(|x| *x > 0) {
            return Err(format!("{}: argument {} as a boolean is {:?}", name(), i, b));
        }
        let s: Option<&str> = r.typed_arg(i);
        if s != std::str::from_utf8(a).ok() {
            return Err(format!("{}: argument {} as text differs", name(), i));
        }
    }
    if r.as_bytes() != bytes {
        return Err(format!("{} has bytes {}, not {}", name(), show(r.as_bytes()), show(bytes)));
    }
    Ok(())
}

fn roundtrip(c: &Cmd, st: &mut Stats) -> Res {
    st.transitions += 1;
    let want = enc_req(c);
    st.state(h64(&want));
    let b = build(c)?;
    ensure!(*b.command_id_ref() == cid(c.op), "the builder's command of `{}` is {:?}", c.show(), b.command_id_ref());
    ensure!(b.key_type_ref().copied().map(kt_num) == c.ty, "the builder's type of `{}` is {:?}", c.show(), b.key_type_ref());
    let built = b.into_request();
    says(&built, c, &want, "built")?;
    let mut ctx = ReqContext::new();
    {
        let parsed = match ctx.feed(&want) {
            Ok(Some(r)) => r,
            o => return Err(format!("parsing the bytes of `{}` gives {:?}", c.show(), o.map(|r| r.is_some())).into()),
        };
        says(&parsed, c, &want, "parsed")?;
        ensure!(built == parsed, "the built and the parsed request `{}` differ", c.show());
        ensure!(built.clone() == parsed.clone(), "clones of the request `{}` differ", c.show());
    }
    ensure!(built.clone().into_bytes().as_ref() == &want[..], "into_bytes of `{}` differs", c.show());
    // Whatever follows in the buffer isn't part of it.
    let mut more = want.clone();
    more.extend(&want[..]);
    match ctx.feed(&more) {
        Ok(Some(r)) => says(&r, c, &want, "followed")?,
        o => return Err(format!("with more bytes following, `{}` gives {:?}", c.show(), o.map(|r| r.is_some())).into()),
    }
    Ok(())
}

/// Build half of it, make it a request, parse it, and build the rest from that.
fn rebuild(c: &Cmd, at: usize, parsed: bool, st: &mut Stats) -> Res {
    st.transitions += 1;
    let half = Cmd { op: c.op, ty: c.ty, args: c.args[..at].to_vec() };
    let r = build(&half)?.into_request();
    let bytes = r.clone().into_bytes().into_owned();
    let mut ctx = ReqContext::new();
    let mut b: RequestBuilder = if parsed {
        match ctx.feed(&bytes) {
            Ok(Some(r)) => r.into(),
            _ => return Err(format!("`{}` doesn't parse", half.show()).into()),
        }
    } else {
        r.into()
    };
    for a in &c.args[at..] {
        if let Err(e) = b.bytes(a.as_slice()) {
            return Err(format!("adding to the rebuilt `{}` failed: {:?}", half.show(), e).into());
        }
    }
    let whole = build(c)?;
    ensure!(b == whole, "rebuilding `{}` at {} gives another builder", c.show(), at);
    let req: Request = b.into();
    says(&req, c, &enc_req(c), "rebuilt")?;
    let mut ctx = ReqContext::new();
    let bytes = req.as_bytes().to_vec();
    match ctx.feed(&bytes) {
        Ok(Some(p)) => says(&p, c, &enc_req(c), "rebuilt and parsed")?,
        _ => return Err(format!("the rebuilt `{}` doesn't parse", c.show()).into()),
    }
    Ok(())
}

pub fn c08(t: Tier) -> Check {
    Check::new("a request: command, type and arguments; states: distinct requests")
        .assume("argument contents outside of the representative lengths behave like those")
        .sub("argument_lists", move |w| {
            let lens: &[usize] = t.pick(&[1, 2, 3, 4, 5, 8, 255, 256, 257][..], &[1, 2, 3, 4, 5, 8, 127, 255, 256, 257, 258, 511, 512, 1023][..]);
            for op in OPS {
                for ty in all_types() {
                    for n in 0..=(if op.is_simple() { 0 } else { t.pick(2, 3) }) {
                        sequences(lens.len(), n, |ix| {
                            let c = Cmd { op, ty, args: ix.iter().enumerate().map(|(i, l)| blob(lens[*l], i + op as usize)).collect() };
                            w.case(|| c.show(), |st| roundtrip(&c, st));
                        });
                    }
                }
            }
        })
        .sub("long_arguments", move |w| {
            for (i, op) in OPS.iter().enumerate() {
                if op.is_simple() {
                    continue;
                }
                for ty in [None, Some((i % 8) as u8)] {
                    for n in [1000usize, 32767, 32768, 65531, 65532, 65534, 65535, 65536, 65537, 65541, 1 << 20] {
                        for args in [vec![n], vec![n, 1], vec![1, n], vec![n, n], vec![1, n, 3, n, 2]] {
                            let c = Cmd { op: *op, ty, args: args.iter().enumerate().map(|(i, l)| blob(*l, i)).collect() };
                            w.case(|| c.show(), |st| roundtrip(&c, st));
                        }
                    }
                }
            }
        })
        .sub("very_long_arguments", move |w| {
            for n in VERY_LONG {
                for op in [Op::Set, Op::Append, Op::Echo] {
                    for args in [vec![n], vec![n, 1], vec![1, n, 2]] {
                        w.case(
                            || format!("{} with arguments of {:?} bytes", op.name(), args),
                            |st| {
                                let c = Cmd { op, ty: None, args: args.iter().enumerate().map(|(i, l)| blob(*l, i)).collect() };
                                roundtrip(&c, st)
                            },
                        );
                    }
                }
            }
        })
        .sub("contents", move |w| {
            for (i, c) in contents(t == Tier::Thorough).into_iter().enumerate() {
                for op in [Op::Set, Op::Append, Op::Echo, OPS[i % OPS.len()]] {
                    if op.is_simple() {
                        continue;
                    }
                    for ty in [None, Some((i % 8) as u8)] {
                        for args in [vec![c.clone()], vec![b"k".to_vec(), c.clone()], vec![c.clone(), b"k".to_vec(), c.clone()]] {
                            let n = args.len();
                            let cm = Cmd { op, ty, args };
                            w.case(|| cm.show(), |st| roundtrip(&cm, st));
                            w.case(|| format!("{} rebuilt", cm.show()), |st| rebuild(&cm, n / 2, true, st));
                        }
                    }
                }
            }
        })
        .sub("argument_counts", move |w| {
            for op in OPS {
                if op.is_simple() {
                    continue;
                }
                for ty in all_types() {
                    for n in 0..=255usize {
                        for len in [1usize, 3, 300] {
                            if len == 300 && n % 16 > 1 && n < 250 {
                                continue;
                            }
                            let c = Cmd { op, ty, args: (0..n).map(|i| blob(len + i % 3, i)).collect() };
                            w.case(|| c.show(), |st| roundtrip(&c, st));
                        }
                    }
                }
            }
        })
        .sub("values", move |w| {
            // Given as a value, the arguments are the ones of its elements.
            let mut vals: Vec<MVal> = values(0);
            vals.extend([
                MVal::Bool(false),
                MVal::Int(i64::MIN),
                MVal::Int(0),
                MVal::Float(f64::NAN),
                MVal::Float(-0.0),
                MVal::Str("é".into()),
                MVal::Bytes(blob(70000, 1)),
                MVal::List((0..200).map(|i| blob(i + 1, i)).collect()),
                MVal::Map((0..100).map(|i| (blob(i + 1, i), blob(i * 3 + 1, i))).collect()),
                MVal::Set((0..200).map(|i| blob(i + 1, i)).collect()),
            ]);
            for op in OPS {
                if op.is_simple() {
                    continue;
                }
                for ty in all_types() {
                    for v in &vals {
                        for pre in 0..2usize {
                            w.case(
                                || format!("{} {:?} after {} arguments: {}", op.name(), ty, pre, v.show()),
                                |st| {
                                    st.transitions += 1;
                                    let head = Cmd { op, ty, args: (0..pre).map(|i| blob(2, i)).collect() };
                                    let mut b = build(&head)?;
                                    let val = value(v);
                                    // The elements of maps and sets go in the order they have.
                                    let order: Vec<Vec<u8>> = match &val {
                                        Value::Map(m) => m.iter().flat_map(|r| [r.key().clone(), r.value().clone()]).collect(),
                                        Value::Set(m) => m.iter().map(|r| r.key().clone()).collect(),
                                        _ => args_of(v),
                                    };
                                    let _ = order;
                                    if let Err(e) = b.value(val) {
                                        return Err(format!("refused: {:?}", e).into());
                                    }
                                    let r = b.into_request();
                                    let got: Vec<Vec<u8>> = (pre..r.arg_count()).map(|i| r.arg(i).unwrap_or(b"?").to_vec()).collect();
                                    let back = parse_value(v.ty(), &got);
                                    match &back {
                                        Ok(b) if b.same_bits(v) && got.len() == args_of(v).len() => {}
                                        _ => return Err(format!("carries {} arguments, which are {}", got.len(), show_res(&back)).into()),
                                    }
                                    let c = Cmd { op, ty, args: head.args.iter().cloned().chain(got).collect() };
                                    says(&r, &c, &enc_req(&c), "built")?;
                                    let bytes = r.into_bytes().into_owned();
                                    let mut ctx = ReqContext::new();
                                    match ctx.feed(&bytes) {
                                        Ok(Some(p)) => says(&p, &c, &bytes, "parsed")?,
                                        _ => return Err("doesn't parse".into()),
                                    }
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
        })
        .sub("rebuilding", move |w| {
            for op in OPS {
                for ty in all_types() {
                    for parsed in [false, true] {
                        for n in 0..=(if op.is_simple() { 0 } else { 4 }) {
                            for at in 0..=n {
                                for len in [1usize, 255, 256] {
                                    let c = Cmd { op, ty, args: (0..n).map(|i| blob(len + i, i)).collect() };
                                    w.case(
                                        || format!("{} rebuilt at {} (parsed: {})", c.show(), at, parsed),
                                        |st| rebuild(&c, at, parsed, st),
                                    );
                                }
                            }
                        }
                        if !op.is_simple() {
                            for at in [0usize, 1, 100, 127, 128, 253, 254, 255] {
                                let c = Cmd { op, ty, args: (0..255).map(|i| blob(1, i)).collect() };
                                w.case(
                                    || format!("{} rebuilt at {} (parsed: {})", c.show(), at, parsed),
                                    |st| {
                                        rebuild(&c, at, parsed, st)?;
                                        let mut full: RequestBuilder = build(&c)?.into_request().into();
                                        ensure!(
                                            full.bytes(&b"x"[..]) .err() == Some(RequestBuilderError::TooManyArguments),
                                            "a rebuilt full request takes another argument"
                                        );
                                        Ok(())
                                    },
                                );
                            }
                        }
                    }
                }
            }
        })
}

fn perr(e: ReqParseError) -> u8 {
    match e {
        ReqParseError::CommandIdInvalid => 0,
        ReqParseError::KeyTypeInvalid => 1,
    }
}

/// Feed a stream of bytes cut at `cuts` the way the server does: what arrived
/// is appended to a buffer, requests are taken off its front until there is
/// none. `expect` has the requests and rejections by the offsets they end at.
fn stream(bytes: &[u8], cuts: &[usize], reqs: &[Result<Cmd, u8>], st: &mut Stats) -> Res {
    let mut ctx = ReqContext::new();
    let mut buf: Vec<u8> = vec![];
    let mut done = 0;
    let mut base = 0;
    let mut at = 0;
    for cut in cuts {
        buf.extend(&bytes[at..*cut]);
        at = *cut;
        loop {
            st.transitions += 1;
            // What the wire format says about the bytes in the buffer.
            let want = parse_req(&buf);
            let used = match ctx.feed(&buf) {
                Ok(Some(r)) => {
                    let n = r.as_bytes().len();
                    match &want {
                        ReqParse::Done(c, m) => {
                            says(&r, c, &buf[..*m], "streamed")?;
                            ensure!(reqs.get(done) == Some(&Ok(c.clone())), "request {} is `{}`", done, c.show());
                            ensure!(n == *m, "`{}` took {} bytes of {}", c.show(), n, m);
                        }
                        w => return Err(format!("at byte {} a request {:?}, expected {:?}", at, r.command_id(), w).into()),
                    }
                    n
                }
                Ok(None) => match want {
                    ReqParse::More => 0,
                    w => return Err(format!("at byte {} no request, expected {:?}", at, w).into()),
                },
                Err(e) => match want {
                    ReqParse::Bad(n) if n == perr(e) => {
                        ensure!(reqs.get(done) == Some(&Err(n)), "item {} is rejected", done);
                        // What arrived with it is discarded.
                        buf.len()
                    }
                    w => return Err(format!("at byte {} rejected with {:?}, expected {:?}", at, e, w).into()),
                },
            };
            if used == 0 {
                break;
            }
            buf.drain(..used);
            base += used;
            done += 1;
        }
    }
    let _ = base;
    ensure!(done == reqs.len(), "{} of {} requests came out", done, reqs.len());
    Ok(())
}

fn stream_requests() -> Vec<Cmd> {
    vec![
        Cmd::new(Op::Stats, None, &[]),
        Cmd::new(Op::Stats, Some(T_STR), &[]),
        Cmd::new(Op::Echo, None, &[]),
        Cmd::new(Op::Increment, Some(T_FLOAT), &[]),
        Cmd::new(Op::Get, None, &[b"a"]),
        Cmd::new(Op::Delete, None, &[b""]),
        Cmd::new(Op::Increment, Some(T_INT), &[b"\0"]),
        Cmd::new(Op::Set, Some(T_MAP), &[b"\xff", b""]),
        Cmd::new(Op::Echo, None, &[b"", b""]),
        Cmd::new(Op::Rename, None, &[b"\n", b"\0\0"]),
    ]
}

pub fn c09(t: Tier) -> Check {
    Check::new("a stream of requests and the places it is cut at; states: distinct streams")
        .sub("all_chunkings_of_one", move |w| {
            for c in stream_requests() {
                for d in [b"".to_vec(), b"x".to_vec(), b"\0\0\0\x01".to_vec()] {
                    let mut c = c.clone();
                    if !d.is_empty() && !c.op.is_simple() {
                        c.args.push(d.clone());
                    } else if !d.is_empty() {
                        continue;
                    }
                    let b = enc_req(&c);
                    if b.len() > 18 {
                        continue;
                    }
                    chunkings(b.len(), |cuts| {
                        w.case(
                            || format!("{} cut at {:?}", c.show(), cuts),
                            |st| {
                                st.state(h64(&b));
                                stream(&b, cuts, &[Ok(c.clone())], st)
                            },
                        )
                    });
                }
            }
        })
        .sub("all_chunkings_of_two", move |w| {
            let rs = stream_requests();
            for a in &rs {
                for b in &rs {
                    let mut s = enc_req(a);
                    s.extend(enc_req(b));
                    if s.len() > t.pick(14, 18) {
                        continue;
                    }
                    chunkings(s.len(), |cuts| {
                        w.case(
                            || format!("{} | {} cut at {:?}", a.show(), b.show(), cuts),
                            |st| {
                                st.state(h64(&s));
                                stream(&s, cuts, &[Ok(a.clone()), Ok(b.clone())], st)
                            },
                        )
                    });
                }
            }
        })
        .sub("two_cuts_of_three", move |w| {
            let mut rs = stream_requests();
            rs.push(Cmd::new(Op::Append, Some(T_LIST), &[b"k", &blob(300, 1), b"z"]));
            rs.push(Cmd { op: Op::Exists, ty: None, args: (0..255).map(|i| vec![i as u8; i % 3]).collect() });
            sequences(rs.len(), 3, |ix| {
                let cs: Vec<Cmd> = ix.iter().map(|i| rs[*i].clone()).collect();
                let b: Vec<u8> = cs.iter().flat_map(enc_req).collect();
                let want: Vec<Result<Cmd, u8>> = cs.iter().cloned().map(Ok).collect();
                let n = b.len();
                if n <= t.pick(40, 70) {
                    for i in 1..n {
                        for j in i..n {
                            let mut cuts = vec![i, j, n];
                            cuts.dedup();
                            w.case(
                                || format!("{} cut at {:?}", show_all(&cs), cuts),
                                |st| {
                                    st.state(h64(&b));
                                    stream(&b, &cuts, &want, st)
                                },
                            );
                        }
                    }
                } else {
                    for i in (1..n).step_by(t.pick(37, 5)) {
                        w.case(|| format!("{} cut at {}", show_all(&cs), i), |st| stream(&b, &[i, n], &want, st));
                    }
                }
                w.case(
                    || format!("{} byte by byte", show_all(&cs)),
                    |st| stream(&b, &(1..=n).collect::<Vec<_>>(), &want, st),
                );
            });
        })
        .sub("big_requests", move |w| {
            let big = [
                Cmd { op: Op::Echo, ty: Some(T_SET), args: (0..255).map(|i| vec![i as u8; i % 4]).collect() },
                Cmd { op: Op::Set, ty: Some(T_BYTES), args: vec![b"k".to_vec(), blob(66000, 3)] },
                Cmd { op: Op::Append, ty: None, args: vec![blob(256, 1), blob(255, 2), blob(65536, 4)] },
            ];
            for c in &big {
                let mut b = enc_req(c);
                let tail = Cmd::new(Op::Get, None, &[b"a"]);
                let n0 = b.len();
                b.extend(enc_req(&tail));
                let n = b.len();
                let mut cuts: Vec<usize> = (1..n0.min(1500)).collect();
                cuts.extend([n0 - 1, n0, n0 + 1, n - 1]);
                for i in 0..17 {
                    for d in 0..3usize {
                        cuts.push(((1usize << i) + d).saturating_sub(1).clamp(1, n - 1));
                    }
                }
                cuts.sort();
                cuts.dedup();
                for i in cuts {
                    w.case(
                        || format!("{} then {} cut at {}", c.show(), tail.show(), i),
                        |st| stream(&b, &[i, n], &[Ok(c.clone()), Ok(tail.clone())], st),
                    );
                }
                for step in [1usize, 2, 3, 7, 255, 256, 4096] {
                    if n / step > 3000 {
                        continue;
                    }
                    let mut cuts: Vec<usize> = (step..n).step_by(step).collect();
                    cuts.push(n);
                    w.case(
                        || format!("{} then {} in chunks of {}", c.show(), tail.show(), step),
                        |st| stream(&b, &cuts, &[Ok(c.clone()), Ok(tail.clone())], st),
                    );
                }
            }
        })
        .sub("very_big_requests", move |w| {
            for len in VERY_LONG {
                for first in [false, true] {
                    for at in [0usize, 1, 6, 7, 8, 9, 10, 11, 65536, 1 << 20, len - 1, len, len + 3] {
                        w.case(
                            || format!("an argument of {} bytes, {}, cut {} bytes before the end", len, if first { "the first" } else { "the second" }, at),
                            |st| {
                                let args = if first { vec![blob(len, 1), b"v".to_vec()] } else { vec![b"k".to_vec(), blob(len, 2)] };
                                let c = Cmd { op: Op::Set, ty: Some(T_BYTES), args };
                                let tail = Cmd::new(Op::Get, None, &[b"a"]);
                                let mut b = enc_req(&c);
                                let n0 = b.len();
                                b.extend(enc_req(&tail));
                                let cuts = [n0 - at.min(n0 - 1), b.len()];
                                stream(&b, &cuts, &[Ok(c), Ok(tail)], st)
                            },
                        );
                    }
                }
            }
        })
        .sub("after_a_rejected_one", move |w| {
            let rs = stream_requests();
            // Every unknown command and type, arriving by itself.
            for a in 0..rs.len() {
                for b in 0..rs.len() {
                    for bad in 0..=255u8 {
                        let mut opts: Vec<(Vec<u8>, u8)> = vec![];
                        if Op::of(bad & 0x7f).is_none() {
                            opts.push((vec![bad], 0));
                            opts.push((vec![bad, 3, 1, 0], 0));
                        }
                        if bad > 7 {
                            opts.push((vec![0x80 | Op::Get as u8, bad], 1));
                            opts.push((vec![0x80 | Op::Stats as u8, bad, 0], 1));
                        }
                        for (junk, code) in opts {
                            let mut s = enc_req(&rs[a]);
                            let mut cuts = vec![s.len()];
                            s.extend(&junk);
                            cuts.push(s.len());
                            s.extend(enc_req(&rs[b]));
                            cuts.push(s.len());
                            let want = [Ok(rs[a].clone()), Err(code), Ok(rs[b].clone())];
                            w.case(
                                || format!("{} | {} | {}", rs[a].show(), show(&junk), rs[b].show()),
                                |st| stream(&s, &cuts, &want, st),
                            );
                        }
                    }
                }
            }
            // A type number arriving after the command's byte.
            for bad in 8..=255u8 {
                for r in &rs {
                    let mut s = vec![0x80 | Op::Set as u8, bad];
                    s.extend(enc_req(r));
                    let cuts = [1, 2, s.len()];
                    let want = [Err(1), Ok(r.clone())];
                    w.case(|| format!("type {} then {}", bad, r.show()), |st| stream(&s, &cuts, &want, st));
                }
            }
        })
        .sub("reuse", move |w| {
            // One parser, many requests, each given alone in a new buffer.
            let rs = stream_requests();
            sequences(rs.len(), t.pick(3, 4), |ix| {
                w.case(
                    || show_all(&ix.iter().map(|i| rs[*i].clone()).collect::<Vec<_>>()),
                    |st| {
                        let mut ctx = ReqContext::new();
                        for i in ix {
                            st.transitions += 1;
                            let b = enc_req(&rs[*i]);
                            match ctx.feed(&b) {
                                Ok(Some(r)) => says(&r, &rs[*i], &b, "parsed")?,
                                o => return Err(format!("`{}` gave {:?}", rs[*i].show(), o.map(|r| r.is_some())).into()),
                            }
                        }
                        Ok(())
                    },
                );
            });
        })
}

/// Engines in states in which every type of key exists.
fn engine_states() -> Vec<Vec<Cmd>> {
    let mut v = vec![vec![]];
    for x in values(0) {
        v.push(vec![set_cmd(b"a", &x), set_cmd(b"bb", &MVal::Int(1))]);
    }
    v.push(vec![set_cmd(b"\0", &MVal::Int(i64::MAX)), set_cmd(b"a", &MVal::Int(i64::MIN))]);
    v
}

/// Parse and run. `states` are the engines to run it on.
fn arbitrary(b: &[u8], states: &[Vec<Cmd>], st: &mut Stats) -> Res {
    st.transitions += 1;
    let want = parse_req(b);
    let mut ctx = ReqContext::new();
    let got = ctx.feed(b);
    let req = match (got, &want) {
        (Ok(Some(r)), ReqParse::Done(c, n)) => {
            says(&r, c, &b[..*n], "parsed")?;
            r
        }
        (Ok(None), ReqParse::More) => return Ok(()),
        (Err(e), ReqParse::Bad(n)) if perr(e) == *n => {
            let f = Response::from(e).as_bytes();
            st.outcome(&f);
            return Ok(());
        }
        (g, w) => {
            return Err(format!("parsing {} gave {:?}, the wire format says {:?}", show(b), g.map(|r| r.map(|r| r.command_id())), w).into())
        }
    };
    let ReqParse::Done(c, _) = &want else { unreachable!() };
    for s in states {
        let hop = Hop::new();
        let mut m = MState::default();
        for p in s {
            go(&hop, &mut m, p)?;
        }
        st.state(h64(&m.canon()));
        let mut resp = vec![];
        st.transitions += 1;
        let r = guarded(|| hop.dispatch(&req, &mut resp));
        match r {
            Ok(Ok(())) => {
                st.outcome(&resp);
                if let Err(e) = dec_value(&resp) {
                    return Err(format!("`{}` in {} answered {}", c.show(), m.show(), e).into());
                }
            }
            Ok(Err(e)) => {
                st.outcome(&[err_num(e)]);
                ensure!(resp.is_empty(), "`{}` failed but answered {}", c.show(), show(&resp));
            }
            Err(p) => {
                if c.args.first().map_or(false, |k| k.starts_with(b"__hop__:")) && p.contains("Accessed internal key") {
                    return Err(Fail::known(format!("reserved-key:{}", c.op.name()), format!("`{}` {}", c.show(), p)));
                }
                return Err(format!("`{}` in {} {}", c.show(), m.show(), p).into());
            }
        }
    }
    Ok(())
}

pub fn c10(t: Tier) -> Check {
    Check::new("a byte string, parsed and if it is a request run; states: contents of the engines it runs on")
        .assume("bytes outside of the alphabets used after the first two positions behave like those in them")
        .sub("all_short_strings", move |w| {
            let states = engine_states();
            w.case(|| "no bytes".into(), |st| arbitrary(b"", &states, st));
            for a in 0..=255u8 {
                w.case(|| format!("{:?}", [a]), |st| arbitrary(&[a], &states, st));
                for b in 0..=255u8 {
                    w.case(|| format!("{:?}", [a, b]), |st| arbitrary(&[a, b], &states[..2], st));
                    for c in [0u8, 1, 2, 7, 8, 9, 127, 128, 255] {
                        w.case(|| format!("{:?}", [a, b, c]), |st| arbitrary(&[a, b, c], &states[..2], st));
                        if t == Tier::Thorough {
                            for d in 0..=255u8 {
                                w.case(|| format!("{:?}", [a, b, c, d]), |st| arbitrary(&[a, b, c, d], &states[..2], st));
                            }
                        }
                    }
                }
            }
        })
        .sub("structured", move |w| {
            // command (with or without a type), count, then fields of four
            // length bytes and contents from small alphabets.
            let states = engine_states();
            let lens: [[u8; 4]; 7] =
                [[0, 0, 0, 0], [0, 0, 0, 1], [0, 0, 0, 2], [0, 0, 1, 0], [0, 1, 0, 0], [1, 0, 0, 0], [255, 255, 255, 255]];
            let bodies: Vec<&[u8]> = vec![b"", b"a", b"bb", b"\xff", b"\0\0\0\x01", b"12345678"];
            for op in OPS {
                for ty in std::iter::once(None).chain([0u8, 1, 2, 3, 4, 5, 6, 7, 8, 255].into_iter().map(Some)) {
                    let mut head = vec![];
                    match ty {
                        None => head.push(op as u8),
                        Some(t) => head.extend([op as u8 | 0x80, t]),
                    }
                    for count in [0u8, 1, 2, 3, 255] {
                        let mut h = head.clone();
                        h.push(count);
                        for l1 in lens {
                            for b1 in &bodies {
                                let mut x = h.clone();
                                x.extend(l1);
                                x.extend(*b1);
                                w.case(|| show(&x), |st| arbitrary(&x, &states[..2], st));
                                if count < 2 && t == Tier::Quick {
                                    continue;
                                }
                                for l2 in lens {
                                    for b2 in &bodies {
                                        let mut y = x.clone();
                                        y.extend(l2);
                                        y.extend(*b2);
                                        w.case(|| show(&y), |st| arbitrary(&y, &states[..2], st));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        })
        .sub("every_request_in_every_state", move |w| {
            let states = engine_states();
            let n = be(1);
            let lists: Vec<Vec<&[u8]>> = vec![
                vec![],
                vec![b""],
                vec![b"a"],
                vec![b"\0"],
                vec![b"", b""],
                vec![b"a", b""],
                vec![b"", b"a"],
                vec![b"a", b"a"],
                vec![b"a", b"bb"],
                vec![b"bb", b"a"],
                vec![b"a", b"\xff"],
                vec![b"a", &n],
                vec![b"a", b"1234567"],
                vec![b"a", b"", b""],
                vec![b"a", b"x", b"y"],
                vec![b"a", b"x", b"y", b"", b""],
            ];
            for op in OPS {
                for ty in all_types() {
                    for a in &lists {
                        let b = enc_req(&Cmd::new(op, ty, a));
                        w.case(|| show(&b), |st| arbitrary(&b, &states, st));
                    }
                }
            }
        })
        .sub("mutations", move |w| {
            let states = engine_states();
            let n = be(1);
            let seeds = [
                Cmd::new(Op::Set, Some(T_MAP), &[b"a", b"k", b"v"]),
                Cmd::new(Op::IncrementBy, Some(T_FLOAT), &[b"a", &n]),
                Cmd::new(Op::Append, None, &[b"a", b"x", b"\xff"]),
                Cmd::new(Op::Rename, None, &[b"a", b"c"]),
                Cmd::new(Op::Exists, None, &[b"a", b"bb", b"c"]),
                Cmd::new(Op::Is, Some(T_INT), &[b"a", b"bb"]),
                Cmd::new(Op::Stats, None, &[]),
                Cmd::new(Op::Echo, Some(T_STR), &[b"", b"x"]),
                Cmd::new(Op::Set, Some(T_STR), &[b"a", "é".as_bytes()]),
                Cmd::new(Op::DecrementBy, None, &[b"a", &n, b"x"]),
            ];
            for s in &seeds {
                let b = enc_req(s);
                for i in 0..=b.len() {
                    w.case(|| format!("{} cut to {}", show(&b), i), |st| arbitrary(&b[..i], &states[..3], st));
                    if i == b.len() {
                        continue;
                    }
                    for v in 0..=255u8 {
                        let mut x = b.clone();
                        x[i] = v;
                        w.case(|| show(&x), |st| arbitrary(&x, &states[..3], st));
                        if t == Tier::Thorough {
                            for j in i + 1..b.len().min(i + 6) {
                                for v2 in [0u8, 1, 2, 127, 128, 255] {
                                    let mut y = x.clone();
                                    y[j] = v2;
                                    w.case(|| show(&y), |st| arbitrary(&y, &states[..2], st));
                                }
                            }
                        }
                    }
                    let mut x = b.clone();
                    x.remove(i);
                    w.case(|| show(&x), |st| arbitrary(&x, &states[..3], st));
                    let mut x = b.clone();
                    x.insert(i, b[i]);
                    w.case(|| show(&x), |st| arbitrary(&x, &states[..3], st));
                }
            }
        })
        .sub("reserved_keys", move |w| {
            for op in OPS {
                if op.is_simple() {
                    continue;
                }
                for ty in all_types() {
                    for a in [
                        vec![&b"__hop__:x"[..]],
                        vec![b"__hop__:"],
                        vec![b"__hop__:x", b"y"],
                        vec![b"y", b"__hop__:x"],
                        vec![b"__hop__:x", b"12345678"],
                        vec![b"__hop__", b"12345678"],
                    ] {
                        let b = enc_req(&Cmd::new(op, ty, &a));
                        w.case(|| show(&b), |st| arbitrary(&b, &[vec![]], st));
                    }
                }
            }
        })
}

/// What the decoder made of it.
fn mresp(r: &Response) -> MResp {
    match r {
        Response::Value(v) => MResp::Val(mval(v)),
        Response::ParseError(e) => MResp::Parse(perr(*e)),
        Response::DispatchError(e) => MResp::Dispatch(err_num(*e)),
    }
}

fn resp_of(m: &MResp) -> Response {
    match m {
        MResp::Val(v) => Response::Value(value(v)),
        MResp::Parse(0) => Response::ParseError(ReqParseError::CommandIdInvalid),
        MResp::Parse(_) => Response::ParseError(ReqParseError::KeyTypeInvalid),
        MResp::Dispatch(n) => Response::DispatchError(DispatchError::try_from(*n).unwrap()),
    }
}

fn all_errors() -> Vec<MResp> {
    let mut v: Vec<MResp> = (0..8).map(MResp::Dispatch).collect();
    v.extend((0..2).map(MResp::Parse));
    v
}

fn elems() -> Vec<Vec<u8>> {
    ls(&[b"", b"a", b"\0", b"\xff\xfe", b"\0\0\0\x04", b"abc"])
}

/// All values over the small elements with up to two (three) elements.
fn small_values(n: usize) -> Vec<MVal> {
    let mut v = vec![
        MVal::Bool(false),
        MVal::Bool(true),
        MVal::Bytes(vec![]),
        MVal::Str(String::new()),
        MVal::List(vec![]),
        MVal::Map(Default::default()),
        MVal::Set(Default::default()),
    ];
    for i in 0..64 {
        for d in [-1i64, 0, 1] {
            v.push(MVal::Int((1i64 << i).wrapping_add(d)));
            v.push(MVal::Int((1i64 << i).wrapping_add(d).wrapping_neg()));
            v.push(MVal::Float(f64::from_bits((1u64 << i).wrapping_add(d as u64))));
            v.push(MVal::Float(f64::from_bits((1u64 << i).wrapping_add(d as u64) ^ 0x7ff0_0000_0000_0000)));
        }
    }
    for i in 0..=255u8 {
        v.push(MVal::Int(i64::from_be_bytes([i; 8])));
        v.push(MVal::Bytes(vec![i]));
        v.push(MVal::List(vec![vec![i]]));
        v.push(MVal::Set([vec![i]].into()));
        v.push(MVal::Map([(vec![i], vec![255 - i])].into()));
        if i < 128 {
            v.push(MVal::Str((i as char).to_string()));
        }
    }
    for s in ["é", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "a\0b", "日本語"] {
        v.push(MVal::Str(s.into()));
    }
    let e = elems();
    for x in &e {
        v.push(MVal::Bytes(x.clone()));
    }
    for k in 1..=n {
        sequences(e.len(), k, |ix| {
            let l: Vec<Vec<u8>> = ix.iter().map(|i| e[*i].clone()).collect();
            v.push(MVal::List(l.clone()));
            if ix.windows(2).all(|w| w[0] < w[1]) {
                v.push(MVal::Set(l.iter().cloned().collect()));
                sequences(e.len(), k, |jx| {
                    v.push(MVal::Map(l.iter().cloned().zip(jx.iter().map(|j| e[*j].clone())).collect()));
                });
            }
        });
    }
    v
}

/// Lengths that don't fit into three bytes.
const VERY_LONG: [usize; 3] = [(1 << 24) - 1, 1 << 24, (1 << 24) + 1];
const VERY: [&str; 4] = ["bytes", "a string", "a list's item", "a map's value"];

fn very_long(n: usize, i: usize) -> MVal {
    match i {
        0 => MVal::Bytes(blob(n, 1)),
        1 => MVal::Str("x".repeat(n)),
        2 => MVal::List(vec![blob(n, 1), blob(1, 2)]),
        _ => MVal::Map([(b"k".to_vec(), blob(n, 1)), (b"l".to_vec(), blob(2, 2))].into()),
    }
}

fn big_values() -> Vec<MVal> {
    let mut v = vec![];
    for n in [127usize, 128, 254, 255, 256, 257, 65530, 65534, 65535, 65536, 65537, 200_000] {
        v.push(MVal::Bytes(blob(n, 1)));
        v.push(MVal::Str("é".repeat(n / 2) + if n % 2 == 1 { "x" } else { "" }));
        v.push(MVal::List(vec![blob(n, 1), blob(1, 2)]));
        v.push(MVal::Map([(b"k".to_vec(), blob(n, 1))].into()));
        if n <= 255 {
            v.push(MVal::Map([(blob(n, 1), blob(n, 3)), (b"y".to_vec(), vec![])].into()));
        }
        if n <= 65535 {
            v.push(MVal::Set([blob(n, 1), blob(n - 1, 1)].into()));
        }
        if n <= 65535 {
            let b = |i: usize| (i as u32).to_be_bytes()[1..].to_vec();
            v.push(MVal::List((0..n).map(b).collect()));
            v.push(MVal::Set((0..n).map(b).collect()));
            v.push(MVal::Map((0..n).map(|i| (b(i), b(i + 1))).collect()));
        }
    }
    v
}

/// Encode every way there is; append to what is there; decode.
fn resp_roundtrip(m: &MResp, st: &mut Stats) -> Res {
    st.transitions += 1;
    let r = resp_of(m);
    let bytes = r.as_bytes();
    st.state(h64(&bytes));
    match dec_resp(&bytes) {
        Ok((d, n)) if d.same(m) && n == bytes.len() => {}
        Ok((d, n)) => return Err(format!("{} is encoded as {} in {} of {} bytes", m.show(), d.show(), n, bytes.len()).into()),
        Err(e) => return Err(format!("the encoding of {} is malformed: {}", m.show(), e).into()),
    }
    let mut buf = b"before".to_vec();
    r.copy_to(&mut buf);
    ensure!(buf.starts_with(b"before"), "copy_to of {} changed what was there", m.show());
    ensure!(buf[6..] == bytes[..], "copy_to of {} isn't as_bytes", m.show());
    let mut buf2 = b"befor".to_vec();
    match m {
        MResp::Dispatch(n) => response::write_dispatch_error(&mut buf2, DispatchError::try_from(*n).unwrap()),
        MResp::Parse(0) => response::write_parse_error(&mut buf2, ReqParseError::CommandIdInvalid),
        MResp::Parse(_) => response::write_parse_error(&mut buf2, ReqParseError::KeyTypeInvalid),
        MResp::Val(v) => {
            let val = match &r {
                Response::Value(v) => v,
                _ => unreachable!(),
            };
            match val {
                Value::Boolean(x) => response::write_bool(&mut buf2, *x),
                Value::Bytes(x) => response::write_bytes(&mut buf2, x),
                Value::Float(x) => response::write_float(&mut buf2, *x),
                Value::Integer(x) => response::write_int(&mut buf2, *x),
                Value::List(x) => response::write_list(&mut buf2, x),
                Value::Map(x) => response::write_map(&mut buf2, x),
                Value::Set(x) => response::write_set(&mut buf2, x),
                Value::String(x) => response::write_str(&mut buf2, x),
            }
            let mut buf3 = vec![];
            response::write_value(&mut buf3, val);
            ensure!(buf3 == bytes, "write_value of {} isn't as_bytes", v.show());
        }
    }
    ensure!(buf2.starts_with(b"befor") && buf2[5..] == bytes[..], "the writer for {} gives other bytes", m.show());
    let mut ctx = RespContext::new();
    match ctx.feed(&bytes) {
        Ok(Instruction::Concluded(d)) => {
            let d = mresp(&d);
            ensure!(d.same(m), "{} is decoded as {}", m.show(), d.show());
        }
        o => return Err(format!("decoding {} gives {:?}", m.show(), o.map(|_| "more bytes")).into()),
    }
    Ok(())
}

pub fn c11(t: Tier) -> Check {
    Check::new("a value or error, encoded and decoded; states: distinct encodings")
        .assume("floats are compared bit for bit; contents of maps and sets as such")
        .sub("errors_and_small_values", move |w| {
            for e in all_errors() {
                w.case(|| e.show(), |st| resp_roundtrip(&e, st));
            }
            for v in small_values(t.pick(2, 3)) {
                let m = MResp::Val(v);
                w.case(|| m.show(), |st| resp_roundtrip(&m, st));
            }
        })
        .sub("contents", move |w| {
            for c in contents(t == Tier::Thorough) {
                for v in values_with(&c) {
                    let m = MResp::Val(v);
                    w.case(|| m.show(), |st| resp_roundtrip(&m, st));
                }
            }
        })
        .sub("boundary_lengths", move |w| {
            for v in big_values() {
                let m = MResp::Val(v);
                w.case(|| m.show(), |st| resp_roundtrip(&m, st));
            }
        })
        .sub("very_long_values", move |w| {
            for n in VERY_LONG {
                for i in 0..4 {
                    w.case(|| format!("{} of {} bytes", VERY[i], n), |st| resp_roundtrip(&MResp::Val(very_long(n, i)), st));
                }
            }
        })
        .sub("one_after_the_other", move |w| {
            let mut ms = all_errors();
            ms.extend(values(0).into_iter().map(MResp::Val));
            ms.extend(values(1).into_iter().map(MResp::Val));
            ms.extend(small_values(0).into_iter().take(7).map(MResp::Val));
            sequences(ms.len(), t.pick(2, 3), |ix| {
                w.case(
                    || ix.iter().map(|i| ms[*i].show()).collect::<Vec<_>>().join(" | "),
                    |st| {
                        st.transitions += 1;
                        let mut buf = vec![];
                        let mut ends = vec![];
                        for i in ix {
                            resp_of(&ms[*i]).copy_to(&mut buf);
                            ends.push(buf.len());
                        }
                        let mut ctx = RespContext::new();
                        let mut at = 0;
                        for (i, end) in ix.iter().zip(ends) {
                            match ctx.feed(&buf[at..]) {
                                Ok(Instruction::Concluded(d)) => {
                                    let d = mresp(&d);
                                    ensure!(d.same(&ms[*i]), "{} is decoded as {}", ms[*i].show(), d.show());
                                }
                                o => return Err(format!("decoding {} gives {:?}", ms[*i].show(), o.map(|_| "more bytes")).into()),
                            }
                            at = end;
                        }
                        Ok(())
                    },
                );
            });
        })
        .sub("too_big_for_the_format", move |w| {
            let b = |i: usize| (i as u32).to_be_bytes()[1..].to_vec();
            for (key, m) in [
                ("map-key-256", MVal::Map([(blob(256, 1), b"v".to_vec())].into())),
                ("set-item-65536", MVal::Set([blob(65536, 1)].into())),
                ("list-65536", MVal::List((0..65536).map(b).collect())),
                ("map-65536", MVal::Map((0..65536).map(|i| (b(i), vec![])).collect())),
                ("set-65536", MVal::Set((0..65536).map(b).collect())),
            ] {
                let m = MResp::Val(m);
                w.case(
                    || m.show(),
                    |st| match guarded(|| resp_roundtrip(&m, st)) {
                        Ok(Ok(())) => Ok(()),
                        Ok(Err(e)) => Err(Fail::known(key, e.msg)),
                        Err(e) => Err(Fail::known(key, e)),
                    },
                );
            }
        })
}

fn resp_samples() -> Vec<MResp> {
    let mut ms = all_errors();
    ms.extend(small_values(0).into_iter().take(7).map(MResp::Val));
    ms.extend(values(0).into_iter().map(MResp::Val));
    ms.extend(values(1).into_iter().map(MResp::Val));
    let e = elems();
    for n in 1..=2 {
        sequences(e.len(), n, |ix| {
            let l: Vec<Vec<u8>> = ix.iter().map(|i| e[*i].clone()).collect();
            ms.push(MResp::Val(MVal::List(l.clone())));
            if n == 1 || ix[0] < ix[1] {
                ms.push(MResp::Val(MVal::Set(l.iter().cloned().collect())));
                ms.push(MResp::Val(MVal::Map(l.iter().map(|x| (x.clone(), b"zz".to_vec())).collect())));
            }
        });
    }
    ms.push(MResp::Val(MVal::Bytes(blob(300, 1))));
    ms.push(MResp::Val(MVal::Str("é".repeat(150))));
    ms.push(MResp::Val(MVal::List(vec![blob(260, 1), vec![], blob(3, 1)])));
    ms.push(MResp::Val(MVal::Map([(blob(255, 1), blob(256, 2))].into())));
    ms.push(MResp::Val(MVal::Set([blob(300, 1), blob(2, 2)].into())));
    ms
}

/// How many of `n` bytes are missing after the first `at`, as far as it can be known.
fn missing(at: usize, n: usize) -> usize {
    if at < 4 {
        4 - at
    } else {
        n - at
    }
}

/// Deliver `bytes` in the given cuts to a decoder and judge what it asks for.
fn deliver(ctx: &mut RespContext, m: &MResp, bytes: &[u8], cuts: &[usize], trail: &[u8], st: &mut Stats) -> Res {
    let n = bytes.len();
    for cut in cuts {
        st.transitions += 1;
        let mut buf = bytes[..*cut].to_vec();
        if *cut == n {
            buf.extend(trail);
        }
        match ctx.feed(&buf) {
            Ok(Instruction::ReadBytes(k)) => {
                ensure!(*cut < n, "{}: all {} bytes are there but {} more are asked for", m.show(), n, k);
                ensure!(k == missing(*cut, n), "{}: after {} of {} bytes, {} more are asked for", m.show(), cut, n, k);
            }
            Ok(Instruction::Concluded(d)) => {
                let d = mresp(&d);
                ensure!(*cut == n, "{}: concluded {} after {} of {} bytes", m.show(), d.show(), cut, n);
                ensure!(d.same(m), "{} is decoded as {}", m.show(), d.show());
            }
            Err(e) => return Err(format!("{}: {:?} after {} of {} bytes", m.show(), e, cut, n).into()),
        }
    }
    Ok(())
}

/// Start from a prefix and give it exactly what it asks for.
fn follow(ctx: &mut RespContext, m: &MResp, bytes: &[u8], from: usize, st: &mut Stats) -> Res {
    let mut at = from;
    for _ in 0..=bytes.len() {
        st.transitions += 1;
        match ctx.feed(&bytes[..at]) {
            Ok(Instruction::ReadBytes(k)) => {
                ensure!(at < bytes.len() && k == missing(at, bytes.len()), "{}: {} bytes are asked for after {} of {}", m.show(), k, at, bytes.len());
                at += k;
            }
            Ok(Instruction::Concluded(d)) => {
                let d = mresp(&d);
                ensure!(at == bytes.len(), "{}: concluded {} after {} of {} bytes", m.show(), d.show(), at, bytes.len());
                ensure!(d.same(m), "{} is decoded as {}", m.show(), d.show());
                return Ok(());
            }
            Err(e) => return Err(format!("{}: {:?} after {} bytes", m.show(), e, at).into()),
        }
    }
    Err("it never concludes".into())
}

pub fn c12(t: Tier) -> Check {
    Check::new("a response and how it is delivered to the decoder; states: distinct responses")
        .sub("from_every_prefix", move |w| {
            for m in resp_samples() {
                let b = enc_resp(&m);
                for i in 0..=b.len() {
                    w.case(
                        || format!("{}, starting with {} bytes", m.show(), i),
                        |st| {
                            st.state(h64(&b));
                            follow(&mut RespContext::new(), &m, &b, i, st)?;
                            deliver(&mut RespContext::new(), &m, &b, &[i, b.len()][(i == b.len()) as usize..], b"", st)
                        },
                    );
                }
            }
        })
        .sub("all_chunkings", move |w| {
            for m in resp_samples() {
                let b = enc_resp(&m);
                if b.len() > t.pick(13, 18) {
                    continue;
                }
                chunkings(b.len(), |cuts| {
                    w.case(
                        || format!("{} cut at {:?}", m.show(), cuts),
                        |st| {
                            st.state(h64(&b));
                            deliver(&mut RespContext::new(), &m, &b, cuts, b"", st)
                        },
                    );
                });
            }
        })
        .sub("byte_by_byte_with_trailing_bytes", move |w| {
            for m in resp_samples() {
                let b = enc_resp(&m);
                for trail in [&b""[..], b"\0", b"\0\0\0\x02\0\x01", b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"] {
                    w.case(
                        || format!("{} followed by {}", m.show(), show(trail)),
                        |st| {
                            deliver(&mut RespContext::new(), &m, &b, &[b.len()], trail, st)?;
                            deliver(&mut RespContext::new(), &m, &b, &(0..=b.len()).collect::<Vec<_>>(), trail, st)
                        },
                    );
                }
            }
        })
        .sub("reuse", move |w| {
            let ms = resp_samples();
            for a in &ms {
                for b in &ms {
                    w.case(
                        || format!("{} then {}", a.show(), b.show()),
                        |st| {
                            let mut ctx = RespContext::new();
                            let (x, y) = (enc_resp(a), enc_resp(b));
                            deliver(&mut ctx, a, &x, &[x.len()], b"", st)?;
                            follow(&mut ctx, b, &y, 0, st)?;
                            deliver(&mut ctx, a, &x, &(0..=x.len()).collect::<Vec<_>>(), &y, st)?;
                            deliver(&mut ctx, b, &y, &(0..=y.len()).collect::<Vec<_>>(), b"", st)
                        },
                    );
                }
            }
        })
        .sub("big", move |w| {
            for v in big_values() {
                let m = MResp::Val(v);
                let b = enc_resp(&m);
                for i in [0, 1, 3, 4, 5, 6, 7, 8, 9, b.len() / 2, b.len() - 1] {
                    if i > b.len() {
                        continue;
                    }
                    w.case(|| format!("{} from {}", m.show(), i), |st| follow(&mut RespContext::new(), &m, &b, i, st));
                }
            }
        })
        .sub("very_big", move |w| {
            for n in VERY_LONG {
                for i in 0..4 {
                    for at in [0usize, 3, 4, 5, 9, 1 << 20, n, usize::MAX] {
                        w.case(|| format!("{} of {} bytes from {}", VERY[i], n, at), |st| {
                            let m = MResp::Val(very_long(n, i));
                            let b = enc_resp(&m);
                            follow(&mut RespContext::new(), &m, &b, at.min(b.len()), st)?;
                            deliver(&mut RespContext::new(), &m, &b, &[at.min(b.len() - 1), b.len()], b"\0\0", st)
                        });
                    }
                }
            }
        })
}

/// What a decoder can make of any bytes, whatever they claim.
#[derive(Debug)]
enum Any {
    Val(MResp),
    More,
    Bad(RespParseError),
    /// A collection with an entry twice: not defined, but nothing may break.
    Twice,
}

fn lenient(b: &[u8]) -> Any {
    let Some(h) = b.get(..4) else { return Any::More };
    let n = u32::from_be_bytes(h.try_into().unwrap()) as usize;
    if b.len() < 4 + n {
        return Any::More;
    }
    let mut i = 4;
    macro_rules! take {
        ($n:expr) => {{
            let n: usize = $n;
            match b.get(i..i + n) {
                Some(x) => {
                    i += n;
                    x
                }
                None => return Any::More,
            }
        }};
    }
    macro_rules! u32_ { () => { u32::from_be_bytes(take!(4).try_into().unwrap()) as usize } }
    macro_rules! u16_ { () => { u16::from_be_bytes(take!(2).try_into().unwrap()) as usize } }
    let kind = take!(1)[0];
    Any::Val(match kind {
        K_BOOL => MResp::Val(MVal::Bool(take!(1)[0] != 0)),
        K_FLOAT => MResp::Val(MVal::Float(f64::from_bits(u64::from_be_bytes(take!(8).try_into().unwrap())))),
        K_INT => MResp::Val(MVal::Int(i64::from_be_bytes(take!(8).try_into().unwrap()))),
        K_BYTES => MResp::Val(MVal::Bytes({ let n = u32_!(); take!(n).to_vec() })),
        K_STR => {
            let n = u32_!();
            match String::from_utf8(take!(n).to_vec()) {
                Ok(s) => MResp::Val(MVal::Str(s)),
                Err(_) => return Any::Bad(RespParseError::StringInvalid),
            }
        }
        K_LIST => {
            let n = u16_!();
            let mut l = vec![];
            for _ in 0..n {
                let n = u32_!();
                l.push(take!(n).to_vec());
            }
            MResp::Val(MVal::List(l))
        }
        K_MAP => {
            let n = u16_!();
            let mut m = std::collections::BTreeMap::new();
            for _ in 0..n {
                let n = take!(1)[0] as usize;
                let k = take!(n).to_vec();
                let n = u32_!();
                if m.insert(k, take!(n).to_vec()).is_some() {
                    return Any::Twice;
                }
            }
            MResp::Val(MVal::Map(m))
        }
        K_SET => {
            let n = u16_!();
            let mut m = std::collections::BTreeSet::new();
            for _ in 0..n {
                let n = u16_!();
                if !m.insert(take!(n).to_vec()) {
                    return Any::Twice;
                }
            }
            MResp::Val(MVal::Set(m))
        }
        K_PARSE_ERROR => match take!(1)[0] {
            e if e < 2 => MResp::Parse(e),
            _ => return Any::Bad(RespParseError::ParseErrorInvalid),
        },
        K_DISPATCH_ERROR => match take!(1)[0] {
            e if e < 8 => MResp::Dispatch(e),
            _ => return Any::Bad(RespParseError::DispatchErrorInvalid),
        },
        _ => return Any::Bad(RespParseError::ResponseTypeInvalid),
    })
}

fn malformed(b: &[u8], cuts: &[usize], st: &mut Stats) -> Res {
    let mut ctx = RespContext::new();
    for cut in cuts {
        st.transitions += 1;
        let x = &b[..*cut];
        let want = lenient(x);
        match (ctx.feed(x), want) {
            (Ok(Instruction::Concluded(d)), Any::Val(m)) => {
                let d = mresp(&d);
                ensure!(d.same(&m), "{} is decoded as {}, it says {}", show(x), d.show(), m.show());
                st.outcome(&enc_resp(&m));
                return Ok(());
            }
            (Ok(Instruction::ReadBytes(k)), Any::More) => {
                ensure!(k >= 1, "{}: 0 bytes are asked for", show(x));
                st.outcome(&[0]);
            }
            (Err(a), Any::Bad(b)) if a == b => {
                st.outcome(&[a as u8, 1]);
                return Ok(());
            }
            (Ok(Instruction::ReadBytes(k)), Any::Twice) => {
                ensure!(k >= 1, "{}: 0 bytes are asked for", show(x));
            }
            (_, Any::Twice) => return Ok(()),
            (Ok(Instruction::Concluded(d)), w) => {
                return Err(format!("{} is decoded as {}, expected {:?}", show(x), mresp(&d).show(), w).into())
            }
            (Ok(Instruction::ReadBytes(k)), w) => {
                return Err(format!("{} asks for {} more bytes, expected {:?}", show(x), k, w).into())
            }
            (Err(e), w) => return Err(format!("{} is rejected with {:?}, expected {:?}", show(x), e, w).into()),
        }
    }
    Ok(())
}

pub fn c13(t: Tier) -> Check {
    Check::new("a byte string given to the decoder whole and in pieces; outcomes: distinct values, errors and requests")
        .assume("what a collection that has an entry twice decodes to isn't defined, only that nothing breaks")
        .sub("every_kind_and_byte", move |w| {
            for len in [0u32, 1, 2, 3, 5, 9, 12, 255, 256, 65536, u32::MAX - 4, u32::MAX] {
                for kind in 0..=255u8 {
                    for b1 in 0..=255u8 {
                        let mut b = len.to_be_bytes().to_vec();
                        b.extend([kind, b1]);
                        let n = b.len();
                        w.case(|| show(&b), |st| malformed(&b, &[n], st));
                        if kind < 10 && (b1 < 3 || b1 > 253) {
                            w.case(|| format!("{} in pieces", show(&b)), |st| malformed(&b, &(0..=n).collect::<Vec<_>>(), st));
                        }
                    }
                }
            }
        })
        .sub("every_shape", move |w| {
            // header, kind, then up to `depth` pieces from an alphabet of
            // length fields and contents.
            let pieces: Vec<&[u8]> = vec![
                b"\0", b"\x01", b"\x02", b"\xff", b"\0\0", b"\0\x01", b"\0\x02", b"\xff\xff", b"\0\0\0\0", b"\0\0\0\x01",
                b"\0\0\0\x02", b"\xff\xff\xff\xff", b"a", b"\xc3\xa9", b"12345678",
            ];
            let depth = t.pick(4, 5);
            for n in 0..=depth {
                for kind in 0..=10u8 {
                    sequences(pieces.len(), n, |ix| {
                        let body: Vec<u8> = ix.iter().flat_map(|i| pieces[*i].iter().copied()).collect();
                        for len in [0usize, 1, body.len() + 1, body.len() + 2] {
                            if len == body.len() + 2 && n > 2 {
                                continue;
                            }
                            let mut b = (len as u32).to_be_bytes().to_vec();
                            b.push(kind);
                            b.extend(&body);
                            let m = b.len();
                            w.case(
                                || show(&b),
                                |st| {
                                    if n < depth {
                                        malformed(&b, &(0..=m).collect::<Vec<_>>(), st)?;
                                    }
                                    malformed(&b, &[m], st)
                                },
                            );
                        }
                    });
                }
            }
        })
        .sub("mutations", move |w| {
            for m in resp_samples() {
                let b = enc_resp(&m);
                if b.len() > 60 {
                    continue;
                }
                for i in 0..b.len() {
                    for v in 0..=255u8 {
                        let mut x = b.clone();
                        x[i] = v;
                        // Lengths that claim gigabytes are as good as
                        // any other too great one.
                        let n = x.len();
                        w.case(|| show(&x), |st| {
                            malformed(&x, &[n], st)?;
                            malformed(&x, &[n / 2, n - 1, n], st)
                        });
                    }
                    let mut x = b.clone();
                    x.remove(i);
                    let n = x.len();
                    w.case(|| show(&x), |st| malformed(&x, &[n], st));
                }
            }
        })
        .sub("after_an_error", move |w| {
            // A decoder that has rejected something still doesn't panic.
            let bad: Vec<Vec<u8>> = vec![
                b"\0\0\0\x01\x0a".to_vec(),
                b"\0\0\0\x02\x08\x09".to_vec(),
                b"\0\0\0\x02\x09\x09".to_vec(),
                b"\0\0\0\x06\x07\0\0\0\x01\xff".to_vec(),
            ];
            for x in &bad {
                for v in values(0) {
                    w.case(|| show(x), |st| {
                        st.transitions += 1;
                        let mut ctx = RespContext::new();
                        let r = ctx.feed(x);
                        ensure!(r.is_err(), "{} isn't rejected", show(x));
                        let y = enc_resp(&MResp::Val(v.clone()));
                        let mut ctx = RespContext::new();
                        deliver(&mut ctx, &MResp::Val(v.clone()), &y, &[y.len()], b"", st)
                    });
                }
            }
        })
}

/// The arguments a value gives, and whether it is refused.
fn value_args(v: &MVal, room: usize) -> Result<usize, (RequestBuilderError, Option<usize>)> {
    let n = args_of(v).len();
    let too_many = n > room;
    match v {
        MVal::Bytes(b) if b.is_empty() => Err((RequestBuilderError::ValueEmpty, Some(0))),
        MVal::Str(b) if b.is_empty() => Err((RequestBuilderError::ValueEmpty, Some(0))),
        MVal::Map(_) | MVal::Set(_) if n == 0 => Err((RequestBuilderError::ValueEmpty, Some(0))),
        _ if too_many => Err((RequestBuilderError::TooManyArguments, Some(0))),
        MVal::List(l) if l.iter().any(|x| x.is_empty()) => Err((RequestBuilderError::ValueEmpty, None)),
        _ => Ok(n),
    }
}

enum Call {
    Bytes(Vec<u8>),
    Val(MVal),
}

fn show_call(c: &Call) -> String {
    match c {
        Call::Bytes(b) => format!("bytes {}", show(b)),
        Call::Val(v) => format!("value {}", v.show()),
    }
}

/// One call on the builder, of which `have` arguments are known.
fn call(b: &mut RequestBuilder, have: &mut Vec<Vec<u8>>, op: Op, c: &Call, st: &mut Stats) -> Res {
    st.transitions += 1;
    let room = if op.is_simple() { 0 } else { 255 - have.len() };
    let (got, want) = match c {
        Call::Bytes(x) => (
            b.bytes(x.as_slice()).map(|_| ()),
            if x.is_empty() {
                Err((RequestBuilderError::ArgumentEmpty, Some(0)))
            } else if room == 0 {
                Err((RequestBuilderError::TooManyArguments, Some(0)))
            } else {
                Ok(1)
            },
        ),
        Call::Val(v) => (b.value(value(v)).map(|_| ()), value_args(v, room)),
    };
    let what = || format!("`{}` with {} arguments", show_call(c), have.len());
    // A map or set with an empty part may be refused; else it has all of its arguments.
    let loose = got.is_err() && want.is_ok() && matches!(c, Call::Val(v @ (MVal::Map(_) | MVal::Set(_))) if args_of(v).iter().any(|x| x.is_empty()));
    match (&got, &want) {
        (Ok(()), Ok(_)) => {}
        (Err(RequestBuilderError::ValueEmpty | RequestBuilderError::ArgumentEmpty), _) if loose => {}
        // Full and empty at once may be told either way.
        (Err(a), Err((b, _))) if a == b => {}
        (Err(_), Err(_)) if room == 0 => {}
        _ => return Err(format!("{} gave {:?}, expected {:?}", what(), got, want.map_err(|e| e.0)).into()),
    }
    // What it carries now, as its bytes and as its count say.
    let r = b.clone().into_request();
    let bytes = r.as_bytes().to_vec();
    let c2 = match parse_req(&bytes) {
        ReqParse::Done(c2, n) if n == bytes.len() => c2,
        o => return Err(format!("{} left a malformed request: {:?}", what(), o).into()),
    };
    says(&r, &c2, &bytes, "built")?;
    ensure!(c2.args.starts_with(have), "{} changed the arguments before it", what());
    let added = &c2.args[have.len()..];
    match (&want, c) {
        (_, Call::Val(v)) if loose => {
            let all = args_of(v);
            ensure!(added.len() < all.len() && added.iter().all(|x| !x.is_empty() && all.contains(x)), "{} failed but added other arguments", what());
        }
        (Ok(_), Call::Bytes(x)) => ensure!(added == [x.clone()], "{} added {} arguments", what(), added.len()),
        (Ok(n), Call::Val(v)) => {
            ensure!(added.len() == *n, "{} added {} arguments", what(), added.len());
            match v {
                MVal::Map(_) | MVal::Set(_) => {
                    let back = parse_value(v.ty(), added);
                    ensure!(back.as_ref().map_or(false, |b| b.same_bits(v)), "{} added {}", what(), show_res(&back));
                }
                _ => ensure!(added == &args_of(v)[..], "{} added other arguments", what()),
            }
        }
        (Err((_, Some(n))), _) => ensure!(added.len() == *n, "{} failed but added {} arguments", what(), added.len()),
        (Err((_, None)), Call::Val(v)) => {
            // A list with an empty item: the items before it may have gone in.
            let good: Vec<Vec<u8>> = args_of(v).into_iter().take_while(|x| !x.is_empty()).collect();
            ensure!(good.starts_with(added), "{} failed but added other arguments", what());
        }
        _ => unreachable!(),
    }
    *have = c2.args;
    st.state(h64(&bytes));
    Ok(())
}

pub fn c14(t: Tier) -> Check {
    let counted = |n: usize| -> Vec<MVal> {
        let b = |i: usize| format!("i{}", i).into_bytes();
        vec![
            MVal::List((0..n).map(b).collect()),
            MVal::Set((0..n).map(b).collect()),
            MVal::Map((0..n).map(|i| (b(i), b(i + 1))).collect()),
        ]
    };
    Check::new("calls on a request builder that already has arguments; states: distinct requests built")
        .sub("every_value_at_every_fill", move |w| {
            let mut calls: Vec<Call> = vec![Call::Bytes(vec![]), Call::Bytes(b"x".to_vec()), Call::Bytes(blob(70000, 2))];
            for i in 0..2 {
                calls.extend(values(i).into_iter().map(Call::Val));
            }
            let some = |n: usize, m: usize| (0..n).map(move |i| if i == m { vec![] } else { format!("i{}", i).into_bytes() });
            for n in [1usize, 2, 3, 64, 127, 128, 255, 256] {
                for m in [0, n / 2, n - 1] {
                    calls.push(Call::Val(MVal::Set(some(n, m).collect())));
                    calls.push(Call::Val(MVal::Map(some(n, m).zip(some(n, n)).collect())));
                    calls.push(Call::Val(MVal::Map(some(n, n).zip(some(n, m)).collect())));
                }
            }
            calls.extend([MVal::Bytes(vec![]), MVal::Str(String::new())].map(Call::Val));
            for n in [0usize, 1, 2, 3, 63, 64, 126, 127, 128, 129, 253, 254, 255, 256, 257, 300, 511, 512] {
                calls.extend(counted(n).into_iter().map(Call::Val));
            }
            for i in 0..3 {
                let mut l = ls(&[b"x", b"y", b"z"]);
                l[i].clear();
                calls.push(Call::Val(MVal::List(l)));
            }
            let fills: Vec<usize> = t.pick(
                vec![0, 1, 2, 3, 126, 127, 128, 129, 250, 251, 252, 253, 254, 255],
                (0..=255).collect(),
            );
            for op in [Op::Set, Op::Exists, Op::Echo, Op::Stats] {
                for ty in [None, Some(T_MAP)] {
                    for fill in &fills {
                        if op.is_simple() && *fill > 0 {
                            continue;
                        }
                        for c in &calls {
                            w.case(
                                || format!("{} {:?} with {} arguments: {}", op.name(), ty, fill, show_call(c)),
                                |st| {
                                    let head = Cmd { op, ty, args: (0..*fill).map(|i| blob(1 + i % 2, i)).collect() };
                                    let mut b = build(&head)?;
                                    let mut have = head.args.clone();
                                    call(&mut b, &mut have, op, c, st)?;
                                    let mut again = RequestBuilder::from(b.clone().into_request());
                                    // It goes on as before, also when made of the request so far.
                                    call(&mut again, &mut have.clone(), op, &Call::Bytes(b"end".to_vec()), st)?;
                                    call(&mut b, &mut have, op, &Call::Bytes(b"end".to_vec()), st)?;
                                    call(&mut b, &mut have, op, &Call::Val(MVal::Int(7)), st)
                                },
                            );
                        }
                    }
                }
            }
        })
        .sub("all_sequences_of_calls", move |w| {
            let mut calls = vec![
                Call::Bytes(vec![]),
                Call::Bytes(b"k".to_vec()),
                Call::Val(MVal::Int(1)),
                Call::Val(MVal::Bytes(vec![])),
                Call::Val(MVal::List(vec![])),
                Call::Val(MVal::List(ls(&[b"a", b"", b"c"]))),
                Call::Val(MVal::Map(Default::default())),
            ];
            calls.extend(counted(1).into_iter().map(Call::Val));
            calls.extend(counted(85).into_iter().map(Call::Val));
            calls.extend(counted(127).into_iter().map(Call::Val));
            for ty in [None, Some(T_SET)] {
                for n in 1..=t.pick(3, 4) {
                    sequences(calls.len(), n, |ix| {
                        w.case(
                            || ix.iter().map(|i| show_call(&calls[*i])).collect::<Vec<_>>().join("; "),
                            |st| {
                                let mut b = build(&Cmd { op: Op::Set, ty, args: vec![] })?;
                                let mut have = vec![];
                                for i in ix {
                                    call(&mut b, &mut have, Op::Set, &calls[*i], st)?;
                                }
                                Ok(())
                            },
                        );
                    });
                }
            }
        })
        .sub("contents", move |w| {
            for c in contents(t == Tier::Thorough) {
                let mut calls: Vec<Call> = values_with(&c).into_iter().map(Call::Val).collect();
                calls.push(Call::Bytes(c.clone()));
                for op in [Op::Set, Op::Echo] {
                    for ty in [None, Some(T_STR)] {
                        for x in &calls {
                            w.case(
                                || format!("{} {:?}: {}, twice", op.name(), ty, show_call(x)),
                                |st| {
                                    let mut b = build(&Cmd { op, ty, args: vec![] })?;
                                    let mut have = vec![];
                                    call(&mut b, &mut have, op, x, st)?;
                                    call(&mut b, &mut have, op, &Call::Bytes(b"k".to_vec()), st)?;
                                    call(&mut b, &mut have, op, x, st)
                                },
                            );
                        }
                    }
                }
            }
        })
        .sub("every_count", move |w| {
            for op in OPS {
                for ty in all_types() {
                    w.case(
                        || format!("{} {:?}: 260 arguments one by one", op.name(), ty),
                        |st| {
                            let mut b = build(&Cmd { op, ty, args: vec![] })?;
                            let mut have = vec![];
                            for i in 0..260 {
                                call(&mut b, &mut have, op, &Call::Bytes(blob(1 + i % 3, i)), st)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        })
}

pub fn sample_floats() -> Vec<Vec<u8>> {
    vec![fbe(1.0), be(1)]
}
