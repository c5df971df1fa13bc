//! C27, C28: command lines.
use crate::calls::*;
use crate::engine::*;
use crate::eng::*;
use hop::backend::MemoryBackend;
use hop::Client;
use hop_cli::{parse, process, ParseError, ProcessError};
use mc::*;

/// The reference parser of lines.
#[derive(Clone, Debug, PartialEq)]
pub enum PErr {
    Invalid(String, u8),
    Build(u8),
    Command(String),
    Key,
    Map(String),
    NoCommand,
}

fn type_of(s: &str) -> Option<u8> {
    Some(match s {
        "bool" | "boolean" => T_BOOL,
        "bytes" => T_BYTES,
        "float" => T_FLOAT,
        "int" | "integer" => T_INT,
        "list" => T_LIST,
        "map" => T_MAP,
        "set" => T_SET,
        "str" | "string" => T_STR,
        _ => return None,
    })
}

fn keys_of(op: Op) -> usize {
    match op {
        Op::Echo | Op::Stats => 0,
        Op::Exists | Op::Is => usize::MAX,
        Op::Rename => 2,
        _ => 1,
    }
}

pub fn line(s: &str) -> Result<Cmd, PErr> {
    let words: Vec<&str> = s.split(' ').collect();
    let name = words[0];
    if name.is_empty() {
        return Err(PErr::NoCommand);
    }
    let by_name = |n: &str| OPS.iter().copied().find(|o| o.name() == n);
    let (op, ty) = match by_name(name) {
        Some(op) => (op, None),
        None => name
            .rfind(':')
            .and_then(|i| Some((by_name(&name[..i])?, Some(type_of(&name[i + 1..])?))))
            .ok_or_else(|| PErr::Command(name.into()))?,
    };
    let words = &words[1..];
    if words.is_empty() {
        return Ok(Cmd { op, ty, args: vec![] });
    }
    let n = keys_of(op).min(if keys_of(op) == usize::MAX { words.len() } else { keys_of(op) });
    if words.len() < n {
        return Err(PErr::Key);
    }
    let mut args: Vec<Vec<u8>> = words[..n].iter().map(|w| w.as_bytes().to_vec()).collect();
    let rest = &words[n..];
    for (i, w) in rest.iter().enumerate() {
        let bad = |t| PErr::Invalid(w.to_string(), t);
        args.push(match ty {
            Some(T_BOOL) => vec![match *w {
                "true" => 1,
                "false" => 0,
                _ => return Err(bad(T_BOOL)),
            }],
            Some(T_FLOAT) => fbe(w.parse::<f64>().map_err(|_| bad(T_FLOAT))?),
            Some(T_INT) => be(w.parse::<i64>().map_err(|_| bad(T_INT))?),
            Some(T_MAP) if i % 2 == 0 && i + 1 == rest.len() => return Err(PErr::Map(w.to_string())),
            _ => w.as_bytes().to_vec(),
        });
    }
    for (i, a) in args.iter().enumerate() {
        if a.is_empty() {
            return Err(PErr::Build(0));
        }
        if i >= 255 || op.is_simple() {
            return Err(PErr::Build(1));
        }
    }
    Ok(Cmd { op, ty, args })
}

fn perr(e: ParseError) -> PErr {
    match e {
        ParseError::ArgumentInvalid { argument, key_type } => PErr::Invalid(argument, kt_num(key_type)),
        ParseError::BuildingRequest { source } => PErr::Build(build_num(&source)),
        ParseError::InvalidCommandType { provided_name } => PErr::Command(provided_name),
        ParseError::KeyUnspecified => PErr::Key,
        ParseError::MapIncomplete { key } => PErr::Map(key),
        ParseError::NoCommandProvided => PErr::NoCommand,
    }
}

fn judge(s: &str, st: &mut Stats) -> Res {
    st.transitions += 1;
    let want = line(s);
    let got = match guarded(|| {
        parse(s).map(|r| {
            let n = r.arg_count();
            let args: Vec<Vec<u8>> = (0..n).filter_map(|i| r.arg(i).map(|a| a.to_vec())).collect();
            let key = r.key().map(|k| k.to_vec());
            (n, key, Cmd { op: Op::of(r.command_id() as u8).unwrap(), ty: r.key_type().map(kt_num), args })
        })
    })? {
        Ok((n, key, c)) => {
            ensure!(n == c.args.len(), "{} arguments, of which {} can be had", n, c.args.len());
            let k = if keys_of(c.op) == 0 { None } else { c.args.first() };
            ensure!(key.as_ref() == k, "the key of `{}` is {:?}", c.show(), key);
            Ok(c)
        }
        Err(e) => Err(perr(e)),
    };
    // A lone command that needs a key may be refused here or by the engine.
    if let (Ok(c), Err(PErr::Key)) = (&want, &got) {
        if c.args.is_empty() && keys_of(c.op) > 0 {
            return Ok(());
        }
    }
    ensure!(got == want, "parsed to {}, expected {}", show_p(&got), show_p(&want));
    st.outcome(show_p(&got).as_bytes());
    Ok(())
}

fn show_p(r: &Result<Cmd, PErr>) -> String {
    match r {
        Ok(c) => format!("`{}`", c.show()),
        Err(e) => format!("{:?}", e),
    }
}

const SUFFIXES: [&str; 24] = [
    "", ":bool", ":boolean", ":bytes", ":float", ":int", ":integer", ":list", ":map", ":set", ":str", ":string", ":", ":by",
    ":by:int", ":int:int", "::int", ":Int", ":int ", ":ints", ":number", ":bool:", ":s", ":stringy",
];

fn heads() -> Vec<String> {
    let mut v = vec![];
    for op in OPS {
        for s in SUFFIXES {
            v.push(format!("{}{}", op.name(), s));
        }
    }
    for s in ["", ":", ":int", "Set", "sets", "se", "get:get", "echo:echo", "in\u{441}rement", "\u{e9}", "\tset", "set\t", "set\n", "-", "increment.by", "increment:by:", "increment:by:by"] {
        v.push(s.into());
    }
    v
}

const WORDS: [&str; 12] = ["a", "bb", "1", "-5", "1.5", "true", "false", "", "\u{e9}", "a:int", "x\ty", "__hop__"];

const NUMBERS: [&str; 60] = [
    "0", "-0", "+7", "007", "1e3", "1e400", "-1e400", "1e-400", ".5", "5.", ".", "-", "+", "--1", "1_000", "1,5", "0x1", "1f", "inf", "-inf",
    "infinity", "NaN", "nan", "-nan", "INF", "Infinity", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
    "-9223372036854775809", "4.9e-324", "2e-324", "1.7976931348623157e308", "1.7976931348623159e308", "0.1", "123456789012345678901234567890",
    "true", "false", "True", "TRUE", "yes", "t", "1 ", "\u{661}", "1\t", "\t1", "1\n", "é", "true\n", "0.30000000000000004", "1e", "e1", "1e+5",
    "1E5", "1e5.0", "00", "-00.0", "1-", "10000000000000000000000", "9007199254740993",
];

pub fn c27(t: Tier) -> Check {
    Check::new("a command line")
        .sub("heads_and_words", move |w| {
            for h in heads() {
                for n in 0..=t.pick(3, 4) {
                    sequences(WORDS.len(), n, |ix| {
                        let mut s = h.clone();
                        for i in ix {
                            s.push(' ');
                            s.push_str(WORDS[*i]);
                        }
                        w.case(|| format!("{:?}", s), |st| judge(&s, st));
                    });
                }
            }
        })
        .sub("numbers", move |w| {
            for op in OPS {
                for s in SUFFIXES {
                    for n in NUMBERS {
                        for l in [
                            format!("{}{} k {}", op.name(), s, n),
                            format!("{}{} {}", op.name(), s, n),
                            format!("{}{} k {} {}", op.name(), s, n, n),
                            format!("{}{} {} 1 {}", op.name(), s, n, n),
                        ] {
                            w.case(|| format!("{:?}", l), |st| judge(&l, st));
                        }
                    }
                }
            }
        })
        .sub("all_short_numbers", move |w| {
            let al: Vec<char> = "+-019.eE_ix".chars().collect();
            for n in 0..=t.pick(4, 5) {
                sequences(al.len(), n, |ix| {
                    let s: String = ix.iter().map(|i| al[*i]).collect();
                    for h in ["set:int k ", "set:float k ", "increment:by:int k ", "decrement:by:float k ", "set k "] {
                        let l = format!("{}{}", h, s);
                        w.case(|| format!("{:?}", l), |st| judge(&l, st));
                    }
                });
            }
            // Any number of digits, signs and zeros.
            for n in 1..=40usize {
                for s in ["0", "1", "9", "12", "+", "-", "1e", ".0", "5."] {
                    for sign in ["", "+", "-"] {
                        for tail in ["", "1", "e1", ".5"] {
                            for h in ["set:int k ", "set:float k "] {
                                let l = format!("{}{}{}{}", h, sign, s.repeat(n), tail);
                                w.case(|| format!("{:?}", l), |st| judge(&l, st));
                            }
                        }
                    }
                }
            }
        })
        .sub("all_short_lines", move |w| {
            let al: Vec<char> = "set: 1\u{e9}\ti".chars().collect();
            for n in 0..=t.pick(6, 7) {
                sequences(al.len(), n, |ix| {
                    let s: String = ix.iter().map(|i| al[*i]).collect();
                    w.case(|| format!("{:?}", s), |st| judge(&s, st));
                });
            }
        })
        .sub("spaces", move |w| {
            // A line of small words with up to two spaces in every gap.
            for h in ["set", "set:list", "set:map", "echo", "rename", "exists", "is:int", "get", "stats", "increment:by", "increment:by:int"] {
                for n in 0..=4usize {
                    sequences(3, n + 2, |gaps| {
                        let sp = |i: usize| " ".repeat(gaps[i]);
                        let mut s = sp(0) + h;
                        for i in 0..n {
                            s += " ";
                            s += &sp(i + 1);
                            s += &(i + 1).to_string();
                        }
                        s += &sp(n + 1);
                        w.case(|| format!("{:?}", s), |st| judge(&s, st));
                    });
                }
            }
        })
        .sub("blanks_and_marks", move |w| {
            // Whatever looks like a space or like nothing is part of a word.
            let odd: Vec<char> = (0..=0x2fffu32)
                .chain([0x3000, 0xfeff, 0xff0c, 0xff1a, 0xffa0, 0xe0020])
                .filter_map(char::from_u32)
                .filter(|c| c.is_whitespace() || c.is_control() || matches!(*c as u32, 0x21..=0x2f | 0x3a..=0x40 | 0x5b..=0x60 | 0x7b..=0xbf | 0x200b..=0x206f | 0x2e80.. ))
                .collect();
            for c in odd {
                for l in [
                    format!("set k{}v", c), format!("set k {}v", c), format!("set k v{}", c), format!("set{}k v", c), format!("{}set k v", c), format!("set k v {}", c),
                    format!("set k a{}b", c), format!("set{}int k 1", c), format!("set:int{} k 1", c), format!("set:int k {}1", c), format!("set:int k 1{}", c),
                    format!("set:int k 1{}000", c), format!("set:float k 1{}5", c), format!("set:float k {}1.5", c), format!("set:bool k {}true", c), format!("set:bool k true{}", c),
                    format!("set:map k a{}b c", c), format!("set:map k a{}b c{}d", c, c), format!("set:list k a{}b {}c d{}", c, c, c), format!("exists a{}b", c),
                    format!("rename a{}b c", c), format!("echo{}", c), format!("echo {}", c), format!("echo {}{}", c, c), format!("{}", c), format!("stats{}", c),
                    format!("increment{}by k 1", c), format!("increment:by:int k 1{}2", c), format!("set:str k \"a{}b\"", c), format!("get 'a{}b'", c), format!("get k # {}", c),
                ] {
                    w.case(|| format!("{:?}", l), |st| judge(&l, st));
                }
            }
        })
        .sub("contents", move |w| {
            for c in contents(t == Tier::Thorough) {
                let Ok(x) = String::from_utf8(c) else { continue };
                for h in ["set", "set:str", "set:map", "set:int", "set:float", "set:bool", "append:list", "echo", "rename", "exists", "increment:by:float", "get"] {
                    for l in [format!("{} {}", h, x), format!("{} a {}", h, x), format!("{} {} {}", h, x, x), format!("{} a {} b {}", h, x, x)] {
                        w.case(|| format!("{:?}", l), |st| judge(&l, st));
                    }
                }
                for l in [x.clone(), format!("{}get a", x), format!("get{} a", x), format!("get{}a", x), format!("set:int{} a 1", x), format!("set:{}int a 1", x)] {
                    w.case(|| format!("{:?}", l), |st| judge(&l, st));
                }
            }
        })
        .sub("many_words", move |w| {
            for h in ["set:list", "set:map", "set:set", "set", "set:int", "echo", "echo:int", "exists", "is:int", "rename", "get", "stats", "append:list", "increment:by"] {
                for n in (0..=12).chain(120..=130).chain(250..=260) {
                    let l = h.to_string() + &" 1".repeat(n);
                    w.case(|| format!("{} with {} words", h, n), |st| judge(&l, st));
                    let l2 = l.clone() + " ";
                    w.case(|| format!("{} with {} words and a space", h, n), |st| judge(&l2, st));
                }
                for n in [100, 255, 256, 257, 65_535, 65_536, 70_000] {
                    let l = format!("{} {} {}", h, "k".repeat(n), "1".repeat(n));
                    w.case(|| format!("{} with words of {} letters", h, n), |st| judge(&l, st));
                }
            }
        })
}

// ---------------------------------------------------------------- C28

fn message(e: u8) -> &'static str {
    match e {
        E_ARGUMENT => "Too few arguments were provided for this command.",
        E_KEY_UNSPECIFIED => "Specifying a key is required.",
        E_TYPE_DIFFERENT => "The type of the key is different than specified by the command.",
        E_TYPE_UNEXPECTED => "A key type was specified when the command can't be given one.",
        E_PRECONDITION => "A precondition failed, such as the key not existing.",
        E_NONEXISTENT => "The specified key does not exist.",
        E_TYPE_REQUIRED => "A key type was required but one was not specified.",
        _ => "A key type was provided that isn't supported by the command.",
    }
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn perms(v: &[String]) -> Vec<String> {
    if v.len() <= 1 {
        return vec![v.join("\n")];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for p in perms(&rest) {
            out.push(format!("{}\n{}", x, p));
        }
    }
    out
}

/// What a value may look like when printed.
fn printed(v: &MVal, ordered: bool) -> Vec<String> {
    match v {
        MVal::Bytes(b) => vec![lossy(b)],
        MVal::Bool(b) => vec![b.to_string()],
        MVal::Float(f) => vec![f.to_string()],
        MVal::Int(i) => vec![i.to_string()],
        MVal::Str(s) => vec![s.clone()],
        MVal::List(l) if ordered => vec![l.iter().map(|x| lossy(x)).collect::<Vec<_>>().join("\n")],
        MVal::List(l) => perms(&l.iter().map(|x| lossy(x)).collect::<Vec<_>>()),
        MVal::Map(m) => perms(&m.iter().map(|(k, v)| format!("{}={}", lossy(k), lossy(v))).collect::<Vec<_>>()),
        MVal::Set(s) => perms(&s.iter().map(|x| lossy(x)).collect::<Vec<_>>()),
    }
}

/// What may be printed for a command in a state, with the state afterwards.
/// The number of failed commands may or may not count one refused up front.
fn outcomes(c: &Cmd, m: &MState) -> Vec<(Vec<String>, MState)> {
    let run = |c: &Cmd| {
        let mut m = m.clone();
        let r = m.apply(c);
        let p = match (&r, c.op) {
            (Err(e), _) => vec![message(*e).to_string()],
            (Ok(MVal::Int(t)), Op::Type) => vec![ty_name(*t as u8).to_string()],
            (Ok(v), Op::Keys) => printed(v, false),
            (Ok(MVal::List(l)), Op::Echo) => vec![l.iter().map(|x| lossy(x)).collect::<Vec<_>>().join(" ")],
            (Ok(_), Op::Stats) => vec![],
            (Ok(v), _) => printed(v, true),
        };
        (p, m)
    };
    let mut v = vec![run(c)];
    let none = Cmd { ty: None, ..c.clone() };
    use Op::*;
    // A type given to a command that takes none may be ignored.
    if c.ty.is_some() && matches!(c.op, Get | Delete | Exists | Keys | Rename | Type | Stats) {
        v.push(run(&none));
    }
    // Of a type that can't be counted in.
    if matches!(c.op, Increment | Decrement) && !matches!(c.ty, None | Some(T_INT) | Some(T_FLOAT)) {
        v = vec![(vec![message(E_TYPE_INVALID).into()], m.clone()), (vec![message(E_TYPE_DIFFERENT).into()], m.clone())];
        if c.args.is_empty() {
            v.push((vec![message(E_KEY_UNSPECIFIED).into()], m.clone()));
        }
    }
    if matches!(c.op, Exists | Is) && c.args.is_empty() {
        for t in [message(E_KEY_UNSPECIFIED), "A minimum of at least one key or more is required.", message(E_ARGUMENT)] {
            v.push((vec![t.into()], m.clone()));
        }
    }
    if c.op == Rename && c.args.len() < 2 {
        for t in ["The destination key name is required.", "The source key name is required.", message(E_KEY_UNSPECIFIED)] {
            v.push((vec![t.into()], m.clone()));
        }
    }
    v
}

/// The commands the interface doesn't run.
fn unsupported(c: &Cmd) -> Option<&'static str> {
    matches!(c.op, Op::Append | Op::DecrementBy | Op::IncrementBy | Op::Length | Op::Set).then(|| c.op.name())
}

fn session(setup: &[Call], lines: &[&str], uni: &[Vec<u8>], st: &mut Stats) -> Res {
    let client: Client<MemoryBackend> = Client::memory();
    let mut m = MState::default();
    let call = |c: &Call| guarded(|| at_once(on_client(&client, c))).and_then(|r| r);
    for c in setup {
        let want = c.expect(&mut m);
        let got = call(c)?;
        ensure!(c.agrees(&want, &got), "{} gave {}", c.show(), show_out(&got));
    }
    // Commands that certainly count as failed, and that may.
    let (mut ok, mut err_min, mut err_max) = (m.ok, 0, 0);
    for l in lines {
        st.transitions += 1;
        let want = line(l);
        let got = match guarded(|| at_once(process(&client, l))).and_then(|r| r) {
            Ok(r) => r,
            Err(p) => {
                let msg = format!("`{}` in {} {}", l, m.show(), p);
                return Err(match want.as_ref().ok().and_then(unsupported) {
                    Some(n) => Fail::known(format!("cli:{}", n), msg),
                    None => Fail::from(msg),
                });
            }
        };
        match (want, got) {
            (Err(e), Err(ProcessError::ParsingInput { source })) => {
                let got = perr(source);
                ensure!(got == e, "`{}` was refused with {:?}, expected {:?}", l, got, e);
            }
            (Ok(c), Err(ProcessError::ParsingInput { source: ParseError::KeyUnspecified })) if c.args.is_empty() && keys_of(c.op) > 0 => {}
            (Ok(c), Ok(text)) if c.op == Op::Stats => {
                if text == message(E_TYPE_UNEXPECTED) {
                    ensure!(c.ty.is_some(), "`{}` printed {:?}", l, text);
                    err_max += 1;
                    continue;
                }
                let v: Vec<&str> = text.split('\n').collect();
                let num = |i: usize, p: &str| v.get(i).and_then(|s| s.strip_prefix(p)).and_then(|s| s.parse::<u64>().ok());
                let e = num(1, "Commands errored: ");
                ensure!(
                    v.len() == 4
                        && num(0, "Commands successful: ") == Some(ok)
                        && e.map_or(false, |e| e >= err_min && e <= err_max)
                        && num(2, "Sessions started: ") == Some(0)
                        && num(3, "Sessions ended: ") == Some(0),
                    "`{}` printed {:?}, expected {} successful and {} to {} failed", l, text, ok, err_min, err_max
                );
                ok += 1;
            }
            (Ok(c), Ok(text)) => {
                if let Op::Echo = c.op {
                    // The words may be sent in one or in several.
                    let want = c.args.iter().map(|a| lossy(a)).collect::<Vec<_>>().join(" ");
                    let want = if c.args.is_empty() { String::new() } else { want };
                    ensure!(text == want, "`{}` printed {:?}, expected {:?}", l, text, want);
                    if !c.args.is_empty() {
                        ok += 1;
                    }
                    continue;
                }
                let all = outcomes(&c, &m);
                let Some((_, after)) = all.iter().find(|(p, _)| p.iter().any(|p| *p == text)) else {
                    return Err(format!("`{}` in {} printed {:?}, expected one of {:?}", l, m.show(), text, all.iter().map(|x| &x.0).collect::<Vec<_>>()).into());
                };
                if after.ok > m.ok {
                    ok += 1;
                } else {
                    err_max += 1;
                    // What only the engine can know failed there.
                    if text == message(E_NONEXISTENT) || text == message(E_PRECONDITION) {
                        err_min += 1;
                    }
                }
                m = after.clone();
                st.outcome(text.as_bytes());
            }
            (want, got) => {
                return Err(format!("`{}` gave {}, expected {}", l, show_g(&got), show_p(&want)).into());
            }
        }
    }
    let on = &client;
    let mut d = MState::default();
    for k in uni {
        match guarded(|| at_once(on_client(on, &Call::Get(k.clone(), None, false)))).and_then(|r| r)? {
            Ok(v) => {
                d.keys.insert(k.clone(), v);
            }
            Err(CErr::Run(E_NONEXISTENT)) => {}
            Err(e) => return Err(format!("get failed: {:?}", e).into()),
        }
    }
    ensure!(d.same_keys(&m), "afterwards the data is {}, expected {}", d.show(), m.show());
    st.state(h64(&m.canon()));
    Ok(())
}

fn show_g(r: &Result<std::borrow::Cow<'static, str>, ProcessError<MemoryBackend>>) -> String {
    match r {
        Ok(s) => format!("{:?}", s),
        Err(e) => format!("the error {:?}", e),
    }
}

pub fn c28(t: Tier) -> Check {
    Check::new("a session: data set up through the client, then lines; states: the data afterwards")
        .sub("every_line_in_every_state", move |w| {
            let uni = ls(&[b"a", b"bb", b"c", "\u{e9}".as_bytes(), b"b", b"\t", "\u{a0}".as_bytes()]);
            let mut vals = values(0);
            vals.extend(values(1));
            vals.extend([
                MVal::Float(1e21),
                MVal::Float(0.1),
                MVal::Float(f64::NAN),
                MVal::Float(f64::NEG_INFINITY),
                MVal::Int(i64::MIN),
                MVal::Int(i64::MAX),
                MVal::Str("two\nlines".into()),
                MVal::List(ls(&[b"one", b"t\xffwo", b"three\n"])),
                MVal::Set([b"one".to_vec(), b"two".to_vec(), b"t\xff".to_vec()].into_iter().collect()),
                MVal::Map([(b"k1".to_vec(), b"v1".to_vec()), (b"k2".to_vec(), b"".to_vec()), (b"".to_vec(), b"v=3".to_vec())].into_iter().collect()),
            ]);
            let mut setups = vec![vec![]];
            for v in &vals {
                setups.push(vec![Call::SetValue(b"a".to_vec(), v.clone())]);
                setups.push(vec![Call::SetValue(b"a".to_vec(), v.clone()), Call::SetValue(b"bb".to_vec(), MVal::Int(2))]);
            }
            let words: [&str; 18] =
                ["", " a", " bb", " c", " a bb", " a c", " a a", " bb a", " c a bb", " a  b", " ", " a b c d", " \u{e9} x", "  ", "    ", "  \t ", " \t", " \t \u{a0}"];
            for s in &setups {
                for op in OPS {
                    for suf in ["", ":bool", ":bytes", ":float", ":int", ":list", ":map", ":set", ":str", ":nothing"] {
                        for x in words {
                            let l = format!("{}{}{}", op.name(), suf, x);
                            w.case(
                                || format!("{} / {:?}", s.iter().map(|c| c.show()).collect::<Vec<_>>().join("; "), l),
                                |st| session(s, &[&l], &uni, st),
                            );
                        }
                    }
                }
            }
        })
        .sub("all_sessions", move |w| {
            let uni = ls(&[b"a", b"bb"]);
            let lines = [
                "increment a", "increment:float a", "decrement:int a", "decrement bb", "delete a", "rename a bb", "rename bb a", "get a",
                "get bb", "type a", "exists a bb", "is:int a", "keys a", "stats", "echo x  y", "nonsense", "rename a",
            ];
            let setups = [
                vec![],
                vec![Call::SetValue(b"a".to_vec(), MVal::Float(1.5))],
                vec![Call::SetValue(b"a".to_vec(), values(0)[6].clone()), Call::SetValue(b"bb".to_vec(), MVal::Int(1))],
            ];
            for s in &setups {
                for n in 2..=t.pick(3, 4) {
                    sequences(lines.len(), n, |ix| {
                        let h: Vec<&str> = ix.iter().map(|i| lines[*i]).collect();
                        w.case(|| format!("{:?}", h), |st| session(s, &h, &uni, st));
                    });
                }
            }
        })
        .sub("all_short_lines", move |w| {
            let uni = ls(&[b"a"]);
            let al: Vec<char> = "geti: a\u{e9}".chars().collect();
            let s = vec![Call::SetValue(b"a".to_vec(), MVal::Int(3))];
            for n in 0..=t.pick(5, 6) {
                sequences(al.len(), n, |ix| {
                    let l: String = ix.iter().map(|i| al[*i]).collect();
                    w.case(|| format!("{:?}", l), |st| session(&s, &[&l], &uni, st));
                });
            }
        })
        .sub("contents", move |w| {
            for c in contents(t == Tier::Thorough) {
                let uni = if c.starts_with(b"__hop__:") { vec![b"a".to_vec()] } else { vec![b"a".to_vec(), c.clone()] };
                for v in values_with(&c) {
                    let s = vec![Call::SetValue(b"a".to_vec(), v.clone())];
                    for l in ["get a", "keys a", "type a"] {
                        w.case(|| format!("{:?} of {}", l, v.show()), |st| session(&s, &[l], &uni, st));
                    }
                }
                let Ok(x) = String::from_utf8(c) else { continue };
                if x.starts_with("__hop__:") {
                    continue;
                }
                let s = vec![Call::SetValue(b"a".to_vec(), MVal::Int(3))];
                // a line is split at its spaces, so any of the words may be a key
                let mut uni = uni;
                uni.extend(x.split(' ').filter(|p| !p.is_empty() && !p.starts_with("__hop__:")).map(|p| p.as_bytes().to_vec()));
                uni.sort();
                uni.dedup();
                let lines = [
                    format!("echo {} x {}", x, x),
                    format!("increment {}", x),
                    format!("exists {} a", x),
                    format!("is:int a {}", x),
                    format!("rename a {}", x),
                    format!("get {}", x),
                    format!("delete {}", x),
                ];
                let lines: Vec<&str> = lines.iter().map(|l| &l[..]).collect();
                w.case(|| format!("{:?}", lines), |st| session(&s, &lines, &uni, st));
                for i in 0..lines.len() {
                    w.case(|| format!("{:?}", lines[i]), |st| session(&s, &lines[i..=i], &uni, st));
                }
            }
        })
        .sub("items", move |w| {
            // Sets and maps come in an order of their own, so what is printed first differs.
            let uni = ls(&[b"a"]);
            let al = ls(&[b"", b"a", b"\n", b" ", b"=", b"b=c", "\u{e9}\u{20ac}".as_bytes(), b"\xff", b"-", b"1.50"]);
            for n in 1..=t.pick(4, 5) {
                sequences(al.len(), n, |ix| {
                    if ix.windows(2).any(|p| p[0] >= p[1]) {
                        return;
                    }
                    let items: Vec<Vec<u8>> = ix.iter().map(|i| al[*i].clone()).collect();
                    let map = |f: &dyn Fn(&Vec<u8>) -> Vec<u8>| MVal::Map(items.iter().map(|x| (x.clone(), f(x))).collect());
                    for v in [MVal::Set(items.iter().cloned().collect()), map(&|_| vec![]), map(&|x| x.clone()), map(&|_| b"\n".to_vec())] {
                        let s = vec![Call::SetValue(b"a".to_vec(), v.clone())];
                        w.case(|| format!("get, keys of {}", v.show()), |st| session(&s, &["get a", "keys a", "get a", "keys a"], &uni, st));
                    }
                    if !items.contains(&vec![]) {
                        let v = MVal::List(items.clone());
                        let s = vec![Call::SetValue(b"a".to_vec(), v.clone())];
                        w.case(|| format!("get of {}", v.show()), |st| session(&s, &["get a", "keys a"], &uni, st));
                    }
                });
            }
        })
        .sub("number_of_words", move |w| {
            let uni = ls(&[b"a"]);
            let s = vec![Call::SetValue(b"a".to_vec(), MVal::Int(3))];
            for n in 0..=260usize {
                for h in ["exists", "is:int", "echo", "get"] {
                    let l = h.to_string() + &" a".repeat(n);
                    w.case(|| format!("{} with {} words", h, n), |st| session(&s, &[&l], &uni, st));
                    // One that makes the difference.
                    for at in [0, n / 2, n.saturating_sub(1)] {
                        if n > 0 {
                            let l = format!("{}{} c{}", h, " a".repeat(at), " a".repeat(n - 1 - at));
                            w.case(|| format!("{} with {} words, another at {}", h, n, at), |st| session(&s, &[&l], &uni, st));
                        }
                    }
                }
            }
        })
        .sub("big_values", move |w| {
            let uni = ls(&[b"a"]);
            for v in [
                MVal::List((0..250).map(|i| format!("item{}", i).into_bytes()).collect()),
                MVal::Bytes(vec![b'x'; 100_000]),
                MVal::List(vec![vec![b'y'; 40_000], vec![], vec![b'z'; 300]].into_iter().filter(|x| !x.is_empty()).collect()),
                MVal::Str("\u{e9}".repeat(40_000)),
            ] {
                let s = vec![Call::SetValue(b"a".to_vec(), v.clone())];
                for l in ["get a", "get:list a", "type a"] {
                    w.case(|| format!("{:?} of {}", l, v.show()), |st| session(&s, &[l], &uni, st));
                }
            }
        })
}
