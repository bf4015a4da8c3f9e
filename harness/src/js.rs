//! The JavaScript clients: the real TypeScript is bundled with stand-ins for its libraries and asked,
//! one request per line, what it builds, serialises and reads (`js/driver.cjs`).

use crate::{
    bridge::BRIDGE,
    en_ext::{Prop, Val},
    explore::{Found, Stats},
    keys::*,
    op::*,
    proxy::{self, PROXY},
    pure::{enumerate, Tally},
    report::root,
    rules::Rule,
    scenarios::base,
    spec::*,
    view::*,
    vm::{exec, rent, Ix, Meta, World},
};
use solana_program::{pubkey::Pubkey, system_program};
use std::{
    collections::BTreeSet,
    fmt::Write as _,
    path::PathBuf,
    process::{Command, Stdio},
    str::FromStr,
    sync::atomic::{AtomicUsize, Ordering::*},
    time::{Duration, Instant},
};

// ---- asking ---------------------------------------------------------------------------------

static RUN: AtomicUsize = AtomicUsize::new(0);

pub fn repo() -> String {
    std::env::var("VP_REPO").unwrap_or_else(|_| "/repo".into())
}

/// Evaluates the requests; one answer each.
fn ask(requests: &[String]) -> Vec<String> {
    let dir = root().join("target/js");
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let run = format!("{}-{}", std::process::id(), RUN.fetch_add(1, Relaxed));
    let n = requests.len().div_ceil(crate::explore::threads()).max(50);
    let answers: Vec<Vec<String>> = std::thread::scope(|s| {
        let jobs: Vec<_> = requests
            .chunks(n)
            .enumerate()
            .map(|(i, part)| {
                let (q, a) = (dir.join(format!("{run}-{i}.q")), dir.join(format!("{run}-{i}.a")));
                s.spawn(move || one(part, q, a))
            })
            .collect();
        jobs.into_iter().map(|j| j.join().expect("driver")).collect()
    });
    answers.concat()
}

fn one(part: &[String], q: PathBuf, a: PathBuf) -> Vec<String> {
    let mut text = part.join("\n");
    text.push('\n');
    std::fs::write(&q, text).expect("requests");
    let driver = root().join("js/driver.cjs");
    let mut child = Command::new("node")
        .args(["--max-old-space-size=1500", "--stack-size=1500"])
        .arg(driver)
        .args([repo().into(), q.clone().into_os_string(), a.clone().into_os_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .expect("node");
    let (mut size, mut since) = (0, Instant::now());
    let status = loop {
        if let Some(s) = child.try_wait().expect("node") {
            break Some(s);
        }
        let now = std::fs::metadata(&a).map(|m| m.len()).unwrap_or(0);
        if now != size {
            (size, since) = (now, Instant::now());
        }
        if since.elapsed() > Duration::from_secs(90) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let got = std::fs::read_to_string(&a).unwrap_or_default();
    let _ = (std::fs::remove_file(&q), std::fs::remove_file(&a));
    let mut v: Vec<String> = got.lines().map(|s| s.to_string()).collect();
    if !got.ends_with('\n') {
        v.pop();
    }
    if status.and_then(|s| s.code()) == Some(3) {
        use std::io::Read;
        let mut e = String::new();
        let _ = child.stderr.take().map(|mut s| s.read_to_string(&mut e));
        eprintln!("{e}");
        std::process::exit(2);
    }
    if v.len() < part.len() {
        // it stopped at one request
        v.push(format!("error {}", if status.is_none() { "no answer" } else { "the process ended" }));
    }
    while v.len() < part.len() {
        v.push("missing not asked".into());
    }
    v
}

/// A request, what it is about, and the expected answer.
#[derive(Clone)]
struct Q<W> {
    ask: String,
    want: W,
    got: String,
}

impl<W: std::fmt::Debug> std::fmt::Debug for Q<W> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let cut = |s: &str| s.chars().take(1500).collect::<String>();
        write!(f, "{} -> {} (expected {:?})", cut(&self.ask), cut(&self.got), cut(&format!("{:?}", self.want)))
    }
}

fn q<W>(ask: String, want: W) -> Q<W> {
    Q { ask, want, got: String::new() }
}

fn req(e: &str) -> String {
    format!("{{\"eval\":{e}}}")
}

fn decide<W: Sync + std::fmt::Debug>(
    name: &'static str,
    tags: Tags,
    mask: Tags,
    items: impl FnOnce() -> Vec<Q<W>>,
    f: impl Fn(&Q<W>, &str, &mut Tally) -> Result<(), String> + Sync,
) -> (Stats, Vec<Found>) {
    if tags & mask == 0 {
        return Default::default();
    }
    let mut items = items();
    let requests: Vec<String> = items.iter().map(|q| q.ask.clone()).collect();
    for (q, a) in items.iter_mut().zip(ask(&requests)) {
        q.got = a;
    }
    enumerate(name, tags, mask, &items, |q, t| {
        t.state(q.ask.as_bytes());
        match q.got.split_once(' ') {
            Some(("ok", v)) => f(q, v, t),
            // something the stand-ins do not know: nothing is decided
            Some(("missing", _)) => {
                t.steps += 1;
                t.open += 1;
                Ok(())
            }
            _ => f(q, &format!("! {}", q.got), t),
        }
    })
}

// ---- values as JavaScript expressions and as the driver prints them -----------------------------

fn text(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn key(k: &Pubkey) -> String {
    format!("\"{k}\"")
}
fn signer(k: &Pubkey) -> String {
    format!("{{\"$s\":\"{k}\"}}")
}
fn hex(b: &[u8]) -> String {
    let mut o = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(o, "{x:02x}");
    }
    o
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    (s.len() % 2 == 0).then_some(())?;
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(i * 2..i * 2 + 2)?, 16).ok()).collect()
}
fn blob(b: &[u8]) -> String {
    format!("{{\"$b\":\"{}\"}}", hex(b))
}
fn num(n: u64) -> String {
    format!("{{\"$n\":\"{n}\"}}")
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
fn obj(v: &[(&str, String)]) -> String {
    format!("{{{}}}", v.iter().map(|(k, x)| format!("\"{k}\":{x}")).collect::<Vec<_>>().join(","))
}
/// Object as the driver prints it: keys in order.
fn shown(v: &[(&str, String)]) -> String {
    let mut v: Vec<_> = v.iter().collect();
    v.sort();
    format!("{{{}}}", v.iter().map(|(k, x)| format!("{k}:{x}")).collect::<Vec<_>>().join(","))
}
fn call(f: &str, args: &[String]) -> String {
    format!("{{\"$call\":\"{f}\",\"args\":[{}]}}", args.join(","))
}
fn method(on: &str, m: &str, args: &[String]) -> String {
    format!("{{\"$method\":\"{m}\",\"on\":{on},\"args\":[{}]}}", args.join(","))
}
fn field(of: &str, f: &str) -> String {
    format!("{{\"$of\":{of},\"field\":{f}}}")
}
fn get(name: &str) -> String {
    format!("{{\"$get\":\"{name}\"}}")
}
fn context(identity: &Pubkey, payer: &Pubkey, programs: bool) -> String {
    format!("{{\"$ctx\":[\"{identity}\",\"{payer}\",{programs}]}}")
}
fn opt_key(k: &Pubkey) -> String {
    if *k == Pubkey::default() {
        "null".into()
    } else {
        key(k)
    }
}
/// The roles of a mask as the client lists them.
fn roles(m: u8) -> Vec<String> {
    if m == 0 {
        return vec!["0".into()];
    }
    (0..3).filter(|i| m >> i & 1 == 1).map(|i| (i + 1).to_string()).collect()
}

const ACCOUNTS: [&str; 3] = ["Asset", "Authority", "Recipient"];

fn rule(r: &Rule) -> String {
    let keys = |k: &[Pubkey]| list(k.iter().map(key));
    match r {
        Rule::And(v) => call("and", &[list(v.iter().map(rule))]),
        Rule::Or(v) => call("or", &[list(v.iter().map(rule))]),
        Rule::Not(r) => call("not", &[rule(r)]),
        Rule::Owned(a, k) => call("ownedBy", &[text(ACCOUNTS[*a as usize]), keys(k)]),
        Rule::Key(a, k) => call("pubkeyMatch", &[text(ACCOUNTS[*a as usize]), keys(k)]),
        Rule::Empty => call("empty", &[]),
    }
}
fn rule_shown(r: &Rule) -> String {
    let keys = |k: &[Pubkey]| list(k.iter().map(key));
    let t = |s: &str| text(s);
    match r {
        Rule::And(v) => shown(&[("type", t("And")), ("constraints", list(v.iter().map(rule_shown)))]),
        Rule::Or(v) => shown(&[("type", t("Or")), ("constraints", list(v.iter().map(rule_shown)))]),
        Rule::Not(r) => shown(&[("type", t("Not")), ("constraint", rule_shown(r))]),
        Rule::Owned(a, k) => shown(&[("type", t("OwnedBy")), ("account", t(ACCOUNTS[*a as usize])), ("owners", keys(k))]),
        Rule::Key(a, k) => shown(&[("type", t("PubkeyMatch")), ("account", t(ACCOUNTS[*a as usize])), ("pubkeys", keys(k))]),
        Rule::Empty => shown(&[("type", t("Empty"))]),
    }
}

fn prop(p: &Prop) -> (String, String) {
    match p {
        Prop::T(s) => ("0".into(), text(s)),
        Prop::N(n) => ("1".into(), num(*n)),
        Prop::B(b) => ("2".into(), b.to_string()),
    }
}

/// The value as a caller writes it: 0 with the helper, 1 the typed object, 2 the helper with the
/// other kind of its arguments (bytes for a list of numbers, numbers for big integers, no default
/// spelled out).
fn expr(v: &Val, way: u8) -> Option<String> {
    let ints = |d: &[u8]| list(d.iter().map(|x| x.to_string()));
    let data = |d: &[u8]| if way == 2 { blob(d) } else { ints(d) };
    let ty = ("type", v.ty().to_string());
    let pairs = |v: &[(String, String)], b: &str| list(v.iter().map(|(x, y)| obj(&[("name", text(x)), (b, text(y))])));
    Some(match v {
        Val::Attributes(l) if way == 0 => call("attributes", &[pairs(l, "value")]),
        Val::Links(l) if way == 0 => call("links", &[pairs(l, "uri")]),
        Val::Attributes(l) if way == 1 => obj(&[ty, ("values", pairs(l, "value"))]),
        Val::Links(l) if way == 1 => obj(&[ty, ("values", pairs(l, "uri"))]),
        Val::Blob(c, d) if way != 1 => call("blob", &[text(c), data(d)]),
        Val::Blob(c, d) => obj(&[ty, ("contentType", text(c)), ("data", data(d))]),
        Val::Bucket(d) if way != 1 => call("bucket", &[data(d)]),
        Val::Bucket(d) => obj(&[ty, ("data", data(d))]),
        // the helper makes unverified creators
        Val::Creators(l) if way == 0 && l.iter().all(|c| !c.1) => {
            call("creators", &[list(l.iter().map(|c| obj(&[("address", key(&c.0)), ("share", c.2.to_string())])))])
        }
        Val::Creators(l) if way == 1 => {
            let one = |c: &(Pubkey, bool, u8)| {
                obj(&[("address", key(&c.0)), ("verified", c.1.to_string()), ("share", c.2.to_string())])
            };
            obj(&[ty, ("values", list(l.iter().map(one)))])
        }
        Val::Metadata(m) => {
            let n = ["symbol", "description", "uri", "imageUri"];
            match way {
                0 => {
                    let v: Vec<_> = n.iter().zip(m).filter_map(|(n, x)| Some((*n, text(x.as_deref()?)))).collect();
                    call("metadata", &[obj(&v)])
                }
                1 => {
                    let mut v: Vec<_> = n.iter().zip(m).map(|(n, x)| (*n, text(x.as_deref().unwrap_or("")))).collect();
                    v.push(ty);
                    obj(&v)
                }
                _ if m.iter().all(|x| x.is_none()) => call("metadata", &[]),
                _ => return None,
            }
        }
        Val::Grouping(0, m, d) if way != 1 => {
            let m = m.unwrap_or(0);
            if way == 2 && m >> 53 != 0 {
                return None;
            }
            let n = if way == 2 { m.to_string() } else { num(m) };
            match (d, way, m) {
                (None, 2, 0) => call("grouping", &[]),
                (None, 2, _) => call("grouping", &[n]),
                (None, ..) => call("grouping", &[n, "null".into()]),
                (Some(d), ..) => call("grouping", &[n, key(d)]),
            }
        }
        Val::Grouping(n, m, d) if way == 1 => obj(&[
            ty,
            ("size", num(*n)),
            ("maxSize", num(m.unwrap_or(0))),
            ("delegate", opt_key(&d.unwrap_or_default())),
        ]),
        Val::Royalties(n, r) if way == 0 => call("royalties", &[num(*n), rule(r)]),
        Val::Royalties(n, r) if way == 1 => obj(&[ty, ("basisPoints", n.to_string()), ("constraint", rule_expr(r))]),
        Val::Royalties(n, Rule::Empty) => call("royalties", &[n.to_string()]),
        Val::Manager(k, m) => {
            let a = opt_key(&k.unwrap_or_default());
            match way {
                0 => call("manager", &[a, list(roles(*m))]),
                1 => {
                    let r = if *m == 0 { vec![] } else { roles(*m).into_iter().rev().collect() };
                    obj(&[ty, ("delegate", obj(&[("address", a), ("roles", list(r))]))])
                }
                _ if m.count_ones() < 2 => call("manager", &[a, roles(*m)[0].clone()]),
                _ => return None,
            }
        }
        Val::Proxy(p, s, b, a) if way == 1 => obj(&[
            ty,
            ("program", key(p)),
            ("seeds", ints(s)),
            ("bump", b.to_string()),
            ("authority", opt_key(&a.unwrap_or_default())),
        ]),
        Val::Properties(l) => {
            let one = |(n, p): &(String, Prop)| {
                let (t, mut x) = prop(p);
                if let (Prop::N(n), 2) = (p, way) {
                    x = n.to_string();
                }
                let mut v = vec![("name", text(n)), ("value", x)];
                if way == 1 {
                    v.push(("type", t));
                }
                obj(&v)
            };
            if way == 2 && l.iter().any(|(_, p)| matches!(p, Prop::N(n) if n >> 53 != 0)) {
                return None;
            }
            let v = list(l.iter().map(one));
            if way == 1 {
                obj(&[ty, ("values", v)])
            } else {
                call("properties", &[v])
            }
        }
        _ => return None,
    })
}

/// A rule as a plain object.
fn rule_expr(r: &Rule) -> String {
    let keys = |k: &[Pubkey]| list(k.iter().map(key));
    let t = |s: &str| ("type", text(s));
    match r {
        Rule::And(v) => obj(&[t("And"), ("constraints", list(v.iter().map(rule_expr)))]),
        Rule::Or(v) => obj(&[t("Or"), ("constraints", list(v.iter().map(rule_expr)))]),
        Rule::Not(r) => obj(&[t("Not"), ("constraint", rule_expr(r))]),
        Rule::Owned(a, k) => obj(&[t("OwnedBy"), ("account", text(ACCOUNTS[*a as usize])), ("owners", keys(k))]),
        Rule::Key(a, k) => obj(&[t("PubkeyMatch"), ("account", text(ACCOUNTS[*a as usize])), ("pubkeys", keys(k))]),
        Rule::Empty => obj(&[t("Empty")]),
    }
}

/// The value as the client reads it (with its type when `typed`).
fn canon(v: &Val, typed: bool) -> String {
    let ints = |d: &[u8]| list(d.iter().map(|x| x.to_string()));
    let pairs = |v: &[(String, String)], b: &str| list(v.iter().map(|(x, y)| shown(&[("name", text(x)), (b, text(y))])));
    let mut o: Vec<(&str, String)> = match v {
        Val::Attributes(l) => vec![("values", pairs(l, "value"))],
        Val::Links(l) => vec![("values", pairs(l, "uri"))],
        Val::Blob(c, d) => vec![("contentType", text(c)), ("data", ints(d))],
        Val::Bucket(d) => vec![("data", ints(d))],
        Val::Creators(l) => {
            let one = |c: &(Pubkey, bool, u8)| {
                shown(&[("address", key(&c.0)), ("verified", c.1.to_string()), ("share", c.2.to_string())])
            };
            vec![("values", list(l.iter().map(one)))]
        }
        Val::Metadata(m) => ["symbol", "description", "uri", "imageUri"]
            .into_iter()
            .zip(m)
            .map(|(n, x)| (n, text(x.as_deref().unwrap_or(""))))
            .collect(),
        Val::Grouping(n, m, d) => vec![
            ("size", n.to_string()),
            ("maxSize", m.unwrap_or(0).to_string()),
            ("delegate", opt_key(&d.unwrap_or_default())),
        ],
        Val::Royalties(n, r) => vec![("basisPoints", n.to_string()), ("constraint", rule_shown(r))],
        Val::Manager(k, m) => {
            vec![("delegate", shown(&[("address", opt_key(&k.unwrap_or_default())), ("roles", list(roles(*m)))]))]
        }
        Val::Proxy(p, s, b, a) => vec![
            ("program", key(p)),
            ("seeds", ints(s)),
            ("bump", b.to_string()),
            ("authority", opt_key(&a.unwrap_or_default())),
        ],
        Val::Properties(l) => {
            let one = |(n, p): &(String, Prop)| {
                let x = match p {
                    Prop::T(s) => text(s),
                    Prop::N(n) => n.to_string(),
                    Prop::B(b) => b.to_string(),
                };
                shown(&[("name", text(n)), ("type", prop(p).0), ("value", x)])
            };
            vec![("values", list(l.iter().map(one)))]
        }
    };
    if typed {
        o.push(("type", v.ty().to_string()));
    }
    shown(&o)
}

/// Stored and read values.
pub fn values(mask: Tags, deep: bool) -> (Stats, Vec<Found>) {
    decide(
        "js-values",
        P23,
        mask,
        || {
            let mut v = vec![];
            let mut all = crate::en_ext::values(deep);
            for r in crate::en_rules::trees(false) {
                all.push(Val::Royalties(all.len() as u64, r));
            }
            for x in &all {
                let serializer = call("getExtensionSerializerFromType", &[x.ty().to_string()]);
                for way in 0..3 {
                    if let Some(e) = expr(x, way) {
                        let s = method(&serializer, "serialize", &[e]);
                        v.push(q(format!("{{\"hex\":true,\"eval\":{s}}}"), hex(&x.bytes())));
                    }
                }
                let back = method(&serializer, "deserialize", &[blob(&x.bytes())]);
                v.push(q(req(&field(&back, "0")), canon(x, false)));
            }
            v
        },
        |q, got, t| t.eq("value", got, q.want.as_str()),
    )
}

// ---- instructions -----------------------------------------------------------------------------

/// What fills an account that the caller leaves out.
#[derive(Clone, Copy, PartialEq, Debug)]
enum D {
    Needed,
    Identity,
    IdentityKey,
    Payer,
    Absent,
    /// the system program when a payer is there
    System,
    /// the system program in any case
    SystemAlways,
}

/// How the caller may give it.
#[derive(Clone, Copy, PartialEq, Debug)]
enum G {
    Signer,
    Key,
    Either,
}

type Slots = &'static [(&'static str, G, D)];

fn wrapper(ins: &Ins) -> Option<(&'static str, Slots, bool)> {
    use {D::*, G::*};
    const WHO: Slots = &[("asset", Key, Needed), ("signer", Signer, Identity)];
    const CREATOR: Slots = &[("asset", Key, Needed), ("creator", Signer, Needed)];
    const MEMBER: Slots = &[("asset", Key, Needed), ("group", Key, Needed), ("authority", Signer, Identity)];
    const RESIZE: Slots =
        &[("asset", Key, Needed), ("authority", Signer, Identity), ("payer", Either, Payer), ("systemProgram", Key, System)];
    Some(match ins {
        Ins::Close => ("close", &[("buffer", Signer, Needed), ("recipient", Key, Needed)], false),
        Ins::Burn => (
            "burn",
            &[("asset", Key, Needed), ("signer", Signer, Needed), ("recipient", Key, Absent), ("group", Key, Absent)],
            true,
        ),
        Ins::Create(_) => (
            "create",
            &[
                ("asset", Signer, Needed),
                ("authority", Either, Identity),
                ("owner", Key, IdentityKey),
                ("group", Key, Absent),
                ("groupAuthority", Signer, Absent),
                ("payer", Signer, Absent),
                ("systemProgram", Key, System),
            ],
            false,
        ),
        Ins::Approve(_) => {
            ("approve", &[("asset", Key, Needed), ("owner", Signer, Identity), ("delegate", Key, Needed)], true)
        }
        Ins::Allocate(_) => {
            ("allocate", &[("asset", Signer, Needed), ("payer", Signer, Absent), ("systemProgram", Key, System)], false)
        }
        Ins::Lock => ("lock", WHO, true),
        Ins::Unlock => ("unlock", WHO, true),
        Ins::Revoke(_) => ("revoke", WHO, true),
        Ins::Transfer => (
            "transfer",
            &[("asset", Key, Needed), ("signer", Signer, Identity), ("recipient", Key, Needed), ("group", Key, Absent)],
            true,
        ),
        Ins::Verify => ("verify", CREATOR, true),
        Ins::Unverify => ("unverify", CREATOR, true),
        Ins::Update(_) => (
            "update",
            &[
                ("asset", Key, Needed),
                ("authority", Signer, Identity),
                ("buffer", Key, Absent),
                ("group", Key, Absent),
                ("payer", Signer, Absent),
                ("systemProgram", Key, System),
            ],
            true,
        ),
        Ins::Write { .. } => {
            ("write", &[("asset", Signer, Needed), ("payer", Signer, Payer), ("systemProgram", Key, SystemAlways)], false)
        }
        Ins::Group => ("group", MEMBER, true),
        Ins::Ungroup => ("ungroup", MEMBER, true),
        Ins::Handover => (
            "handover",
            &[("asset", Key, Needed), ("authority", Signer, Identity), ("newAuthority", Signer, Needed)],
            true,
        ),
        Ins::Remove(_) => (
            "remove",
            &[("asset", Key, Needed), ("authority", Signer, Identity), ("group", Key, Absent), ("recipient", Key, IdentityKey)],
            true,
        ),
        Ins::Trim | Ins::Extend(_) => ("resize", RESIZE, true),
        Ins::ProxyCreate(_) | Ins::Raw(..) => return None,
    })
}

const GIVEN: [Pubkey; 7] = [A1, AUTH, C1, G1, GDEL, FUNDER, SINK];

/// Instruction as the driver prints it, the signers as a set.
fn printed(program: &Pubkey, metas: &[Meta], data: &[u8]) -> (String, BTreeSet<String>) {
    let m: Vec<String> = metas
        .iter()
        .map(|m| format!("{}:{}{}", m.key, if m.signer { "s" } else { "" }, if m.writable { "w" } else { "" }))
        .collect();
    let signers = metas.iter().filter(|m| m.signer).map(|m| m.key.to_string()).collect();
    (format!("{program}!{}!{}", m.join(","), hex(data)), signers)
}

/// An instruction with the argument fields of the wrapper (`None`: left out).
fn arguments(ins: &Ins) -> Vec<Vec<(&'static str, String)>> {
    let strings = |b: &[u8]| text(std::str::from_utf8(b).unwrap());
    let deleg = |d: &Deleg, way: u8| {
        let r = match d {
            Deleg::All => None,
            Deleg::Some(v) => Some(list(v.iter().map(|x| x.to_string()))),
        };
        match (r, way) {
            (None, 0) => call("delegateInput", &[text("All")]),
            (None, _) => obj(&[("__kind", text("All"))]),
            (Some(r), 0) => call("delegateInput", &[text("Some"), obj(&[("roles", r)])]),
            (Some(r), _) => obj(&[("__kind", text("Some")), ("roles", r)]),
        }
    };
    match ins {
        Ins::Approve(d) | Ins::Revoke(d) => (0..2).map(|w| vec![("delegateInput", deleg(d, w))]).collect(),
        Ins::Remove(t) => vec![vec![("extensionType", t.to_string())]],
        Ins::Trim => vec![
            vec![("strategy", call("strategy", &[text("Trim")]))],
            vec![("strategy", obj(&[("__kind", text("Trim"))]))],
        ],
        Ins::Extend(n) => vec![
            vec![("strategy", call("strategy", &[text("Extend"), obj(&[("value", n.to_string())])]))],
            vec![("strategy", obj(&[("__kind", text("Extend")), ("value", n.to_string())]))],
        ],
        Ins::Create(c) => {
            let mut v = vec![vec![
                ("name", strings(&c.name)),
                ("standard", c.standard.to_string()),
                ("mutable", c.mutable.to_string()),
            ]];
            if c.standard == 0 && c.mutable {
                v.push(vec![("name", strings(&c.name))]);
            }
            v
        }
        Ins::Update(u) => {
            let name = u.name.as_ref().map(|n| strings(n));
            let mutable = u.mutable.map(|m| m.to_string());
            (0..3)
                .map(|way| {
                    let mut v = vec![];
                    for (k, x) in [("name", &name), ("mutable", &mutable)] {
                        match (x, way) {
                            (Some(x), 1) => v.push((k, format!("{{\"$some\":{x}}}"))),
                            (Some(x), _) => v.push((k, x.clone())),
                            (None, 0) => {}
                            (None, 1) => v.push((k, "{\"$none\":1}".into())),
                            (None, _) => v.push((k, "null".into())),
                        }
                    }
                    v
                })
                .collect()
        }
        _ => vec![vec![]],
    }
}

#[derive(Clone, Debug)]
struct Want {
    what: &'static str,
    ins: (String, BTreeSet<String>),
    /// another encoding that means the same
    also: Option<String>,
    group: bool,
}

fn sample(n: usize) -> Vec<Val> {
    let s = |n: usize| "s".repeat(n);
    vec![
        Val::Attributes(vec![(s(n), "é".into())]),
        Val::Blob("image/png".into(), vec![n as u8; n]),
        Val::Creators(vec![(C1, false, 100 - n as u8), (C2, n % 2 == 1, n as u8)]),
        Val::Links(vec![("l".into(), s(n)), ("m".into(), "u".into())]),
        Val::Metadata([Some("S".into()), Some(s(n)), Some("".into()), Some("i".into())]),
        Val::Grouping(0, Some(n as u64), (n % 2 == 0).then_some(GDEL)),
        Val::Royalties(n as u64, Rule::Not(Box::new(Rule::Key(2, vec![BOB])))),
        Val::Manager(Some(MGR), (n % 8) as u8),
        Val::Proxy(PROG1, [n as u8; 32], 7, Some(AUTH)),
        Val::Properties(vec![(s(n), Prop::N(n as u64)), ("b".into(), Prop::B(true)), ("t".into(), Prop::T("x".into()))]),
        Val::Bucket(vec![9; n]),
    ]
}

fn typed_expr(v: &Val) -> String {
    expr(v, 1).expect("typed object")
}
fn ext_in(v: &Val) -> ExtIn {
    ExtIn::full(v.ty() as u8, v.bytes())
}

/// The instructions with the typed extension fields that lead to them.
fn domain(deep: bool) -> Vec<(Ins, Vec<(&'static str, String)>)> {
    let mut v = vec![];
    let some: Vec<Val> = [0usize, 1, 3, 60].into_iter().flat_map(sample).collect();
    let mut names: Vec<usize> = vec![0, 1, 2, 35, 36, 300];
    if deep {
        names.extend(3..35);
    }
    for ins in crate::en_wire::instructions(false) {
        let plain = match &ins {
            Ins::Create(c) => c.exts.is_none(),
            Ins::Update(u) => u.ext.is_none(),
            Ins::Allocate(_) => false,
            Ins::Write { overwrite, bytes } => *overwrite && !bytes.is_empty() && bytes.len() <= 850,
            _ => true,
        };
        if plain {
            let extra = match &ins {
                Ins::Write { bytes, .. } => vec![("data", blob(bytes))],
                _ => vec![],
            };
            v.push((ins, extra));
        }
    }
    for x in &some {
        v.push((Ins::Allocate(ext_in(x)), vec![("extension", typed_expr(x))]));
        for n in [None, Some(b"name".to_vec())] {
            let u = UpdateIn { name: n, mutable: Some(false), ext: Some(ext_in(x)) };
            v.push((Ins::Update(u), vec![("extension", typed_expr(x))]));
        }
    }
    for &n in &names {
        let name: Vec<u8> = "é".repeat(n / 2).bytes().chain((n % 2 == 1).then_some(b'x')).collect();
        for (i, x) in some.iter().enumerate() {
            let y = &some[(i * 7 + n + 1) % some.len()];
            for l in [vec![], vec![x], vec![x, y], vec![y, x, y]] {
                if l.is_empty() && i > 0 {
                    continue;
                }
                let c = CreateIn {
                    name: name.clone(),
                    standard: (i % 4) as u8,
                    mutable: i % 3 == 0,
                    exts: Some(l.iter().map(|v| ext_in(v)).collect()),
                };
                v.push((Ins::Create(c), vec![("extensions", list(l.iter().map(|v| typed_expr(v))))]));
            }
        }
    }
    v
}

/// Every instruction builder over arguments, left out accounts, proxy and registered programs.
pub fn instructions(mask: Tags, deep: bool) -> (Stats, Vec<Found>) {
    let items = || {
        let mut v = vec![];
        let mut seen: Vec<&'static str> = vec![];
        for (ins, extra) in domain(deep) {
            let Some((f, slots, proxied)) = wrapper(&ins) else { continue };
            let nth = seen.iter().filter(|x| **x == ins.name()).count();
            seen.push(ins.name());
            let left: Vec<usize> = (0..slots.len()).filter(|i| slots[*i].2 != D::Needed).collect();
            let either: Vec<usize> = (0..slots.len()).filter(|i| slots[*i].1 == G::Either).collect();
            let all: Vec<u32> = (0..1u32 << left.len()).collect();
            let full = nth < if deep { 30 } else { 3 };
            let subsets = if full { all } else { vec![0, (1 << left.len()) - 1] };
            for m in subsets {
                for way in 0..(1 << either.len()) {
                    for (an, args) in arguments(&ins).into_iter().enumerate() {
                        for proxy in [None, Some(PROG1)] {
                            if proxy.is_some() && !proxied {
                                continue;
                            }
                            for registered in [true, false] {
                                for pda in [false, true] {
                                    // the ways of the context once per shape
                                    if (an + way > 0 || !full) && (pda || !registered) {
                                        continue;
                                    }
                                    let mut fields = args.clone();
                                    fields.extend(extra.clone());
                                    let mut accs = vec![];
                                    let mut signs: Vec<Option<bool>> = vec![];
                                    for (i, (name, g, d)) in slots.iter().enumerate() {
                                        let given = left.iter().position(|x| *x == i).map_or(true, |p| m >> p & 1 == 1);
                                        let k = if *d == D::SystemAlways { system_program::id() } else { GIVEN[i] };
                                        let by_key = either.iter().position(|x| *x == i).is_some_and(|p| way >> p & 1 == 1);
                                        if given {
                                            let sign = *g == G::Signer || *g == G::Either && !by_key;
                                            let e = if sign {
                                                signer(&k)
                                            } else if pda {
                                                format!("[\"{k}\",254]")
                                            } else {
                                                key(&k)
                                            };
                                            fields.push((name, e));
                                            accs.push(Some(k));
                                            signs.push((*g == G::Either).then_some(sign));
                                        } else {
                                            let payer = |accs: &[Option<Pubkey>]| {
                                                slots.iter().position(|s| s.0 == "payer").is_some_and(|p| accs[p].is_some())
                                            };
                                            let (k, s) = match d {
                                                D::Identity => (Some(OWNER), Some(true)),
                                                D::IdentityKey => (Some(OWNER), None),
                                                D::Payer => (Some(PAYER), Some(true)),
                                                D::Absent => (None, None),
                                                D::System => (payer(&accs).then(system_program::id), None),
                                                D::SystemAlways => (Some(system_program::id()), None),
                                                D::Needed => unreachable!(),
                                            };
                                            accs.push(k);
                                            signs.push(s);
                                        }
                                    }
                                    if let Some(p) = &proxy {
                                        fields.push(("proxy", key(p)));
                                    }
                                    let mut want = Call::new(ins.clone(), &accs);
                                    for (i, s) in signs.iter().enumerate() {
                                        if let Some(s) = s {
                                            want = want.sign(i, *s);
                                        }
                                    }
                                    let mut metas = want.metas.clone();
                                    if proxy.is_some() {
                                        metas.push(Meta { key: ASSET, signer: false, writable: false });
                                    }
                                    let program = proxy.unwrap_or(ASSET);
                                    let e = call(f, &[context(&OWNER, &PAYER, registered), obj(&fields)]);
                                    // no list is the same as an empty one
                                    let also = match &ins {
                                        Ins::Create(c) if c.exts.as_ref().is_some_and(|l| l.is_empty()) => {
                                            Some(Ins::Create(CreateIn { exts: None, ..c.clone() }))
                                        }
                                        Ins::Create(c) if c.exts.is_none() => {
                                            Some(Ins::Create(CreateIn { exts: Some(vec![]), ..c.clone() }))
                                        }
                                        _ => None,
                                    };
                                    let w = Want {
                                        what: f,
                                        also: also.map(|i| printed(&program, &metas, &i.encode()).0),
                                        ins: printed(&program, &metas, &ins.encode()),
                                        group: matches!(ins, Ins::Write { .. }),
                                    };
                                    v.push(q(req(&e), w));
                                }
                            }
                        }
                    }
                }
            }
        }
        v
    };
    decide("js-instructions", P23, mask, items, |q, got, t| one_instruction(&q.want, got, t))
}

fn one_instruction(w: &Want, got: &str, t: &mut Tally) -> Result<(), String> {
    let body = if w.group { got.strip_prefix("group sequential ") } else { got.strip_prefix("tx ") };
    let Some((_, ins)) = body.and_then(|b| b.split_once('#')) else {
        return Err(format!("{}: {got}", w.what).chars().take(600).collect());
    };
    let (ins, signers) = ins.rsplit_once('!').unwrap_or((ins, ""));
    if w.also.as_deref() != Some(ins) {
        t.eq(w.what, ins, w.ins.0.as_str())?;
    }
    let signers: BTreeSet<String> = signers.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    t.eq(&format!("signers of {}", w.what), &signers, &w.ins.1)
}

// ---- accounts -------------------------------------------------------------------------------

/// Account data that the client has to read, and how it reads it.
fn read_request(d: &[u8]) -> String {
    let a = obj(&[
        ("publicKey", key(&A1)),
        ("executable", "false".into()),
        ("owner", key(&ASSET)),
        ("lamports", obj(&[("basisPoints", num(5)), ("identifier", text("SOL")), ("decimals", "9".into())])),
        ("exists", "true".into()),
        ("data", blob(d)),
    ]);
    call("deserializeAsset", &[a])
}
fn read(d: &[u8]) -> String {
    req(&format!("{{\"$omit\":[\"publicKey\",\"header\"],\"on\":{}}}", read_request(d)))
}

fn asset_shown(a: &Asset, exts: &[String]) -> String {
    let n = a.name.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
    let delegate = if a.delegate == Pubkey::default() {
        "null".into()
    } else {
        shown(&[("address", key(&a.delegate)), ("roles", list(roles(a.roles)))])
    };
    shown(&[
        ("discriminator", a.disc.to_string()),
        ("state", a.state.to_string()),
        ("standard", a.standard.to_string()),
        ("mutable", (a.mutable == 1).to_string()),
        ("owner", key(&a.owner)),
        ("group", opt_key(&a.group)),
        ("authority", key(&a.authority)),
        ("delegate", delegate),
        ("name", text(std::str::from_utf8(&a.name[..n]).unwrap())),
        ("extensions", list(exts.iter().cloned())),
    ])
}

#[derive(Clone, Debug)]
enum Seen {
    Value(String),
    Refused,
}

/// What an account may hold after its header: current values, values stored by earlier versions of
/// the program, and types the client does not know.
fn stored(v: &Val) -> (u32, Vec<u8>, Option<String>) {
    (v.ty(), v.bytes(), Some(canon(v, true)))
}

pub fn accounts(mask: Tags, deep: bool) -> (Stats, Vec<Found>) {
    let items = || {
        let mut v: Vec<Q<Seen>> = vec![];
        let plain = || Build::new(OWNER, AUTH);
        // headers
        for disc in 0..2u8 {
            for state in 0..2u8 {
                for std in 0..4u8 {
                    for mutable in [false, true] {
                        for roles in 0..8u8 {
                            for k in 0..8u8 {
                                for name in ["", "x", "a name", "é→x", "01234567890123456789012345678901234"] {
                                    let mut b = plain().std(std).mutable(mutable).locked(state == 1);
                                    b.a.disc = disc;
                                    if k & 1 == 1 {
                                        b.a.owner = OWNER_TWIN;
                                        b.a.authority = OWNER;
                                    }
                                    if k & 2 == 2 {
                                        b.a.group = G1;
                                    }
                                    b.a.roles = roles;
                                    if k & 4 == 4 {
                                        b.a.delegate = DEL;
                                    }
                                    b.a.name = name.as_bytes().to_vec();
                                    b.a.name.resize(35, 0);
                                    let want = if disc == 1 { Seen::Value(asset_shown(&b.a, &[])) } else { Seen::Refused };
                                    v.push(q(read(&b.bytes()), want));
                                }
                            }
                        }
                    }
                }
            }
        }
        // keys next to the one that stands for nobody
        let mut keys = vec![ASSET, Pubkey::new_from_array([0xff; 32])];
        for i in [0usize, 1, 15, 30, 31] {
            let mut k = [0; 32];
            k[i] = 1;
            keys.push(Pubkey::new_from_array(k));
        }
        for k in &keys {
            for place in 0..4 {
                let mut b = plain();
                let place = [&mut b.a.owner, &mut b.a.group, &mut b.a.authority, &mut b.a.delegate].into_iter().nth(place).unwrap();
                *place = *k;
                v.push(q(read(&b.bytes()), Seen::Value(asset_shown(&b.a, &[]))));
            }
            for x in [Val::Grouping(1, Some(2), Some(*k)), Val::Manager(Some(*k), 5)] {
                let b = plain().ext(x.ty(), x.bytes());
                v.push(q(read(&b.bytes()), Seen::Value(asset_shown(&b.a, &[canon(&x, true)]))));
            }
        }
        // an owner whose key reads like the header of an extension, before spare bytes
        for n in [8usize, 16, 24, 32] {
            for at in [184u8, 200, 216] {
                let mut k = [0; 32];
                k[4] = at;
                for mutable in [false, true] {
                    let mut b = plain().mutable(mutable).slack(n);
                    b.a.owner = Pubkey::new_from_array(k);
                    v.push(q(read(&b.bytes()), Seen::Value(asset_shown(&b.a, &[]))));
                }
            }
        }
        // lists of extensions and spare bytes at the end
        let mut pool: Vec<(u32, Vec<u8>, Option<String>)> = [0usize, 1, 5].into_iter().flat_map(sample).map(|v| stored(&v)).collect();
        // metadata without the image and grouping without the delegate
        let st = |s: &str| [vec![s.len() as u8], s.as_bytes().to_vec()].concat();
        let mut old = vec![];
        for n in 0..16usize {
            let d = "d".repeat(n);
            let bytes = [st("S"), st(&d), st("uri")].concat();
            old.push((ty::METADATA, bytes, Some(canon(&Val::Metadata([Some("S".into()), Some(d), Some("uri".into()), None]), true))));
        }
        for k in 0..8 {
            let f = |i: usize, s: &str| if k >> i & 1 == 1 { s.to_string() } else { String::new() };
            let (x, y, z) = (f(0, "S"), f(1, "d"), f(2, "uri"));
            let bytes = [st(&x), st(&y), st(&z)].concat();
            old.push((ty::METADATA, bytes, Some(canon(&Val::Metadata([Some(x), Some(y), Some(z), None]), true))));
        }
        for (n, m) in [(0u64, 0u64), (3, 10), (u64::MAX - 1, u64::MAX)] {
            let bytes = [n.to_le_bytes(), m.to_le_bytes()].concat();
            old.push((ty::GROUPING, bytes, Some(canon(&Val::Grouping(n, Some(m), None), true))));
        }
        let unknown: Vec<_> = [(12u32, 0usize), (12, 3), (200, 8), (65537, 21)].into_iter().map(|(t, n)| (t, vec![0xaa; n], None)).collect();
        let slack: Vec<usize> = if deep { (0..=48).collect() } else { vec![0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 40] };
        let mut lists: Vec<Vec<&(u32, Vec<u8>, Option<String>)>> = vec![vec![]];
        for x in &pool {
            lists.push(vec![x]);
            for y in pool.iter().chain(&old[..if deep { old.len() } else { 4 }]).chain(&unknown) {
                if x.0 != y.0 {
                    lists.push(vec![x, y]);
                    lists.push(vec![y, x]);
                }
            }
        }
        for x in old.iter().chain(&unknown) {
            lists.push(vec![x]);
            for y in unknown.iter().chain(&old[24..]) {
                if x.0 != y.0 {
                    lists.push(vec![x, y]);
                }
            }
        }
        // all types at once, in each rotation
        let whole: Vec<_> = pool[..11].iter().collect();
        for r in 0..11 {
            let mut l = whole.clone();
            l.rotate_left(r);
            lists.push(l.clone());
            l.reverse();
            lists.push(l);
        }
        for l in &lists {
            for &n in if l.len() < 2 || l.len() > 2 { &slack[..] } else { &slack[..if deep { 12 } else { 3 }] } {
                let mut b = plain().slack(n);
                for (t, d, _) in l {
                    b = b.ext(*t, d.clone());
                }
                let exts: Vec<String> = l.iter().filter_map(|x| x.2.clone()).collect();
                v.push(q(read(&b.bytes()), Seen::Value(asset_shown(&b.a, &exts))));
            }
        }
        // every value on its own
        for x in crate::en_ext::values(false).iter().step_by(if deep { 1 } else { 3 }) {
            let b = plain().ext(x.ty(), x.bytes());
            v.push(q(read(&b.bytes()), Seen::Value(asset_shown(&b.a, &[canon(x, true)]))));
        }
        // one extension, one property of an account
        pool.truncate(11);
        let b = pool.iter().fold(plain(), |b, (t, d, _)| b.ext(*t, d.clone()));
        let a = read_request(&b.bytes());
        for t in 1..=11u32 {
            let want = pool.iter().find(|x| x.0 == t).and_then(|x| x.2.clone()).unwrap();
            v.push(q(req(&call("getExtension", &[a.clone(), t.to_string()])), Seen::Value(want)));
            let others = pool.iter().filter(|x| x.0 != t).fold(plain(), |b, (t, d, _)| b.ext(*t, d.clone()));
            let o = read_request(&others.bytes());
            v.push(q(req(&call("getExtension", &[o.clone(), t.to_string()])), Seen::Value("undefined".into())));
            if t == ty::PROPERTIES {
                for k in 0..3 {
                    v.push(q(req(&call("getProperty", &[o.clone(), text("b"), k.to_string()])), Seen::Value("undefined".into())));
                }
            }
        }
        let names = ["n", "m", "N", ""];
        let kinds = |s: u64| [Prop::T(format!("t{s}")), Prop::N(s), Prop::B(s % 2 == 1)];
        for i in 0..4usize {
            for j in 0..4usize {
                for a in kinds(3) {
                    for b in kinds(4) {
                        let l = vec![(names[i].to_string(), a.clone()), (names[j].to_string(), b.clone())];
                        let x = Val::Properties(l.clone());
                        let d = read_request(&plain().ext(x.ty(), x.bytes()).bytes());
                        for n in names {
                            for k in 0..3 {
                                let hit = l.iter().find(|(m, p)| m == n && prop(p).0 == k.to_string());
                                let want = hit.map_or("undefined".to_string(), |(n, p)| {
                                    let x = match p {
                                        Prop::T(s) => text(s),
                                        Prop::N(n) => n.to_string(),
                                        Prop::B(b) => b.to_string(),
                                    };
                                    shown(&[("name", text(n)), ("type", k.to_string()), ("value", x)])
                                });
                                v.push(q(req(&call("getProperty", &[d.clone(), text(n), k.to_string()])), Seen::Value(want)));
                            }
                        }
                    }
                }
            }
        }
        // vaults of the bridge
        for state in 0..2u8 {
            for bump in [0u8, 1, 254, 255] {
                for k in [OWNER, OWNER_TWIN, ASSET] {
                    for x in [0u8, 7, 255] {
                        let mut d = vec![1, state, bump];
                        d.extend(k.as_ref());
                        d.push(x);
                        let want = shown(&[
                            ("discriminator", "1".into()),
                            ("state", state.to_string()),
                            ("bump", bump.to_string()),
                            ("mint", key(&k)),
                            ("assetBump", x.to_string()),
                        ]);
                        let r = read_request(&d).replace("deserializeAsset", "bridge.deserializeVault");
                        v.push(q(req(&format!("{{\"$omit\":[\"publicKey\",\"header\"],\"on\":{r}}}")), Seen::Value(want)));
                    }
                }
            }
        }
        v
    };
    decide("js-accounts", P23, mask, items, |q, got, t| match &q.want {
        Seen::Value(w) => t.eq("account", got, w.as_str()),
        Seen::Refused => {
            t.refused += 1;
            t.check("an account that is no asset is read as one", got.starts_with("! "))
        }
    })
}

// ---- numbers, addresses, filters ----------------------------------------------------------------

pub fn numbers(mask: Tags) -> (Stats, Vec<Found>) {
    let items = || {
        let mut v: Vec<Q<String>> = vec![];
        macro_rules! put {
            ($e:expr, $w:expr $(,)?) => {{
                let (e, w) = ($e, $w);
                v.push(q(req(&e), w));
            }};
        }
        let lists: [(&str, &[&str]); 8] = [
            ("Discriminator", &["Uninitialized", "Asset"]),
            ("State", &["Unlocked", "Locked"]),
            ("Standard", &["NonFungible", "Managed", "Soulbound", "Proxied"]),
            ("DelegateRole", &["None", "Transfer", "Lock", "Burn"]),
            ("Type", &["Text", "Number", "Boolean"]),
            (
                "ExtensionType",
                &[
                    "None", "Attributes", "Blob", "Creators", "Links", "Metadata", "Grouping", "Royalties", "Manager", "Proxy",
                    "Properties", "Bucket",
                ],
            ),
            ("bridge.Discriminator", &["Uninitialized", "Vault"]),
            ("bridge.State", &["Idle", "Active"]),
        ];
        for (e, names) in lists {
            for (i, n) in names.iter().enumerate() {
                put!(field(&get(e), &text(n)), i.to_string());
            }
        }
        for (i, n) in ["And", "Not", "Or", "OwnedBy", "PubkeyMatch", "Empty"].into_iter().enumerate() {
            put!(field(&get("OperatorType"), &text(n)), i.to_string());
            put!(call("getOperatorTypeAsString", &[i.to_string()]), text(n));
        }
        put!(get("ASSET_PROGRAM_ID"), key(&ASSET));
        put!(get("bridge.BRIDGE_PROGRAM_ID"), key(&BRIDGE));
        put!(get("proxy.PROXY_PROGRAM_ID"), key(&PROXY));
        put!(get("SYSTEM_PROGRAM_ID"), key(&system_program::id()));
        for registered in [true, false] {
            let c = context(&OWNER, &PAYER, registered);
            put!(call("getAssetProgramId", &[c.clone()]), key(&ASSET));
            put!(call("bridge.getBridgeProgramId", &[c.clone()]), key(&BRIDGE));
            put!(call("proxy.getProxyProgramId", &[c.clone()]), key(&PROXY));
            for m in [OWNER, BOB, G1, C3, OWNER_TWIN] {
                for (f, seed, seeds) in [
                    ("bridge.findVaultPda", "mint", vec![b"vault".to_vec(), m.to_bytes().to_vec()]),
                    ("bridge.findBridgeAssetPda", "mint", vec![b"asset".to_vec(), m.to_bytes().to_vec()]),
                    ("proxy.findProxiedAssetPda", "stub", vec![m.to_bytes().to_vec()]),
                ] {
                    let seeds: Vec<&[u8]> = seeds.iter().map(|s| &s[..]).collect();
                    let p = if seed == "stub" { PROXY } else { BRIDGE };
                    let (k, b) = Pubkey::find_program_address(&seeds, &p);
                    put!(call(f, &[c.clone(), obj(&[(seed, key(&m))])]), format!("[\"{k}\",{b}]"));
                }
            }
            // filters
            let gpa = call("getAssetGpaBuilder", &[c.clone()]);
            let mut filter = |f: &str, x: String, at: usize, bytes: Vec<u8>| {
                v.push(q(req(&method(&gpa, "whereField", &[text(f), x])), format!("gpa {ASSET} {at}:{}", hex(&bytes))));
            };
            for i in 0..2u8 {
                filter("discriminator", i.to_string(), 0, vec![i]);
                filter("state", i.to_string(), 1, vec![i]);
                filter("mutable", (i == 1).to_string(), 3, vec![i]);
            }
            for i in 0..4u8 {
                filter("standard", i.to_string(), 2, vec![i]);
            }
            for (f, at) in [("owner", 4), ("group", 36), ("authority", 68), ("delegate", 100)] {
                for k in [OWNER, AUTH, G1] {
                    filter(f, key(&k), at, k.to_bytes().to_vec());
                }
                if at == 36 || at == 100 {
                    filter(f, "null".into(), at, vec![0; 32]);
                }
            }
            for m in 0..8u8 {
                filter("roles", list(roles(m)), 132, vec![m]);
            }
            // roles in any order, repeated, with the role that stands for none of them
            for n in 0..4u32 {
                for code in 0..4u32.pow(n) {
                    let l: Vec<u32> = (0..n).map(|i| code / 4u32.pow(i) % 4).collect();
                    let m = l.iter().filter(|r| **r > 0).fold(0u8, |m, r| m | 1 << (r - 1));
                    filter("roles", list(l.iter().map(|r| r.to_string())), 132, vec![m]);
                }
            }
            for n in ["", "x", "é→x", "01234567890123456789012345678901234"] {
                let mut b = n.as_bytes().to_vec();
                b.resize(35, 0);
                filter("name", text(n), 133, b);
            }
            let vault = call("bridge.getVaultGpaBuilder", &[c.clone()]);
            for (f, x, at, b) in [
                ("state", "1".to_string(), 1, vec![1u8]),
                ("bump", "254".to_string(), 2, vec![254]),
                ("mint", key(&BOB), 3, BOB.to_bytes().to_vec()),
                ("assetBump", "253".to_string(), 35, vec![253]),
            ] {
                let w = format!("gpa {BRIDGE} 0:01 {at}:{}", hex(&b));
                v.push(q(req(&method(&vault, "whereField", &[text(f), x])), w));
            }
        }
        // errors
        use num_traits::FromPrimitive;
        for (pkg, max) in [("getAsset", 40u32), ("bridge.getBridge", 10), ("proxy.getProxy", 10)] {
            let program = call(
                ["createAssetProgram", "bridge.createBridgeProgram", "proxy.createProxyProgram"]
                    [["getAsset", "bridge.getBridge", "proxy.getProxy"].iter().position(|x| *x == pkg).unwrap()],
                &[],
            );
            for n in 0..max {
                let name: Option<String> = match pkg {
                    "getAsset" => asset_program::error::AssetError::from_u32(n).map(|e| format!("{e:?}")),
                    "bridge.getBridge" => ["InvalidMint", "InvalidAuthority"].get(n as usize).map(|e| e.to_string()),
                    _ => ["InvalidMint", "InvalidAuthority"].get(n as usize).map(|e| e.to_string()),
                };
                let shown = |name: &str| format!("error {name} {n} ");
                let by_code = call(&format!("{pkg}ErrorFromCode"), &[n.to_string(), program.clone()]);
                v.push(q(req(&by_code), name.as_deref().map_or("null".into(), shown)));
                if let Some(name) = &name {
                    let by_name = call(&format!("{pkg}ErrorFromName"), &[text(name), program.clone()]);
                    v.push(q(req(&by_name), shown(name)));
                }
            }
        }
        v
    };
    decide("js-numbers", P23, mask, items, |q, got, t| {
        // the text of an error is not compared
        let got = match got.find(" \"") {
            Some(i) if got.starts_with("error ") => &got[..=i],
            _ => got,
        };
        t.eq("answer", got, q.want.as_str())
    })
}

// ---- accounts from a node, plugins --------------------------------------------------------------

/// What the fetch functions, account filters and plugins answer over small sets of accounts.
pub fn fetches(mask: Tags) -> (Stats, Vec<Found>) {
    let items = || {
        let mut v: Vec<Q<Option<String>>> = vec![];
        let blob_val = Val::Bucket(vec![1, 2, 3]);
        let plain = Build::new(OWNER, AUTH);
        let full = Build::new(BOB, AUTH2).std(MANAGED).locked(true).mutable(false).group(G1).delegate(DEL, 5).ext(blob_val.ty(), blob_val.bytes());
        let third = Build::new(OWNER, AUTH2).std(SOULBOUND).group(G2).delegate(DEL2, 2);
        let vaults = [(G1, 0u8, 254u8, BOB, 253u8), (G2, 1, 1, C1, 2), (A4, 1, 254, C2, 253)];
        let vault_bytes = |x: &(Pubkey, u8, u8, Pubkey, u8)| {
            let mut d = vec![1, x.1, x.2];
            d.extend(x.3.as_ref());
            d.push(x.4);
            d
        };
        let vault_shown = |x: &(Pubkey, u8, u8, Pubkey, u8)| {
            shown(&[
                ("publicKey", key(&x.0)),
                ("discriminator", "1".into()),
                ("state", x.1.to_string()),
                ("bump", x.2.to_string()),
                ("mint", key(&x.3)),
                ("assetBump", x.4.to_string()),
            ])
        };
        let assets: Vec<(Pubkey, Asset, Vec<u8>, Vec<String>)> = vec![
            (A1, plain.a.clone(), plain.bytes(), vec![]),
            (A2, full.a.clone(), full.bytes(), vec![canon(&blob_val, true)]),
            (A3, third.a.clone(), third.bytes(), vec![]),
        ];
        let asset_of = |x: &(Pubkey, Asset, Vec<u8>, Vec<String>)| {
            let s = asset_shown(&x.1, &x.3);
            // the address between the other fields, in order
            let i = s.find("standard:").unwrap();
            format!("{}publicKey:{},{}", &s[..i], key(&x.0), &s[i..])
        };
        let foreign = assets[0].2.clone();
        let mut known: Vec<(Pubkey, Pubkey, Vec<u8>)> = assets.iter().map(|x| (x.0, ASSET, x.2.clone())).collect();
        known.extend(vaults.iter().map(|x| (x.0, BRIDGE, vault_bytes(x))));
        known.push((BUF, ASSET, crate::sc_ext::raw_buffer(&[(ty::BUCKET, vec![1])])));
        known.push((FAKE, BOB, foreign));
        let (derived, _) = Pubkey::find_program_address(&[b"vault", C3.as_ref()], &BRIDGE);
        let own = (derived, 1u8, 9u8, C3, 8u8);
        known.push((derived, BRIDGE, vault_bytes(&own)));
        let accounts = format!(
            "{{{}}}",
            known.iter().map(|(k, o, d)| format!("\"{k}\":{}", obj(&[("owner", key(o)), ("data", blob(d))]))).collect::<Vec<_>>().join(",")
        );
        let contexts = [true, false].map(|p| {
            let c = context(&OWNER, &PAYER, p);
            format!("{},\"accounts\":{accounts}}}", &c[..c.len() - 1])
        });
        let mut put = |e: String, w: Option<String>| v.push(q(format!("{{\"eval\":{e},\"drop\":[\"header\"]}}"), w));
        for c in &contexts {
            for pda in [false, true] {
                let at = |k: &Pubkey| if pda { list([key(k), "255".into()]) } else { key(k) };
                let keys: Vec<Pubkey> = vec![A1, A2, A3, BUF, FRESH];
                let seen = |k: &Pubkey| assets.iter().find(|x| x.0 == *k).map(asset_of);
                for k in &keys {
                    put(call("fetchAsset", &[c.clone(), at(k)]), seen(k));
                    let w = if *k == FRESH { Some("null".into()) } else { seen(k) };
                    put(call("safeFetchAsset", &[c.clone(), at(k)]), w);
                }
                let mut lists: Vec<Vec<Pubkey>> = vec![vec![]];
                for n in 0..3usize {
                    let longer: Vec<_> = lists.iter().filter(|l| l.len() == n).cloned().collect();
                    for l in longer {
                        for k in &keys {
                            lists.push([l.clone(), vec![*k]].concat());
                        }
                    }
                }
                for l in &lists {
                    let ks = list(l.iter().map(at));
                    let all: Option<Vec<String>> = l.iter().map(seen).collect();
                    put(call("fetchAllAsset", &[c.clone(), ks.clone()]), all.map(list));
                    let some: Option<Vec<String>> = l.iter().filter(|k| **k != FRESH).map(seen).collect();
                    put(call("safeFetchAllAsset", &[c.clone(), ks]), some.map(list));
                }
                let keys: Vec<Pubkey> = vec![G1, G2, A4, FRESH];
                let seen = |k: &Pubkey| vaults.iter().find(|x| x.0 == *k).map(vault_shown);
                for k in &keys {
                    put(call("bridge.fetchVault", &[c.clone(), at(k)]), seen(k));
                    let w = if *k == FRESH { Some("null".into()) } else { seen(k) };
                    put(call("bridge.safeFetchVault", &[c.clone(), at(k)]), w);
                    for k2 in &keys {
                        let l = [*k, *k2];
                        let ks = list(l.iter().map(at));
                        let all: Option<Vec<String>> = l.iter().map(seen).collect();
                        put(call("bridge.fetchAllVault", &[c.clone(), ks.clone()]), all.map(list));
                        let some: Vec<String> = l.iter().filter_map(seen).collect();
                        put(call("bridge.safeFetchAllVault", &[c.clone(), ks]), Some(list(some)));
                    }
                }
            }
            for (mint, there) in [(C3, true), (C1, false)] {
                let seeds = obj(&[("mint", key(&mint))]);
                let w = there.then(|| vault_shown(&own));
                put(call("bridge.fetchVaultFromSeeds", &[c.clone(), seeds.clone()]), w.clone());
                put(call("bridge.safeFetchVaultFromSeeds", &[c.clone(), seeds]), Some(w.unwrap_or("null".into())));
            }
            // filters over what is there
            let gpa = method(&call("getAssetGpaBuilder", &[c.clone()]), "whereField", &[text("discriminator"), "1".into()]);
            let fields: Vec<(&str, String, Box<dyn Fn(&Asset) -> bool>)> = vec![
                ("state", "1".into(), Box::new(|a| a.state == 1)),
                ("standard", "2".into(), Box::new(|a| a.standard == 2)),
                ("mutable", "true".into(), Box::new(|a| a.mutable == 1)),
                ("owner", key(&OWNER), Box::new(|a| a.owner == OWNER)),
                ("group", key(&G1), Box::new(|a| a.group == G1)),
                ("group", "null".into(), Box::new(|a| a.group == Pubkey::default())),
                ("authority", key(&AUTH2), Box::new(|a| a.authority == AUTH2)),
                ("delegate", key(&DEL), Box::new(|a| a.delegate == DEL)),
                ("delegate", "null".into(), Box::new(|a| a.delegate == Pubkey::default())),
                ("roles", "[1,3]".into(), Box::new(|a| a.roles == 5)),
            ];
            put(method(&gpa, "getDeserialized", &[]), Some(list(assets.iter().map(asset_of))));
            for (f, x, keep) in &fields {
                let one = method(&gpa, "whereField", &[text(f), x.clone()]);
                put(method(&one, "getDeserialized", &[]), Some(list(assets.iter().filter(|a| keep(&a.1)).map(asset_of))));
                for (f2, x2, keep2) in &fields {
                    if f != f2 {
                        let two = method(&one, "whereField", &[text(f2), x2.clone()]);
                        let w = list(assets.iter().filter(|a| keep(&a.1) && keep2(&a.1)).map(asset_of));
                        put(method(&two, "getDeserialized", &[]), Some(w));
                    }
                }
            }
            let gpa = call("bridge.getVaultGpaBuilder", &[c.clone()]);
            let all = || vaults.iter().chain([&own]);
            put(method(&gpa, "getDeserialized", &[]), Some(list(all().map(vault_shown))));
            for (f, x, keep) in [
                ("state", "1".to_string(), (|x| x.1 == 1) as fn(&(Pubkey, u8, u8, Pubkey, u8)) -> bool),
                ("bump", "254".into(), |x| x.2 == 254),
                ("mint", key(&BOB), |x| x.3 == BOB),
                ("assetBump", "253".into(), |x| x.4 == 253),
            ] {
                let one = method(&gpa, "whereField", &[text(f), x]);
                put(method(&one, "getDeserialized", &[]), Some(list(all().filter(|x| keep(x)).map(vault_shown))));
            }
        }
        // plugins: register the program, behind one that the user registered before
        let plugins = [("asset", "niftyAsset", "niftyAsset", ASSET), ("bridge", "niftyBridge", "bridge.niftyBridge", BRIDGE), ("proxy", "niftyProxy", "proxy.niftyProxy", PROXY)];
        for (name, _, f, id) in plugins {
            for order in 0..2 {
                for before in [false, true] {
                    let mut list = vec![text(f)];
                    for (n, _, g, _) in plugins {
                        if n != name {
                            list.insert(if order == 0 { list.len() } else { 0 }, text(g));
                        }
                    }
                    let mut c = format!("{{\"$installed\":\"{OWNER}\",\"plugins\":[{}]", list.join(","));
                    if before {
                        c += &format!(",\"before\":{}", obj(&[("name", text(name)), ("publicKey", key(&BOB))]));
                    }
                    c += "}";
                    let get = method(&field(&c, &text("programs")), "getPublicKey", &[text(name)]);
                    put(get, Some(key(if before { &BOB } else { &id })));
                }
            }
        }
        v
    };
    decide("js-fetches", P23, mask, items, |q, got, t| match &q.want {
        Some(w) => t.eq("answer", got, w.as_str()),
        None => {
            t.refused += 1;
            t.check("what is not there or no such account is answered", got.starts_with("! "))
        }
    })
}

// ---- the proxy and the bridge ---------------------------------------------------------------

fn find(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(seeds, program).0
}

/// Instructions of the example proxy and of the bridge with the accounts they fill in.
pub fn programs(mask: Tags) -> (Stats, Vec<Found>) {
    use crate::bridge::{B_SLOTS, C_SLOTS, PROGRAMS};
    let items = || {
        let mut v = vec![];
        let given = |i: usize| {
            let mut b = [0x31; 32];
            b[7] = i as u8;
            Pubkey::new_from_array(b)
        };
        // a key, or an address with its bump
        let place = |i: usize, n: u32| if n % 2 == 0 { key(&given(i)) } else { format!("[\"{}\",254]", given(i)) };
        for registered in [true, false] {
            let c = context(&OWNER, &PAYER, registered);
            // proxy: asset, authority, payer, system program, asset program may be left out
            for m in 0..32u32 {
                for name in ["", "n", "é→x", "01234567890123456789012345678901234"] {
                    let on = |i: u32| m >> i & 1 == 1;
                    let k = |i: usize| given(i);
                    let mut f = vec![("stub", signer(&k(1))), ("owner", key(&k(2))), ("name", text(name))];
                    let mut metas = vec![Meta { key: find(&[k(1).as_ref()], &PROXY), signer: false, writable: true }];
                    if on(0) {
                        f.push(("asset", place(0, m)));
                        metas[0].key = k(0);
                    }
                    metas.push(Meta { key: k(1), signer: true, writable: false });
                    metas.push(Meta { key: k(2), signer: false, writable: false });
                    metas.push(Meta { key: if on(1) { k(3) } else { OWNER }, signer: true, writable: false });
                    if on(1) {
                        f.push(("authority", signer(&k(3))));
                    }
                    if on(2) {
                        f.push(("payer", signer(&k(4))));
                    }
                    metas.push(Meta { key: if on(2) { k(4) } else { PROXY }, signer: on(2), writable: on(2) });
                    let system = if on(3) {
                        f.push(("systemProgram", key(&k(5))));
                        k(5)
                    } else if on(2) {
                        system_program::id()
                    } else {
                        PROXY
                    };
                    metas.push(Meta { key: system, signer: false, writable: false });
                    if on(4) {
                        f.push(("niftyAssetProgram", key(&k(6))));
                    }
                    metas.push(Meta { key: if on(4) { k(6) } else { ASSET }, signer: false, writable: false });
                    let data = Ins::ProxyCreate(name.as_bytes().to_vec()).encode();
                    let w = Want { what: "proxy create", ins: printed(&PROXY, &metas, &data), also: None, group: false };
                    v.push(q(req(&call("proxy.create", &[c.clone(), obj(&f)])), w));
                }
            }
            // bridge
            let camel = |s: &str| {
                let mut o = String::new();
                for (i, p) in s.split('_').enumerate() {
                    o.push_str(&if i == 0 { p.to_string() } else { p[..1].to_uppercase() + &p[1..] });
                }
                o
            };
            let tm = PROGRAMS[1];
            let (spl, ata) = (PROGRAMS[4], PROGRAMS[5]);
            let rules = Pubkey::from_str("auth9SigNpDKz4sJJ1DfCTuZrZNSAgh9sFD3rboVmgg").unwrap();
            // each account on its own given or left out, all, none
            let mut sets: Vec<u32> = vec![0, (1 << 20) - 1];
            for i in 0..20 {
                sets.push(1 << i);
                sets.push(((1 << 20) - 1) & !(1 << i));
                for j in 0..i {
                    sets.push(1 << i | 1 << j);
                }
            }
            for m in sets {
                for standard in [None, Some(0u8), Some(4)] {
                    let pnft = standard == Some(4);
                    let on = |i: usize| [2, 4].contains(&i) || m >> i & 1 == 1;
                    let mut keys: Vec<Option<Pubkey>> = (0..20).map(|i| on(i).then(|| given(i))).collect();
                    let mint = given(4);
                    let d = |seeds: &[&[u8]], p: &Pubkey| Some(find(seeds, p));
                    let meta: [&[u8]; 3] = [b"metadata", tm.as_ref(), mint.as_ref()];
                    keys[0] = keys[0].or(d(&[b"asset", mint.as_ref()], &BRIDGE));
                    keys[1] = keys[1].or(d(&[b"vault", mint.as_ref()], &BRIDGE));
                    let token = |o: Pubkey| d(&[o.as_ref(), spl.as_ref(), mint.as_ref()], &ata);
                    keys[3] = keys[3].or(token(given(2)));
                    keys[5] = keys[5].or(d(&meta, &tm));
                    keys[6] = keys[6].or(d(&[meta[0], meta[1], meta[2], b"edition"], &tm));
                    let record = |t: Pubkey| d(&[meta[0], meta[1], meta[2], b"token_record", t.as_ref()], &tm);
                    keys[8] = keys[8].or(token(keys[1].unwrap()));
                    if pnft {
                        keys[7] = keys[7].or(record(keys[3].unwrap()));
                        keys[9] = keys[9].or(record(keys[8].unwrap()));
                        keys[17] = keys[17].or(Some(rules));
                    }
                    keys[10] = keys[10].or(Some(PAYER));
                    for i in 0..6 {
                        keys[11 + i] = keys[11 + i].or(Some(PROGRAMS[i]));
                    }
                    let names: Vec<String> = B_SLOTS.iter().map(|s| camel(s.0)).collect();
                    let mut f: Vec<(&str, String)> = vec![];
                    for i in (0..20).filter(|i| on(*i)) {
                        f.push((&names[i], if B_SLOTS[i].1 { signer(&given(i)) } else { place(i, m.count_ones()) }));
                    }
                    if let Some(s) = standard {
                        f.push(("tokenStandard", s.to_string()));
                    }
                    let metas: Vec<Meta> = B_SLOTS
                        .iter()
                        .zip(&keys)
                        .map(|(s, k)| Meta { key: k.unwrap_or(BRIDGE), signer: s.1 && k.is_some(), writable: s.2 && k.is_some() })
                        .collect();
                    let w = Want { what: "bridge", ins: printed(&BRIDGE, &metas, &[0]), also: None, group: false };
                    v.push(q(req(&call("bridge.bridge", &[c.clone(), obj(&f)])), w));
                }
            }
            for m in 0..1u32 << 9 {
                for collection in [true, false] {
                    for signs in [true, false] {
                        let on = |i: usize| i == 2 || m >> i & 1 == 1;
                        if m >> 2 & 1 == 1 || !signs && !on(4) {
                            continue;
                        }
                        let mut keys: Vec<Option<Pubkey>> = (0..9).map(|i| on(i).then(|| given(i))).collect();
                        let mint = given(2);
                        keys[0] = keys[0].or(Some(find(&[b"asset", mint.as_ref()], &BRIDGE)));
                        keys[1] = keys[1].or(Some(find(&[b"vault", mint.as_ref()], &BRIDGE)));
                        keys[3] = keys[3].or(Some(find(&[b"metadata", tm.as_ref(), mint.as_ref()], &tm)));
                        keys[4] = keys[4].or(Some(OWNER));
                        keys[6] = keys[6].or(Some(PAYER));
                        keys[7] = keys[7].or(Some(system_program::id()));
                        keys[8] = keys[8].or(Some(ASSET));
                        let names: Vec<String> = C_SLOTS.iter().map(|s| camel(s.0)).collect();
                        let mut f: Vec<(&str, String)> = vec![("isCollection", collection.to_string())];
                        for i in (0..9).filter(|i| on(*i)) {
                            let sign = C_SLOTS[i].1 && (i != 4 || signs);
                            f.push((&names[i], if sign { signer(&given(i)) } else { place(i, m.count_ones()) }));
                        }
                        let mut metas: Vec<Meta> = C_SLOTS
                            .iter()
                            .zip(&keys)
                            .map(|(s, k)| Meta { key: k.unwrap_or(BRIDGE), signer: s.1 && k.is_some(), writable: s.2 && k.is_some() })
                            .collect();
                        metas[4].signer = signs;
                        let w = Want { what: "bridge create", ins: printed(&BRIDGE, &metas, &[1, collection as u8]), also: None, group: false };
                        v.push(q(req(&call("bridge.create", &[c.clone(), obj(&f)])), w));
                    }
                }
            }
        }
        v
    };
    decide("js-programs", P23, mask, items, |q, got, t| one_instruction(&q.want, got, t))
}

// ---- plans ----------------------------------------------------------------------------------

/// A sequence of transactions that the client plans, with what it has to lead to.
#[derive(Clone)]
struct Plan {
    what: String,
    start: World,
    /// who may be asked to sign, besides the addresses the client generates
    hands: Vec<Pubkey>,
    target: Pubkey,
    data: Vec<u8>,
    payer: Pubkey,
    /// the plan ends with a buffer: only its bytes count
    raw: bool,
}

impl std::fmt::Debug for Plan {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.what)
    }
}

struct Tx {
    size: usize,
    ixs: Vec<Ix>,
    signers: BTreeSet<Pubkey>,
}

fn instruction(s: &str) -> Option<(Ix, Vec<Pubkey>)> {
    let p: Vec<&str> = s.split('!').collect();
    let [program, metas, data, signers] = p[..] else { return None };
    let metas = metas
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|m| {
            let (k, f) = m.split_once(':')?;
            Some(Meta { key: Pubkey::from_str(k).ok()?, signer: f.contains('s'), writable: f.contains('w') })
        })
        .collect::<Option<Vec<_>>>()?;
    let signers = signers.split(',').filter(|s| !s.is_empty()).map(|s| Pubkey::from_str(s).ok()).collect::<Option<Vec<_>>>()?;
    Some((Ix { program: Pubkey::from_str(program).ok()?, metas, data: unhex(data)? }, signers))
}

fn transactions(s: &str) -> Option<(bool, Vec<Tx>)> {
    let s = s.strip_prefix("group ")?;
    let (order, s) = s.split_once(' ')?;
    let mut v = vec![];
    for tx in s.split('|').filter(|s| !s.is_empty()) {
        let (size, ixs) = tx.split_once('#')?;
        let mut t = Tx { size: size.parse().ok()?, ixs: vec![], signers: BTreeSet::new() };
        for i in ixs.split(';') {
            let (ix, signers) = instruction(i)?;
            t.ixs.push(ix);
            t.signers.extend(signers);
        }
        v.push(t);
    }
    Some((order == "sequential", v))
}

fn run_plan(p: &Plan, got: &str, t: &mut Tally) -> Result<(), String> {
    let short = |s: String| s.chars().take(700).collect::<String>();
    let Some((ordered, txs)) = transactions(got) else { return Err(short(format!("{}: {got}", p.what))) };
    t.check(&format!("{}: {} transactions in no order", p.what, txs.len()), ordered || txs.len() < 2)?;
    let mut w = p.start.clone();
    for (i, tx) in txs.iter().enumerate() {
        let what = format!("{}: transaction {} of {}", p.what, i + 1, txs.len());
        t.check(&format!("{what}: {} bytes", tx.size), tx.size <= 1232)?;
        for m in tx.ixs.iter().flat_map(|ix| &ix.metas).filter(|m| m.signer) {
            t.check(&format!("{what}: {} does not sign", m.key), tx.signers.contains(&m.key) || m.key == p.payer)?;
            t.check(
                &format!("{what}: asks {} to sign", m.key),
                p.hands.contains(&m.key) || !p.start.accts.contains_key(&m.key),
            )?;
        }
        w = exec(&w, &tx.ixs, 1).map_err(|e| short(format!("{what}: {e}")))?;
        t.steps += 1;
        t.state(w.data(&p.target));
    }
    t.check(&format!("{}: the account does not belong to the program", p.what), w.owner(&p.target) == ASSET)?;
    let data = w.data(&p.target);
    if p.raw {
        t.check(&format!("{}: another buffer", p.what), data == &p.data[..])?;
    } else {
        let (got, want) = (Asset::parse_raw(data), Asset::parse_raw(&p.data));
        if got != want {
            return Err(short(format!("{}: {got:?} instead of {want:?}", p.what)));
        }
    }
    t.eq("lamports of the account", w.lamports(&p.target), rent(data.len()))?;
    // nothing stays behind anywhere else
    let total = |w: &World| w.lamports(&p.payer) + w.lamports(&p.target);
    t.eq(&format!("{}: lamports of the payer and the account", p.what), total(&w), total(&p.start))?;
    for (k, a) in &w.accts {
        let old = p.start.accts.get(k);
        t.check(
            &format!("{}: {k} is left behind or changed", p.what),
            *k == p.target || *k == p.payer || old == Some(a) || old.is_none() && a.lamports == 0,
        )?;
    }
    Ok(())
}

/// Sizes around the limits of a chunk.
fn sizes(k: usize, deep: bool) -> Vec<usize> {
    let mut v = vec![0usize, 1, 7, 8, 9, 100];
    let around: &[i64] = if deep { &[-9, -8, -7, -2, -1, 0, 1, 2, 7, 8, 9, 40, 100] } else { &[-1, 0, 1, 8] };
    for i in 1..=k {
        for d in around {
            for chunk in [800, 850] {
                v.push((chunk * i as i64 + d) as usize);
            }
        }
    }
    v
}

fn bucket(n: usize) -> Val {
    Val::Bucket((0..n).map(|i| ((i * 31) ^ (i >> 8)) as u8).collect())
}

/// A value of each type around a size.
fn big(t: u32, n: usize) -> Val {
    let s = |n: usize| "é".repeat(n / 2) + if n % 2 == 1 { "x" } else { "" };
    match t {
        ty::ATTRIBUTES | ty::LINKS | ty::PROPERTIES => {
            let mut l = vec![];
            let mut left = n;
            while left > 2 {
                let k = left.min(120);
                l.push((format!("n{}", l.len()), s(k)));
                left -= k;
            }
            match t {
                ty::ATTRIBUTES => Val::Attributes(l),
                ty::LINKS => Val::Links(l),
                _ => Val::Properties(l.into_iter().map(|(n, x)| (n, Prop::T(x))).collect()),
            }
        }
        ty::BLOB => Val::Blob("image/png".into(), vec![n as u8; n]),
        ty::CREATORS => {
            let m = (n / 34).clamp(1, 99);
            let one = |i: usize| {
                let mut k = [7u8; 32];
                k[0] = i as u8;
                (Pubkey::new_from_array(k), false, if i == m - 1 { 101 - m as u8 } else { 1 })
            };
            Val::Creators((0..m).map(one).collect())
        }
        ty::METADATA => Val::Metadata([Some("S".into()), Some(s(n.min(255))), Some(s((n / 4).min(255))), Some(s((n / 3).min(255)))]),
        ty::GROUPING => Val::Grouping(0, Some(n as u64), Some(GDEL)),
        ty::ROYALTIES => {
            Val::Royalties(500, Rule::Key(2, (0..n / 32).map(|i| Pubkey::new_from_array([i as u8; 32])).collect()))
        }
        ty::MANAGER => Val::Manager(Some(MGR), 5),
        _ => bucket(n),
    }
}

fn set(b: Build, v: &Val) -> Build {
    let mut b = b;
    match b.a.ext_mut(v.ty()) {
        Some(d) => *d = v.bytes(),
        None => b = b.ext(v.ty(), v.bytes()),
    }
    b
}

pub fn plans(mask: Tags, deep: bool) -> (Stats, Vec<Found>) {
    let items = || {
        let mut v: Vec<Q<Plan>> = vec![];
        let free: Vec<u32> = (1..=NTYPES).filter(|t| ![ty::MANAGER, ty::PROXY].contains(t)).collect();
        let labels = |l: &[Val]| l.iter().map(|x| format!("{}:{}", x.ty(), x.bytes().len())).collect::<Vec<_>>().join(" ");
        // mint
        let mut mint = |l: Vec<Val>, standard: u8, mutable: bool, name: &str, who: u8| {
            // the payer is the fee payer, or the identity pays as well
            let (identity, payer) = if who == 1 { (OWNER, OWNER) } else { (OWNER, PAYER) };
            // or somebody else's wallet sends the transactions
            let wallet = if who == 4 { DEL2 } else { payer };
            let mut f = vec![
                ("asset", signer(&FRESH)),
                ("payer", signer(&payer)),
                ("name", text(name)),
                ("standard", standard.to_string()),
                ("mutable", mutable.to_string()),
            ];
            if !l.is_empty() || who != 2 {
                f.push(("extensions", list(l.iter().map(typed_expr))));
            }
            let mut want = Build::new(OWNER, OWNER).std(standard).mutable(mutable);
            if who == 3 {
                f.push(("owner", key(&BOB)));
                f.push(("authority", signer(&AUTH)));
                want.a.owner = BOB;
                want.a.authority = AUTH;
            }
            want.a.name = name.as_bytes().to_vec();
            want.a.name.resize(35, 0);
            for x in &l {
                want = want.ext(x.ty(), x.bytes());
            }
            let e = call("mint", &[context(&identity, &wallet, true), obj(&f)]);
            v.push(q(
                format!("{{\"fee\":\"{wallet}\",\"eval\":{e}}}"),
                Plan {
                    what: format!("mint ({}) standard {standard} mutable {mutable} way {who}", labels(&l)),
                    start: base(),
                    hands: vec![identity, payer, FRESH, AUTH],
                    target: FRESH,
                    data: want.bytes(),
                    payer,
                    raw: false,
                },
            ));
        };
        for n in if deep { (0..=6000).collect::<Vec<_>>() } else { (0..=2700).step_by(7).chain(sizes(6, false)).chain([10_240, 10_241]).collect() } {
            mint(vec![bucket(n)], 0, true, "name", 0);
        }
        for who in 0..5 {
            for standard in 0..3u8 {
                for mutable in [true, false] {
                    for name in ["", "x", "01234567890123456789012345678901234"] {
                        for n in [None, Some(0usize), Some(799), Some(800), Some(801), Some(850)] {
                            let mut l: Vec<Val> = n.into_iter().map(|n| big(ty::BLOB, n)).collect();
                            if standard == 1 {
                                l.push(big(ty::MANAGER, 0));
                            }
                            mint(l, standard, mutable, name, who);
                        }
                    }
                }
            }
        }
        let some = if deep { sizes(3, false) } else { vec![0, 1, 8, 780, 800, 801, 850, 1601] };
        for &a in &free {
            for n in sizes(3, deep) {
                mint(vec![big(a, n)], 0, true, "name", 0);
                mint(vec![big(a, n)], 0, true, "name", 4);
            }
            for &b in free.iter().filter(|b| **b != a) {
                for &n in &some {
                    for &m in &some {
                        mint(vec![big(a, n), big(b, m)], 0, true, "name", 0);
                    }
                }
            }
        }
        for r in 0..free.len() {
            for n in [0usize, 3, 500, 851, 1701] {
                let mut l: Vec<Val> = free.iter().map(|t| big(*t, n)).collect();
                l.rotate_left(r);
                mint(l, 0, true, "name", 0);
            }
        }
        // a single extension of an account that is not created yet
        let blank = |x: &Val, n: usize| {
            let mut d = vec![0; HDR];
            d.extend(x.ty().to_le_bytes());
            d.extend((x.bytes().len() as u32).to_le_bytes());
            d.extend((align8(HDR + EXT + n) as u32).to_le_bytes());
            d.extend([0; 4]);
            d.extend(&x.bytes()[..n]);
            d.resize(align8(d.len()), 0);
            d
        };
        for &a in &free {
            for n in sizes(3, deep) {
                let x = big(a, n);
                let f = obj(&[("asset", signer(&FRESH)), ("payer", signer(&PAYER)), ("extension", typed_expr(&x))]);
                let wallet = BOB;
                let e = call("initialize", &[context(&OWNER, &wallet, true), f]);
                v.push(q(
                    format!("{{\"fee\":\"{wallet}\",\"eval\":{e}}}"),
                    Plan {
                        what: format!("initialize {}", labels(&[x.clone()])),
                        start: base(),
                        hands: vec![PAYER, FRESH],
                        target: FRESH,
                        data: blank(&x, x.bytes().len()),
                        payer: PAYER,
                        raw: true,
                    },
                ));
            }
        }
        // bytes of an extension that is allocated already
        for n in if deep { (1..=2600).collect::<Vec<_>>() } else { sizes(4, false).into_iter().chain((1..1800).step_by(41)).filter(|n| *n > 0).collect() } {
            for chunk in [None, Some(1usize), Some(99), Some(849), Some(850)] {
                if chunk == Some(1) && n > 120 || chunk == Some(99) && n > 900 && !deep {
                    continue;
                }
                for (given, before) in [(true, 0), (false, 0), (true, n / 2), (true, n - 1)] {
                    let x = bucket(n);
                    let mut start = base();
                    let mut d = crate::sc_ext::raw_buffer(&[(x.ty(), x.bytes())]);
                    d.truncate(HDR + EXT + before);
                    d[HDR + EXT..].fill(0xee);
                    crate::scenarios::put(&mut start, FRESH, d);
                    let mut f = vec![("asset", signer(&FRESH)), ("data", blob(&x.bytes()))];
                    if given {
                        f.push(("payer", signer(&PAYER)));
                    }
                    if let Some(c) = chunk {
                        f.push(("chunkSize", c.to_string()));
                    }
                    // the wallet that sends the transactions does not pay when somebody else is named
                    let wallet = if given && chunk.map_or(true, |c| c <= 800) { BOB } else { PAYER };
                    let e = call("write", &[context(&OWNER, &wallet, true), obj(&f)]);
                    v.push(q(
                        format!("{{\"fee\":\"{wallet}\",\"eval\":{e}}}"),
                        Plan {
                            what: format!("write of {n} bytes over {before}, chunks of {chunk:?}, payer given {given}"),
                            start,
                            hands: vec![PAYER, FRESH],
                            target: FRESH,
                            data: blank(&x, n),
                            payer: PAYER,
                            raw: true,
                        },
                    ));
                }
            }
        }
        // an extension of an asset, replaced or added through a buffer
        for &t in &free {
            for n in if t == ty::BUCKET { sizes(4, deep) } else { sizes(2, false) } {
                for proxied in [false, true] {
                    for old in 0..3 {
                        for (given, chunk, name) in [
                            (true, None, None),
                            (true, Some(300usize), None),
                            (true, Some(0), None),
                            (false, None, None),
                            (true, None, Some("01234567890123456789012345678901234")),
                            (true, Some(300), Some("n")),
                        ] {
                            if chunk == Some(0) && (n == 0 || n > 900) {
                                continue;
                            }
                            let x = big(t, n);
                            let size = x.bytes().len();
                            // the grouping of an asset is set once
                            if t == ty::GROUPING && old > 0 {
                                continue;
                            }
                            // chunk Some(0) stands for the size of the data less one
                            let chunk = chunk.map(|c| if c == 0 { size.saturating_sub(1).max(1) } else { c });
                            if chunk.is_some_and(|c| c > 850) {
                                continue;
                            }
                            let asset = if proxied { proxy::px() } else { A1 };
                            let mut b = Build::new(OWNER, AUTH).std(if proxied { 3 } else { 0 });
                            if proxied {
                                b = b.ext(ty::PROXY, proxy::proxy_ext(&PROG1, &proxy::SEED, &AUTH));
                            }
                            if old == 1 {
                                b = b.ext(t, big(t, 40).bytes());
                            }
                            if old == 2 {
                                b = b.ext(t, big(t, 1000).bytes());
                            }
                            let after = if t == ty::LINKS { ty::BLOB } else { ty::LINKS };
                            b = b.ext(after, big(after, 9).bytes());
                            let mut start = base();
                            crate::scenarios::put(&mut start, asset, b.bytes());
                            let before = b.bytes().len();
                            let mut want = set(b, &x);
                            if let Some(n) = name {
                                want.a.name = n.as_bytes().to_vec();
                                want.a.name.resize(35, 0);
                                want.a.mutable = 0;
                            }
                            let want = want.bytes();
                            let mut f = vec![("asset", key(&asset)), ("authority", signer(&AUTH)), ("extension", typed_expr(&x))];
                            if let Some(n) = name {
                                f.push(("name", text(n)));
                                f.push(("mutable", "false".into()));
                            }
                            if given {
                                f.push(("payer", signer(&PAYER)));
                            }
                            if let Some(c) = chunk {
                                f.push(("chunkSize", c.to_string()));
                            }
                            if proxied {
                                f.push(("proxy", key(&PROG1)));
                            }
                            // a small update takes its payer, if any, from the caller
                            let chunked = size > chunk.unwrap_or(850).max(850);
                            if !given && !chunked && want.len() != before {
                                continue;
                            }
                            // the wallet that sends the transactions does not pay when somebody else is named
                            let wallet = if given && chunk.map_or(true, |c| c <= 800) { BOB } else { PAYER };
                            let e = call("updateWithBuffer", &[context(&OWNER, &wallet, true), obj(&f)]);
                            v.push(q(
                                format!("{{\"fee\":\"{wallet}\",\"eval\":{e}}}"),
                                Plan {
                                    what: format!(
                                        "updateWithBuffer {} old {old} chunks of {chunk:?} name {name:?} payer given {given} proxied {proxied}",
                                        labels(&[x])
                                    ),
                                    start,
                                    hands: vec![PAYER, AUTH],
                                    target: asset,
                                    data: want,
                                    payer: PAYER,
                                    raw: false,
                                },
                            ));
                        }
                    }
                }
            }
        }
        v
    };
    decide("js-plans", P24, mask, items, |q, got, t| run_plan(&q.want, got, t))
}
