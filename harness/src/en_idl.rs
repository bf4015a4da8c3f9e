//! The published interface descriptions (`idls/*.json`, and the one embedded in the program) and the
//! library that embeds one in a program binary and finds it there again.

use crate::{
    bridge::{BRIDGE, B_SLOTS, C_SLOTS},
    en_ext::{self, Val},
    en_wire,
    explore::{Found, Stats},
    js::repo,
    keys::*,
    op::*,
    proxy::PROXY,
    pure::{enumerate, Tally},
    report::root,
    spec::*,
    view::Build,
};
use serde_json::Value;
use solana_program::{pubkey::Pubkey, system_program};
use std::{
    io::Read,
    str::FromStr,
    sync::atomic::{AtomicUsize, Ordering::*},
};

// ---- values ---------------------------------------------------------------------------------

/// A value of a described type; fields and variants go by name.
#[derive(Clone, Debug, PartialEq)]
enum J {
    N(u64),
    B(bool),
    T(Vec<u8>),
    Y(Vec<u8>),
    K(Pubkey),
    L(Vec<J>),
    M(Option<Box<J>>),
    R(Vec<(&'static str, J)>),
    /// variant, and its fields
    V(&'static str, Vec<(&'static str, J)>),
}
use J::*;

/// Names are compared without regard to case and underscores.
fn flat(s: &str) -> String {
    s.chars().filter(|c| *c != '_').collect::<String>().to_lowercase()
}

const STANDARDS: [&str; 4] = ["nonFungible", "managed", "soulbound", "proxied"];
const ROLES: [&str; 4] = ["none", "transfer", "lock", "burn"];
const TYPES: [&str; 12] = [
    "none", "attributes", "blob", "creators", "links", "metadata", "grouping", "royalties", "manager", "proxy", "properties",
    "bucket",
];

fn e(names: &[&'static str], n: usize) -> J {
    V(names[n], vec![])
}
fn opt(x: Option<J>) -> J {
    M(x.map(Box::new))
}
fn ext(x: &ExtIn) -> J {
    R(vec![("extensionType", e(&TYPES, x.ty as usize)), ("length", N(x.len as u64)), ("data", opt(x.data.clone().map(Y)))])
}
fn deleg(d: &Deleg) -> J {
    match d {
        Deleg::All => V("all", vec![]),
        Deleg::Some(r) => V("some", vec![("roles", L(r.iter().map(|x| e(&ROLES, *x as usize)).collect()))]),
    }
}

/// The arguments of an instruction.
fn args(i: &Ins) -> Vec<(&'static str, J)> {
    match i {
        Ins::Create(c) => vec![
            ("name", T(c.name.clone())),
            ("standard", e(&STANDARDS, c.standard as usize)),
            ("mutable", B(c.mutable)),
            ("extensions", opt(c.exts.as_ref().map(|v| L(v.iter().map(ext).collect())))),
        ],
        Ins::Approve(d) | Ins::Revoke(d) => vec![("delegateInput", deleg(d))],
        Ins::Allocate(x) => vec![("extension", ext(x))],
        Ins::Update(u) => vec![
            ("name", opt(u.name.clone().map(T))),
            ("mutable", opt(u.mutable.map(B))),
            ("extension", opt(u.ext.as_ref().map(ext))),
        ],
        Ins::Write { overwrite, bytes } => vec![("overwrite", B(*overwrite)), ("bytes", Y(bytes.clone()))],
        Ins::Remove(t) => vec![("extensionType", e(&TYPES, *t as usize))],
        Ins::Trim => vec![("strategy", V("trim", vec![]))],
        Ins::Extend(n) => vec![("strategy", V("extend", vec![("value", N(*n as u64))]))],
        Ins::ProxyCreate(n) => vec![("name", T(n.clone()))],
        _ => vec![],
    }
}

fn name(i: &Ins) -> &'static str {
    match i {
        Ins::Trim | Ins::Extend(_) => "Resize",
        Ins::ProxyCreate(_) => "Create",
        i => i.name(),
    }
}

fn stored(v: &Val) -> Option<(&'static str, J)> {
    let st = |s: &String| T(s.clone().into_bytes());
    let key = |k: &Option<Pubkey>| K(k.unwrap_or_default());
    let pairs = |v: &[(String, String)], a, b| L(v.iter().map(|(n, x)| R(vec![(a, st(n)), (b, st(x))])).collect());
    Some(match v {
        Val::Attributes(v) => ("attributes", R(vec![("values", pairs(v, "name", "value"))])),
        Val::Links(v) => ("links", R(vec![("values", pairs(v, "name", "uri"))])),
        Val::Blob(c, d) => ("blob", R(vec![("contentType", st(c)), ("data", Y(d.clone()))])),
        Val::Bucket(d) => ("bucket", R(vec![("data", Y(d.clone()))])),
        Val::Creators(v) => (
            "creators",
            R(vec![(
                "values",
                L(v.iter().map(|(k, f, s)| R(vec![("address", K(*k)), ("verified", B(*f)), ("share", N(*s as u64))])).collect()),
            )]),
        ),
        Val::Metadata(v) => {
            let x = |i: usize| T(v[i].clone().unwrap_or_default().into_bytes());
            ("metadata", R(vec![("symbol", x(0)), ("description", x(1)), ("uri", x(2)), ("imageUri", x(3))]))
        }
        Val::Grouping(n, m, d) => {
            ("grouping", R(vec![("size", N(*n)), ("maxSize", N(m.unwrap_or(0))), ("delegate", key(d))]))
        }
        Val::Manager(k, r) => ("manager", R(vec![("delegate", R(vec![("address", key(k)), ("roles", N(*r as u64))]))])),
        Val::Proxy(p, s, b, a) => (
            "proxy",
            R(vec![("program", K(*p)), ("seeds", Y(s.to_vec())), ("bump", N(*b as u64)), ("authority", key(a))]),
        ),
        Val::Royalties(..) | Val::Properties(_) => return None,
    })
}

// ---- reading a description ----------------------------------------------------------------------

#[derive(Debug)]
enum Bad {
    /// says something this reader does not know
    Open(String),
    Wrong(String),
}
type Enc<T> = Result<T, Bad>;

fn open<T>(s: impl Into<String>) -> Enc<T> {
    Err(Bad::Open(s.into()))
}
fn wrong<T>(s: impl Into<String>) -> Enc<T> {
    Err(Bad::Wrong(s.into()))
}

/// A description: its file, what is in it, and whether it is in the Codama dialect.
struct Doc {
    file: &'static str,
    v: Value,
    codama: bool,
}

fn list<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v[k].as_array().map(|a| &a[..]).unwrap_or(&[])
}
fn text<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}
fn named<'a>(v: &'a [Value], n: &str) -> Option<&'a Value> {
    v.iter().find(|x| flat(text(x, "name")) == flat(n))
}

fn number(format: &str, big: bool, n: u64, o: &mut Vec<u8>) -> Enc<()> {
    let w = match format {
        "u8" => 1,
        "u16" => 2,
        "u32" => 4,
        "u64" => 8,
        f => return open(format!("number format {f}")),
    };
    if w < 8 && n >> (8 * w) != 0 {
        return wrong(format!("{n} does not fit {format}"));
    }
    let mut b = n.to_le_bytes()[..w].to_vec();
    if big {
        b.reverse();
    }
    o.extend(b);
    Ok(())
}

impl Doc {
    fn program(&self) -> &Value {
        if self.codama {
            &self.v["program"]
        } else {
            &self.v
        }
    }
    fn address(&self) -> Option<Pubkey> {
        let s = if self.codama { text(self.program(), "publicKey") } else { text(&self.v["metadata"], "address") };
        Pubkey::from_str(s).ok()
    }
    fn instruction(&self, n: &str) -> Option<&Value> {
        named(list(self.program(), "instructions"), n)
    }
    fn defined(&self, n: &str) -> Option<&Value> {
        named(list(self.program(), if self.codama { "definedTypes" } else { "types" }), n).map(|x| &x["type"])
    }

    fn fields(&self, at: &str, fs: &[Value], vals: &[(&'static str, J)], o: &mut Vec<u8>) -> Enc<()> {
        for f in fs {
            let n = text(f, "name");
            match vals.iter().find(|v| flat(v.0) == flat(n)) {
                Some(v) => self.put(&format!("{at}.{n}"), &f["type"], &v.1, o)?,
                None => return wrong(format!("{at} has a field {n}")),
            }
        }
        for v in vals {
            if named(fs, v.0).is_none() {
                return wrong(format!("{at} has no field {}", v.0));
            }
        }
        Ok(())
    }

    fn prefix(&self, t: &Value, n: usize, o: &mut Vec<u8>) -> Enc<()> {
        number(text(t, "format"), text(t, "endian") == "be", n as u64, o)
    }

    /// The bytes of a value, as the description has them.
    fn put(&self, at: &str, t: &Value, v: &J, o: &mut Vec<u8>) -> Enc<()> {
        if self.codama {
            self.codama(at, t, v, o)
        } else {
            self.shank(at, t, v, o)
        }
    }

    fn codama(&self, at: &str, t: &Value, v: &J, o: &mut Vec<u8>) -> Enc<()> {
        let kind = text(t, "kind");
        match (kind, v) {
            ("numberTypeNode", N(n)) => self.prefix(t, *n as usize, o),
            ("booleanTypeNode", B(b)) => self.prefix(&t["size"], *b as usize, o),
            ("publicKeyTypeNode", K(k)) => Ok(o.extend(k.to_bytes())),
            ("stringTypeNode", T(b)) => match text(t, "encoding") {
                "utf8" => Ok(o.extend(b)),
                x => open(format!("encoding {x}")),
            },
            ("bytesTypeNode", Y(b)) => Ok(o.extend(b)),
            ("sizePrefixTypeNode", v) => {
                let mut x = vec![];
                self.put(at, &t["type"], v, &mut x)?;
                self.prefix(&t["prefix"], x.len(), o)?;
                Ok(o.extend(x))
            }
            ("fixedSizeTypeNode", v) => {
                let mut x = vec![];
                self.put(at, &t["type"], v, &mut x)?;
                x.resize(t["size"].as_u64().unwrap_or(0) as usize, 0);
                Ok(o.extend(x))
            }
            ("optionTypeNode", M(x)) => {
                if t["fixed"] == Value::Bool(true) {
                    return open("options of fixed size");
                }
                self.prefix(&t["prefix"], x.is_some() as usize, o)?;
                match x {
                    Some(x) => self.put(at, &t["item"], x, o),
                    None => Ok(()),
                }
            }
            ("arrayTypeNode", L(_) | Y(_)) => {
                let items = match v {
                    L(x) => x.clone(),
                    Y(b) => b.iter().map(|x| N(*x as u64)).collect(),
                    _ => unreachable!(),
                };
                let c = &t["count"];
                match text(c, "kind") {
                    "prefixedCountNode" => self.prefix(&c["prefix"], items.len(), o)?,
                    "remainderCountNode" => (),
                    "fixedCountNode" if c["value"].as_u64() == Some(items.len() as u64) => (),
                    "fixedCountNode" => return wrong(format!("{at}: {} instead of {} items", c["value"], items.len())),
                    x => return open(format!("count {x}")),
                }
                items.iter().try_for_each(|x| self.put(at, &t["item"], x, o))
            }
            ("structTypeNode", R(x)) => self.fields(at, list(t, "fields"), x, o),
            ("enumTypeNode", V(n, x)) => {
                let vs = list(t, "variants");
                let Some(i) = vs.iter().position(|y| flat(text(y, "name")) == flat(n)) else {
                    return wrong(format!("{at} has no variant {n}"));
                };
                let w = &vs[i];
                let d = w["discriminator"].as_u64().unwrap_or(i as u64);
                self.prefix(&t["size"], d as usize, o)?;
                match text(w, "kind") {
                    "enumEmptyVariantTypeNode" => self.fields(at, &[], x, o),
                    "enumStructVariantTypeNode" => self.fields(at, list(&w["struct"], "fields"), x, o),
                    k => open(format!("variant {k}")),
                }
            }
            ("definedTypeLinkNode", v) => {
                let n = text(t, "name");
                match (flat(n).as_str(), v) {
                    // defined by the clients
                    ("nullablepublickey", K(k)) if t.get("importFrom").is_some() => Ok(o.extend(k.to_bytes())),
                    ("delegateroles", N(r)) if t.get("importFrom").is_some() => Ok(o.push(*r as u8)),
                    _ => match self.defined(n) {
                        Some(d) => self.put(n, d, v, o),
                        None => wrong(format!("{at}: the type {n} is not defined")),
                    },
                }
            }
            (
                "numberTypeNode" | "booleanTypeNode" | "publicKeyTypeNode" | "stringTypeNode" | "bytesTypeNode" | "optionTypeNode"
                | "arrayTypeNode" | "structTypeNode" | "enumTypeNode",
                v,
            ) => wrong(format!("{at} is a {kind}, for {v:?}")),
            _ => open(format!("{at}: type {kind}")),
        }
    }

    fn shank(&self, at: &str, t: &Value, v: &J, o: &mut Vec<u8>) -> Enc<()> {
        if let Some(s) = t.as_str() {
            return match (s, v) {
                ("u8" | "u16" | "u32" | "u64", N(n)) => number(s, false, *n, o),
                ("bool", B(b)) => Ok(o.push(*b as u8)),
                ("publicKey", K(k)) => Ok(o.extend(k.to_bytes())),
                ("string", T(b)) | ("bytes", Y(b)) => {
                    o.extend((b.len() as u32).to_le_bytes());
                    Ok(o.extend(b))
                }
                ("u8" | "u16" | "u32" | "u64" | "bool" | "publicKey" | "string" | "bytes", v) => wrong(format!("{at} is {s}, for {v:?}")),
                _ => open(format!("{at}: type {s}")),
            };
        }
        if let Some(n) = t["defined"].as_str() {
            return match (self.defined(n), v) {
                (Some(d), v) => self.put(n, d, v, o),
                // described only by their names
                (None, V(x, f)) if f.is_empty() => {
                    let names: &[&str] = match flat(n).as_str() {
                        "standard" => &STANDARDS,
                        "delegaterole" => &ROLES,
                        "extensiontype" => &TYPES,
                        _ => return wrong(format!("{at}: the type {n} is not defined")),
                    };
                    match names.iter().position(|y| y == x) {
                        Some(i) => Ok(o.push(i as u8)),
                        None => wrong(format!("{at}: {n} for {x}")),
                    }
                }
                _ => wrong(format!("{at}: the type {n} is not defined")),
            };
        }
        if let Some(i) = t.get("option") {
            return match v {
                M(None) => Ok(o.push(0)),
                M(Some(x)) => {
                    o.push(1);
                    self.put(at, i, x, o)
                }
                v => wrong(format!("{at} is an option, for {v:?}")),
            };
        }
        if let Some(i) = t.get("vec") {
            return match v {
                L(x) => {
                    o.extend((x.len() as u32).to_le_bytes());
                    x.iter().try_for_each(|x| self.put(at, i, x, o))
                }
                v => wrong(format!("{at} is a list, for {v:?}")),
            };
        }
        match (text(t, "kind"), v) {
            ("struct", R(x)) => self.fields(at, list(t, "fields"), x, o),
            ("enum", V(n, x)) => {
                let vs = list(t, "variants");
                let Some(i) = vs.iter().position(|y| flat(text(y, "name")) == flat(n)) else {
                    return wrong(format!("{at} has no variant {n}"));
                };
                o.push(i as u8);
                self.fields(at, list(&vs[i], "fields"), x, o)
            }
            ("struct" | "enum", v) => wrong(format!("{at}: {t} for {v:?}")),
            _ => open(format!("{at}: type {t}")),
        }
    }

    /// The data of an instruction; arguments left out of `vals` take the described default.
    fn data(&self, ix: &Value, vals: &[(&'static str, J)]) -> Enc<Vec<u8>> {
        let mut o = vec![];
        if !self.codama {
            let d = &ix["discriminant"];
            number(text(d, "type"), false, d["value"].as_u64().unwrap_or(u64::MAX), &mut o)?;
        }
        let ds = list(ix, "discriminators");
        for a in list(ix, if self.codama { "arguments" } else { "args" }) {
            let n = text(a, "name");
            for d in ds {
                if text(d, "kind") == "fieldDiscriminatorNode" && text(d, "name") == n && d["offset"].as_u64() != Some(o.len() as u64) {
                    return wrong(format!("discriminator {n} at {} instead of {}", d["offset"], o.len()));
                }
            }
            let given = vals.iter().find(|v| flat(v.0) == flat(n)).map(|v| v.1.clone());
            let v = match (given, &a["defaultValue"]) {
                (None, d) if d.is_object() => default(d)?,
                (Some(v), _) => v,
                // one record for all the arguments
                (None, _) if !vals.is_empty() => R(vals.to_vec()),
                (None, _) => return wrong(format!("argument {n}")),
            };
            self.put(n, &a["type"], &v, &mut o)?;
        }
        for v in vals {
            if self.codama && named(list(ix, "arguments"), v.0).is_none() {
                return wrong(format!("no argument {}", v.0));
            }
        }
        Ok(o)
    }
}

fn default(d: &Value) -> Enc<J> {
    Ok(match text(d, "kind") {
        "numberValueNode" => N(d["number"].as_u64().unwrap_or(u64::MAX)),
        "booleanValueNode" => B(d["boolean"] == Value::Bool(true)),
        "noneValueNode" => M(None),
        "enumValueNode" => {
            let n = flat(text(d, "variant"));
            match STANDARDS.iter().find(|x| flat(x) == n) {
                Some(x) => V(x, vec![]),
                None => return open(format!("default {d}")),
            }
        }
        _ => return open(format!("default {d}")),
    })
}

/// What a case says about a description. Things this reader does not know are left open.
fn settle<T>(x: Enc<T>, t: &mut Tally) -> Result<Option<T>, String> {
    match x {
        Ok(x) => Ok(Some(x)),
        Err(Bad::Open(_)) => {
            t.steps += 1;
            t.open += 1;
            Ok(None)
        }
        Err(Bad::Wrong(s)) => Err(s),
    }
}

// ---- the documents --------------------------------------------------------------------------------

const FILES: [&str; 6] = [
    "asset-program.codama.json", "asset_program.json", "nifty_asset_interface.json", "bridge_program.json", "proxy_program.json", EMBEDDED,
];
const EMBEDDED: &str = "embedded in the program";
const INTERFACE: usize = 2;
const BRIDGE_DOC: usize = 3;
const PROXY_DOC: usize = 4;

fn inflate(b: &[u8]) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    flate2::read::ZlibDecoder::new(b).read_to_end(&mut v).map_err(|e| e.to_string())?;
    Ok(v)
}

fn raw(i: usize) -> Result<Vec<u8>, String> {
    if FILES[i] == EMBEDDED {
        return inflate(asset_program::IDL_BYTES);
    }
    std::fs::read(format!("{}/idls/{}", repo(), FILES[i])).map_err(|e| e.to_string())
}

fn doc(i: usize) -> Result<Doc, String> {
    let v: Value = serde_json::from_slice(&raw(i)?).map_err(|e| format!("not JSON: {e}"))?;
    let codama = v.get("program").is_some();
    Ok(Doc { file: FILES[i], v, codama })
}

#[derive(Clone, Debug)]
enum Case {
    /// the description as a whole
    Whole,
    /// data of an instruction
    Data(Ins),
    /// data with arguments left to their defaults
    Omitted(Ins, Vec<&'static str>),
    Bridge(Option<bool>),
    /// account list
    Accounts(Ins),
    BridgeAccounts(bool),
    Stored(Val),
    Header(Vec<u8>),
    Extension([u32; 3]),
    Number(&'static str, usize, &'static str),
}

const ERRORS: usize = 22;

fn whole(i: usize, d: &Doc, t: &mut Tally) -> Result<(), String> {
    let id = [asset_program::ID, asset_program::ID, asset_program::ID, BRIDGE, PROXY, asset_program::ID][i];
    t.eq("address of the program", d.address(), Some(id))?;
    let ixs = list(d.program(), "instructions");
    let n = match i {
        BRIDGE_DOC => 2,
        PROXY_DOC => 1,
        _ => 18,
    };
    t.eq("instructions", ixs.len(), n)?;
    let mut names: Vec<String> = ixs.iter().map(|x| flat(text(x, "name"))).collect();
    names.sort();
    names.dedup();
    t.eq("names of the instructions", names.len(), n)?;
    let errs = list(d.program(), "errors");
    if i == INTERFACE && errs.is_empty() {
        return Ok(());
    }
    let count = if n == 18 { ERRORS } else { 2 };
    t.eq("errors", errs.len(), count)?;
    for c in 0..count as u32 {
        use num_traits::FromPrimitive;
        let Some(x) = errs.iter().find(|x| x["code"].as_u64() == Some(c as u64)) else {
            return Err(format!("error {c} is not described"));
        };
        let msg = if d.codama { text(x, "message") } else { text(x, "msg") };
        let (name, says) = if n == 18 {
            let a = asset_program::error::AssetError::from_u32(c).ok_or(format!("error {c} is unknown to the program"))?;
            let says = (format!("{a:?}"), a.to_string());
            t.eq(&format!("code of error {c}"), a.into(), solana_program::program_error::ProgramError::Custom(c))?;
            says
        } else {
            let a = nifty_bridge::errors::BridgeError::from_u32(c).ok_or(format!("error {c} is unknown to the client"))?;
            let says = ["Invalid mint account", "Invalid authority account"][c as usize];
            (format!("{a:?}"), says.to_string())
        };
        t.eq(&format!("name of error {c}"), flat(text(x, "name")), flat(&name))?;
        t.eq(&format!("text of error {c}"), msg.to_string(), says)?;
    }
    Ok(())
}

/// (name, signer: no / yes / may, writable, optional)
type Slot = (String, u8, bool, bool);

fn described(d: &Doc, ix: &Value, t: &mut Tally) -> Result<Vec<Slot>, String> {
    let mut v = vec![];
    for a in list(ix, "accounts") {
        let n = flat(text(a, "name"));
        let yes = |k: &str| a[k] == Value::Bool(true);
        let signer = match (&a["isSigner"], yes("isOptionalSigner")) {
            (_, true) => 2,
            (Value::String(s), _) if s == "either" => 2,
            (Value::Bool(true), _) => 1,
            _ => 0,
        };
        let optional = yes("isOptional");
        if d.codama && optional {
            let s = ix["optionalAccountStrategy"].as_str().unwrap_or("programId");
            t.eq("what stands for an absent account", s, "programId")?;
        }
        // keys described as defaults
        let mut todo = vec![&a["defaultValue"]];
        while let Some(x) = todo.pop() {
            if text(x, "kind") == "publicKeyValueNode" {
                let want = match n.as_str() {
                    "systemprogram" => Some(system_program::ID),
                    "niftyassetprogram" => Some(asset_program::ID),
                    _ => None,
                };
                if let Some(w) = want {
                    t.eq(&format!("default of {n}"), Pubkey::from_str(text(x, "publicKey")).ok(), Some(w))?;
                }
            }
            if let Some(m) = x.as_object() {
                todo.extend(m.values());
            }
        }
        v.push((n, signer, yes(if d.codama { "isWritable" } else { "isMut" }), optional));
    }
    Ok(v)
}

fn wanted(ins: &Ins) -> Vec<Slot> {
    let may = match ins {
        Ins::Create(_) => "authority",
        Ins::Trim | Ins::Extend(_) => "payer",
        _ => "",
    };
    ins.slots()
        .iter()
        .map(|(n, f)| {
            let n = match *n {
                "system" => "system_program",
                "asset_program" => "nifty_asset_program",
                n => n,
            };
            (flat(n), if n == may { 2 } else { (f & S != 0) as u8 }, f & W != 0, f & O != 0)
        })
        .collect()
}

fn judge(i: usize, d: &Doc, c: &Case, t: &mut Tally) -> Result<(), String> {
    let ix = |n: &str| d.instruction(n).ok_or(format!("{n} is not described"));
    match c {
        Case::Whole => whole(i, d, t),
        Case::Data(ins) => {
            let want = ins.encode();
            t.state(&want);
            let Some(got) = settle(d.data(ix(name(ins))?, &args(ins)), t)? else { return Ok(()) };
            t.eq(&format!("data of {}", name(ins)), got.clone(), want)?;
            if i != PROXY_DOC {
                en_wire::understood(ins, &got, t)?;
            }
            Ok(())
        }
        Case::Omitted(ins, keep) => {
            let a: Vec<_> = args(ins).into_iter().filter(|x| keep.contains(&x.0)).collect();
            let Some(got) = settle(d.data(ix(name(ins))?, &a), t)? else { return Ok(()) };
            t.eq(&format!("data of {} with arguments left out", name(ins)), got, ins.encode())
        }
        Case::Bridge(c) => {
            let (n, a, want) = match c {
                None => ("Bridge", vec![], vec![0u8]),
                Some(c) => ("Create", vec![("isCollection", B(*c))], vec![1u8, *c as u8]),
            };
            t.state(&want);
            let Some(got) = settle(d.data(ix(n)?, &a), t)? else { return Ok(()) };
            t.eq(&format!("data of {n}"), got, want)
        }
        Case::Accounts(ins) => {
            let n = name(ins);
            let mut got = described(d, ix(n)?, t)?;
            let want = wanted(ins);
            // the interface is also implemented by programs that have the asset sign
            if i == INTERFACE {
                for (g, w) in got.iter_mut().zip(&want) {
                    if g.0 == "asset" && w.1 == 0 {
                        g.1 = 0;
                    }
                }
            }
            t.eq(&format!("accounts of {n}"), got, want)
        }
        Case::BridgeAccounts(create) => {
            let (n, s): (_, &[(&str, bool, bool)]) = if *create { ("Create", &C_SLOTS) } else { ("Bridge", &B_SLOTS) };
            let free = ["token_record", "vault_token_record", "authorization_rules_program", "authorization_rules", "group_asset", "collection"];
            let want: Vec<Slot> =
                s.iter().map(|x| (flat(x.0), if x.0 == "update_authority" { 2 } else { x.1 as u8 }, x.2, free.contains(&x.0))).collect();
            let got = described(d, ix(n)?, t)?;
            t.eq(&format!("accounts of {n}"), got, want)
        }
        Case::Stored(v) => {
            let (n, j) = stored(v).unwrap();
            let Some(ty) = d.defined(n) else { return Err(format!("{n} is not described")) };
            let mut o = vec![];
            if settle(d.put(n, ty, &j, &mut o), t)?.is_none() {
                return Ok(());
            }
            t.state(&o);
            t.eq(&format!("stored {n}"), o.clone(), v.bytes())?;
            let built = v.build(0, t)?;
            t.eq(&format!("{n} as the library builds it"), built, o)
        }
        Case::Header(b) => {
            let a = crate::view::Asset::parse(b).ok_or("no asset")?;
            let acc = named(list(d.program(), "accounts"), "internalAsset")
                .or(named(list(d.program(), "accounts"), "asset"))
                .ok_or("the account is not described")?;
            let j = R(vec![
                ("discriminator", e(&["uninitialized", "asset"], a.disc as usize)),
                ("state", e(&["unlocked", "locked"], a.state as usize)),
                ("standard", e(&STANDARDS, a.standard as usize)),
                ("mutable", B(a.mutable == 1)),
                ("owner", K(a.owner)),
                ("group", K(a.group)),
                ("authority", K(a.authority)),
                ("delegate", R(vec![("address", K(a.delegate)), ("roles", N(a.roles as u64))])),
                ("name", T(a.name.clone())),
            ]);
            let mut o = vec![];
            if settle(d.put("asset account", &acc["data"], &j, &mut o), t)?.is_none() {
                return Ok(());
            }
            t.state(&o);
            t.eq("asset account", o, b[..168].to_vec())
        }
        Case::Extension(n) => {
            let Some(ty) = d.defined("extensionHeader") else { return Err("extension headers are not described".into()) };
            let v = |i: usize| N(n[i] as u64);
            let j = R(vec![("kind", v(0)), ("length", v(1)), ("boundary", v(2)), ("padding", N(0))]);
            let mut o = vec![];
            if settle(d.put("extensionHeader", ty, &j, &mut o), t)?.is_none() {
                return Ok(());
            }
            use nifty_asset_types::extensions::{Extension, ExtensionType};
            let x = Extension::new(ExtensionType::try_from(n[0]).map_err(|_| "extension type")?, n[1], n[2]);
            let real = unsafe { std::slice::from_raw_parts(&x as *const _ as *const u8, std::mem::size_of_val(&x)) };
            t.state(&o);
            t.eq("extension header", o, real.to_vec())
        }
        Case::Number(ty, n, v) => {
            let Some(x) = d.defined(ty) else { return Err(format!("{ty} is not described")) };
            let mut o = vec![];
            if settle(d.put(ty, x, &V(v, vec![]), &mut o), t)?.is_some() {
                t.eq(&format!("number of {v}"), o, vec![*n as u8])?;
            }
            Ok(())
        }
    }
}

fn cases(i: usize, thorough: bool) -> Vec<Case> {
    let mut v = vec![Case::Whole];
    match i {
        BRIDGE_DOC => {
            v.extend([None, Some(false), Some(true)].map(Case::Bridge));
            v.extend([false, true].map(Case::BridgeAccounts));
            for (ty, names) in [("Discriminator", ["Uninitialized", "Vault"]), ("State", ["Idle", "Active"])] {
                v.extend(names.iter().enumerate().map(|(i, n)| Case::Number(ty, i, n)));
            }
            return v;
        }
        PROXY_DOC => {
            for n in [&b""[..], b"a", &[b'n'; 35], "\u{4e2d}\u{1f600}".as_bytes(), &[b'z'; 300]] {
                v.push(Case::Data(Ins::ProxyCreate(n.to_vec())));
            }
            v.push(Case::Accounts(Ins::ProxyCreate(vec![])));
            return v;
        }
        _ => (),
    }
    let all = en_wire::instructions(thorough);
    let mut seen = vec![];
    for x in &all {
        if !seen.contains(&name(x)) {
            seen.push(name(x));
            v.push(Case::Accounts(x.clone()));
        }
    }
    v.extend(all.into_iter().map(Case::Data));
    if i == 0 || FILES[i] == EMBEDDED {
        for (ty, names) in [
            ("standard", &STANDARDS[..]),
            ("delegateRole", &ROLES),
            ("extensionType", &TYPES),
            ("state", &["unlocked", "locked"]),
            ("discriminator", &["uninitialized", "asset"]),
            ("type", &["text", "number", "boolean"]),
        ]
        {
            v.extend(names.iter().enumerate().map(|(i, n)| Case::Number(ty, i, n)));
        }
        for n in ["", "name"] {
            let c = |standard, mutable, exts| Ins::Create(CreateIn { name: n.into(), standard, mutable, exts });
            v.push(Case::Omitted(c(0, true, None), vec!["name"]));
            v.push(Case::Omitted(c(1, true, None), vec!["name", "standard"]));
            v.push(Case::Omitted(c(0, false, Some(vec![])), vec!["name", "mutable", "extensions"]));
        }
        v.push(Case::Omitted(Ins::Update(UpdateIn { name: None, mutable: None, ext: None }), vec![]));
        v.push(Case::Omitted(Ins::Update(UpdateIn { name: None, mutable: Some(false), ext: None }), vec!["mutable"]));
        v.push(Case::Omitted(Ins::Update(UpdateIn { name: Some(b"n".to_vec()), mutable: None, ext: None }), vec!["name"]));
        v.extend(en_ext::values(thorough).into_iter().filter(|x| stored(x).is_some()).map(Case::Stored));
        for std in 0..4u8 {
            for (locked, mutable, group, del, roles) in [
                (false, true, Pubkey::default(), Pubkey::default(), 0u8),
                (true, false, G1, DEL, 7),
                (false, false, G2, DEL2, 2),
                (true, true, G1, DEL, 5),
            ] {
                for n in ["", "x", "a name of exactly thirty five bytes", "\u{4e2d}\u{1f600}"] {
                    let mut b = Build::new(OWNER, AUTH).std(std).locked(locked).mutable(mutable).group(group).delegate(del, roles);
                    b.a.name = n.bytes().take(35).collect();
                    b.a.name.resize(35, 0);
                    v.push(Case::Header(b.bytes()));
                }
            }
        }
        for ty in 0..12u32 {
            for len in [0u32, 1, 255, 256, 65536, u32::MAX] {
                v.push(Case::Extension([ty, len, 184 + ty * 8]));
                v.push(Case::Extension([ty, len, 0x0102_0308]));
            }
        }
    }
    v
}

/// The descriptions against the programs.
pub fn descriptions(mask: Tags, thorough: bool) -> (Stats, Vec<Found>) {
    if mask & P25 == 0 {
        return Default::default();
    }
    let docs: Vec<Result<Doc, String>> = (0..FILES.len()).map(doc).collect();
    let items: Vec<(usize, Case)> = (0..FILES.len()).flat_map(|i| cases(i, thorough).into_iter().map(move |c| (i, c))).collect();
    enumerate("idl-descriptions", P25, mask, &items, |(i, c), t| match &docs[*i] {
        Ok(d) => judge(*i, d, c, t).map_err(|s| format!("{}: {s}", d.file)),
        Err(s) => Err(format!("{}: {s}", FILES[*i])),
    })
}

// ---- embedded in a binary ---------------------------------------------------------------------

static RUN: AtomicUsize = AtomicUsize::new(0);

/// Compresses with the real library, through scratch files.
fn compress(json: &[u8]) -> Result<Vec<u8>, String> {
    let dir = root().join("target/idl");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let run = format!("{}-{}", std::process::id(), RUN.fetch_add(1, Relaxed));
    let (a, b) = (dir.join(format!("{run}.json")), dir.join(format!("{run}.zip")));
    std::fs::write(&a, json).map_err(|e| e.to_string())?;
    // an older, longer file is replaced
    std::fs::write(&b, vec![7u8; json.len() + 500]).map_err(|e| e.to_string())?;
    let r = std::panic::catch_unwind(|| solana_include_idl::compress_idl(&a, &b)).map_err(|_| "compress_idl panicked".to_string());
    let z = std::fs::read(&b).map_err(|e| e.to_string());
    let same = std::fs::read(&a).map(|x| x == json).unwrap_or(false);
    let _ = std::fs::remove_file(&a);
    let _ = std::fs::remove_file(&b);
    r?;
    if !same {
        return Err("compress_idl changed its input".into());
    }
    z
}

#[derive(Clone, Debug)]
struct Binary {
    /// which JSON document
    json: usize,
    kind: usize,
    /// order of the section headers
    order: usize,
    /// order of the contents in the file
    place: usize,
    /// bytes between the contents
    gap: usize,
    /// sections that look alike
    decoys: bool,
    /// leave out the data (1) or the type (2), or both (3)
    missing: u8,
}

const KINDS: [&str; 6] = ["codama", "anchor", "Codama", "ANCHOR", "CODAMA", "Anchor"];

fn documents(thorough: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![b"{}".to_vec(), b"[]".to_vec(), b"null".to_vec(), b"0".to_vec(), b"\"\"".to_vec(), b" {\n\"a\" : [1, -2.5, true]\n} ".to_vec()];
    v.push("{\"\u{e9}\u{4e2d}\":\"\u{1f600}\\u0000\\n\",\"n\":18446744073709551615,\"m\":-9223372036854775808}".into());
    let mut n = 1usize;
    while n < if thorough { 3_000_000 } else { 300_000 } {
        v.push(format!("[{}]", vec!["{\"k\":7}"; n / 8 + 1].join(",")).into_bytes());
        // poorly compressible
        let (mut s, mut x) = (String::from("\""), 88172645463325252u64);
        for _ in 0..n {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            s.push((b'a' + (x % 26) as u8) as char);
        }
        s.push('"');
        v.push(s.into_bytes());
        n = n * 3 + 1;
    }
    v.extend((0..FILES.len()).filter_map(|i| raw(i).ok()));
    v
}

const PERMS: [[usize; 4]; 24] = {
    let mut p = [[0usize; 4]; 24];
    let mut n = 0;
    let mut i = 0;
    while i < 256 {
        let (a, b, c, d) = (i / 64, i / 16 % 4, i / 4 % 4, i % 4);
        if a != b && a != c && a != d && b != c && b != d && c != d {
            p[n] = [a, b, c, d];
            n += 1;
        }
        i += 1;
    }
    p
};

/// Stands for a name that lies outside the table of names.
const NAMELESS: &str = "\u{1}";

/// An ELF file with a program's sections; where its parts lie, too.
fn elf(b: &Binary, data: &[u8], kind: &[u8]) -> (Vec<u8>, Vec<(usize, usize)>) {
    // contents: type text, data, type section, data section
    let order = PERMS[b.place];
    let mut at = [0usize; 4];
    let mut f = vec![0u8; 64];
    let mut parts = vec![(0, 64)];
    for p in order {
        f.extend(vec![0xa5u8; b.gap]);
        at[p] = f.len();
        match p {
            0 => f.extend(kind),
            1 => f.extend(data),
            _ => f.extend([0u8; 16]),
        }
        parts.push((at[p], f.len()));
    }
    for (sec, what, len) in [(2, 0, kind.len()), (3, 1, data.len())] {
        let (s, w) = (at[sec], at[what] as u32);
        f[s + 4..s + 8].copy_from_slice(&w.to_le_bytes());
        f[s + 8..s + 16].copy_from_slice(&(len as u64).to_le_bytes());
    }
    let junk = f.len();
    f.extend([0xffu8; 16]);
    // section headers: name, offset, size
    let mut secs: Vec<(&str, usize, usize)> = vec![(".text", 0, 64)];
    if b.missing & 2 == 0 {
        secs.push((".idl.type", at[2], 16));
    }
    if b.missing & 1 == 0 {
        secs.push((".idl.data", at[3], 16));
    }
    secs.push((".rodata", at[1], data.len()));
    if b.decoys {
        secs.extend([(".idl", junk, 16), (".idl.dat", junk, 16), (".idl.typed", junk, 16), ("x.idl.data", junk, 16), (".IDL.TYPE", junk, 16), (".idl.data.rel", junk, 16), ("idl.type", junk, 16), (NAMELESS, junk, 16)]);
    }
    let k = b.order % secs.len();
    secs.rotate_left(k);
    if b.order / secs.len() % 2 == 1 {
        secs.reverse();
    }
    secs.insert(0, ("", 0, 0));
    let mut names = vec![0u8];
    let mut at_name = vec![];
    secs.push((".shstrtab", 0, 0));
    for s in &secs {
        at_name.push(if s.0.is_empty() { 0 } else if s.0 == NAMELESS { 1 << 20 } else { names.len() });
        if !s.0.is_empty() && s.0 != NAMELESS {
            names.extend(s.0.bytes());
            names.push(0);
        }
    }
    let n = secs.len();
    let tab = f.len();
    secs[n - 1].1 = tab;
    secs[n - 1].2 = names.len();
    f.extend(names);
    parts.push((tab, f.len()));
    while f.len() % 8 != 0 {
        f.push(0);
    }
    let head = f.len();
    for (i, s) in secs.iter().enumerate() {
        let ty: u32 = if i == 0 { 0 } else if i == n - 1 { 3 } else { 1 };
        f.extend((at_name[i] as u32).to_le_bytes());
        f.extend(ty.to_le_bytes());
        f.extend([0u8; 16]);
        f.extend((s.1 as u64).to_le_bytes());
        f.extend((s.2 as u64).to_le_bytes());
        f.extend([0u8; 8]);
        f.extend(1u64.to_le_bytes());
        f.extend([0u8; 8]);
    }
    parts.push((head, f.len()));
    let mut h = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0];
    h.extend([0u8; 8]);
    h.extend(3u16.to_le_bytes());
    h.extend(247u16.to_le_bytes());
    h.extend(1u32.to_le_bytes());
    h.extend([0u8; 16]);
    h.extend((head as u64).to_le_bytes());
    h.extend([0u8; 4]);
    for x in [64u16, 56, 0, 64, n as u16, n as u16 - 1] {
        h.extend(x.to_le_bytes());
    }
    f[..64].copy_from_slice(&h);
    (f, parts)
}

fn found(f: &[u8]) -> Result<Option<(String, Value)>, ()> {
    std::panic::catch_unwind(|| solana_include_idl::parse::parse_idl_from_program_binary(f).ok().map(|(k, v)| (k.as_str().to_string(), v)))
        .map_err(|_| ())
}

pub fn binaries(mask: Tags, thorough: bool) -> (Stats, Vec<Found>) {
    if mask & P26 == 0 {
        return Default::default();
    }
    let docs = documents(thorough);
    let packed: Vec<Result<Vec<u8>, String>> = docs.iter().map(|d| crate::vm::quiet(|| compress(d))).collect();
    let mut items: Vec<Binary> = vec![];
    for json in 0..docs.len() {
        let small = docs[json].len() < 2000;
        for kind in 0..KINDS.len() {
            items.push(Binary { json, kind, order: 0, place: 0, gap: 0, decoys: false, missing: 0 });
        }
        for place in 0..24 {
            for order in 0..if small { 22 } else { 3 } {
                for (gap, decoys) in [(0, true), (5, false), (4096, true)] {
                    items.push(Binary { json, kind: (place + order) % 6, order, place, gap, decoys, missing: 0 });
                }
            }
            for missing in 1..4 {
                items.push(Binary { json, kind: place % 6, order: place, place, gap: 3, decoys: place % 2 == 0, missing });
            }
        }
    }
    enumerate("idl-binaries", P26, mask, &items, |b, t| {
        let (json, z) = (&docs[b.json], packed[b.json].as_ref().map_err(|e| e.clone())?);
        if b.order == 0 && b.place == 0 && b.missing == 0 {
            t.eq("compressed and expanded again", inflate(z)? == *json, true)?;
            let k = solana_include_idl::parse::IdlType::from_str(KINDS[b.kind])?;
            t.eq("type by name", (k.as_str().to_string(), k.to_string()), (KINDS[b.kind].to_lowercase(), KINDS[b.kind].to_lowercase()))?;
            for odd in ["", "codam", "codamaa", " codama", "codama\0", "shank", "anchor "] {
                t.eq("an unknown type", solana_include_idl::parse::IdlType::from_str(odd).is_err(), true)?;
                t.refused += 1;
            }
        }
        let want: Value = serde_json::from_slice(json).map_err(|e| e.to_string())?;
        let (f, parts) = elf(b, z, KINDS[b.kind].as_bytes());
        t.state(&f);
        let whole = Some((KINDS[b.kind].to_lowercase(), want));
        let got = found(&f).map_err(|_| "panics on a binary".to_string())?;
        if b.missing != 0 {
            t.refused += 1;
            return t.check("finds a description in a binary that lacks a section", got.is_none());
        }
        t.eq("description found in the binary", got, whole.clone())?;
        // a damaged byte of the data: never another description
        if z.len() < 400 && b.gap == 0 && b.order % 5 == 0 {
            for i in 0..z.len() {
                for x in [1u8, 2, 0x10, 0x80, 0xff] {
                    let mut d = z.clone();
                    d[i] ^= x;
                    let (g, _) = elf(b, &d, KINDS[b.kind].as_bytes());
                    match found(&g) {
                        Ok(Some(x)) => t.check(&format!("another description in the binary with byte {i} of its data damaged"), Some(x) == whole)?,
                        _ => {
                            t.steps += 1;
                            t.refused += 1;
                        }
                    }
                }
            }
        }
        // a binary cut off, or with any of its parts cut: never another description
        let cuts: Vec<usize> = if f.len() < 1200 && b.gap == 0 && b.order % 5 == 0 {
            (0..f.len()).collect()
        } else {
            parts.iter().flat_map(|p| [p.0, p.0 + 1, (p.0 + p.1) / 2, p.1 - (p.1 > 0) as usize]).filter(|c| *c < f.len()).collect()
        };
        for n in cuts {
            if let Ok(Some(x)) = found(&f[..n]) {
                t.check(&format!("another description in the binary cut off at {n}"), Some(x) == whole)?;
            } else {
                t.steps += 1;
                t.refused += 1;
            }
        }
        Ok(())
    })
}

/// What the asset program's own statics hold.
pub fn statics(mask: Tags) -> (Stats, Vec<Found>) {
    let items = [0usize];
    enumerate("idl-statics", P26, mask, &items, |_, t| {
        t.state(asset_program::IDL_BYTES);
        t.eq("type of the embedded description", asset_program::IDL_TYPE, &b"codama"[..])?;
        let v = inflate(asset_program::IDL_BYTES)?;
        let v: Value = serde_json::from_slice(&v).map_err(|e| e.to_string())?;
        t.eq("kind of the embedded description", text(&v, "kind"), "rootNode")?;
        let b = Binary { json: 0, kind: 0, order: 3, place: 7, gap: 9, decoys: true, missing: 0 };
        let (f, _) = elf(&b, asset_program::IDL_BYTES, asset_program::IDL_TYPE);
        t.eq("embedded description found in a binary", found(&f), Ok(Some(("codama".to_string(), v))))
    })
}
