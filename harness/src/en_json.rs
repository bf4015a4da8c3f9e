//! JSON forms of the values of the Rust clients, and the asset file.

use crate::{
    en_ext::{values, Val},
    explore::{Found, Stats},
    keys::*,
    pure::{enumerate, Tally},
    spec::{Tags, P27},
    view::Build,
};
use borsh::{BorshDeserialize, BorshSerialize};
use nifty_asset::{
    AssetFile, ExtensionValue, JsonAttribute, JsonBlob, JsonCreator, JsonExtension, JsonLink, JsonMetadata, JsonRoyalties,
    RoyaltiesKind,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use std::fmt::Debug;

const STANDARDS: [&str; 4] = ["NonFungible", "Managed", "Soulbound", "Proxied"];
const TYPES: [&str; 12] = [
    "None", "Attributes", "Blob", "Creators", "Links", "Metadata", "Grouping", "Royalties", "Manager", "Proxy", "Properties", "Bucket",
];
const ROLES: [&str; 4] = ["None", "Transfer", "Lock", "Burn"];

type Check = fn(&[u8], &Value, &mut Tally) -> Result<(), String>;

/// A value given by its stored bytes: its JSON, and back.
fn both<T>(bytes: &[u8], want: &Value, t: &mut Tally) -> Result<(), String>
where
    T: BorshSerialize + BorshDeserialize + Serialize + DeserializeOwned + PartialEq + Debug,
{
    t.state(bytes);
    let v = T::try_from_slice(bytes).map_err(|e| format!("{bytes:?} is not read: {e}"))?;
    let j = serde_json::to_value(&v).map_err(|e| format!("{v:?} is not written: {e}"))?;
    t.eq("JSON written", &j, want)?;
    let back = |r: Result<T, serde_json::Error>| r.map_err(|e| format!("{want} is not read: {e}"));
    t.eq("value read from JSON", &back(serde_json::from_value(want.clone()))?, &v)?;
    let text = serde_json::to_string(&v).map_err(|e| e.to_string())?;
    t.eq("value read from its JSON text", &back(serde_json::from_str(&text))?, &v)?;
    let text = serde_json::to_string_pretty(want).map_err(|e| e.to_string())?;
    let r = back(serde_json::from_str(&text))?;
    t.eq("bytes of the value read from JSON text", r.try_to_vec().map_err(|e| e.to_string())?, bytes.to_vec())
}

fn raw(b: &[u8]) -> Value {
    json!(b)
}
fn key(k: &Pubkey) -> Value {
    json!(bs58(k))
}
/// Base 58, written out here.
pub fn bs58(k: &Pubkey) -> String {
    const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let k = k.to_bytes();
    let mut digits: Vec<u8> = vec![];
    for b in k {
        let mut c = b as u32;
        for d in digits.iter_mut() {
            c += (*d as u32) << 8;
            *d = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            digits.push((c % 58) as u8);
            c /= 58;
        }
    }
    let zeros = k.iter().take_while(|x| **x == 0).count();
    let mut s = "1".repeat(zeros);
    s.extend(digits.iter().rev().map(|d| A[*d as usize] as char));
    s
}

fn of(v: &Val) -> Option<(Check, Value)> {
    use nifty_asset::types as c;
    let none = Pubkey::default();
    Some(match v {
        Val::Attributes(l) => {
            (both::<c::Attributes> as Check, json!({ "values": l.iter().map(|(n, v)| json!({"name": n, "value": v})).collect::<Vec<_>>() }))
        }
        Val::Links(l) => (both::<c::Links>, json!({ "values": l.iter().map(|(n, v)| json!({"name": n, "uri": v})).collect::<Vec<_>>() })),
        Val::Blob(t, d) => (both::<c::Blob>, json!({"content_type": t, "data": raw(d)})),
        Val::Bucket(d) => (both::<c::Bucket>, json!({ "data": raw(d) })),
        Val::Creators(l) => (
            both::<c::Creators>,
            json!({ "values": l.iter().map(|(k, f, s)| json!({"address": key(k), "verified": f, "share": s})).collect::<Vec<_>>() }),
        ),
        Val::Metadata(m) => {
            let s = |i: usize| m[i].clone().unwrap_or_default();
            (both::<c::Metadata>, json!({"symbol": s(0), "description": s(1), "uri": s(2), "image_uri": s(3)}))
        }
        Val::Grouping(n, m, d) => (
            both::<c::Grouping>,
            json!({"size": n, "max_size": m.unwrap_or(0), "delegate": raw(d.unwrap_or(none).as_ref())}),
        ),
        Val::Manager(k, r) => (both::<c::Manager>, json!({"delegate": {"address": raw(k.unwrap_or(none).as_ref()), "roles": r}})),
        Val::Proxy(p, s, b, a) => (
            both::<c::Proxy>,
            json!({"program": key(p), "seeds": raw(s), "bump": b, "authority": raw(a.unwrap_or(none).as_ref())}),
        ),
        Val::Royalties(..) | Val::Properties(_) => return None,
    })
}

fn st(s: &str) -> Vec<u8> {
    [(s.len() as u32).to_le_bytes().to_vec(), s.as_bytes().to_vec()].concat()
}
fn opt(b: Option<Vec<u8>>) -> Vec<u8> {
    match b {
        None => vec![0],
        Some(b) => [vec![1], b].concat(),
    }
}

/// Extension arguments: bytes and JSON.
fn inputs() -> Vec<(Vec<u8>, Value)> {
    let mut v = vec![];
    for (i, n) in TYPES.iter().enumerate() {
        for len in [0u32, 3, 256, u32::MAX] {
            for d in [None, Some(vec![]), Some(vec![0u8, 255, 7])] {
                let list = d.as_ref().map(|d: &Vec<u8>| [(d.len() as u32).to_le_bytes().to_vec(), d.clone()].concat());
                let bytes = [vec![i as u8], len.to_le_bytes().to_vec(), opt(list)].concat();
                v.push((bytes, json!({"extension_type": n, "length": len, "data": d})));
            }
        }
    }
    v
}

fn forms() -> Vec<(Vec<u8>, Value, Check, &'static str)> {
    use nifty_asset::{accounts as a, instructions as i, types as c};
    let mut v: Vec<(Vec<u8>, Value, Check, &'static str)> = vec![];
    for x in values(false) {
        if let Some((f, j)) = of(&x) {
            v.push((x.bytes(), j, f, "extension"));
        }
    }
    // accounts
    for state in 0..2u8 {
        for std in 0..4u8 {
            for mutable in [false, true] {
                for group in [Pubkey::default(), G1] {
                    for (d, r) in [(Pubkey::default(), 0u8), (DEL, 1), (DEL, 6), (DEL, 7)] {
                        for name in ["", "x", "é→x", "01234567890123456789012345678901234"] {
                            let mut b = Build::new(OWNER, AUTH).std(std).locked(state == 1).mutable(mutable).group(group).delegate(d, r);
                            b.a.name = name.as_bytes().to_vec();
                            b.a.name.resize(35, 0);
                            let j = json!({
                                "discriminator": "Asset",
                                "state": (["Unlocked", "Locked"][state as usize]),
                                "standard": STANDARDS[std as usize],
                                "mutable": mutable,
                                "owner": key(&OWNER),
                                "group": raw(group.as_ref()),
                                "authority": key(&AUTH),
                                "delegate": {"address": raw(d.as_ref()), "roles": r},
                                "name": raw(&b.a.name),
                            });
                            v.push((b.bytes(), j, both::<a::InternalAsset>, "account"));
                        }
                    }
                }
            }
        }
        for disc in 0..2u8 {
            for bump in [0u8, 254, 255] {
                for k in [OWNER, Pubkey::default(), Pubkey::new_from_array([255; 32])] {
                    let j = json!({
                        "discriminator": (["Uninitialized", "Vault"][disc as usize]),
                        "state": (["Idle", "Active"][state as usize]),
                        "bump": bump,
                        "mint": key(&k),
                        "asset_bump": 7,
                    });
                    let bytes = [vec![disc, state, bump], k.to_bytes().to_vec(), vec![7]].concat();
                    v.push((bytes, j, both::<nifty_bridge::accounts::Vault>, "vault"));
                }
            }
        }
    }
    // arguments
    let ins = inputs();
    for (b, j) in &ins {
        v.push((b.clone(), j.clone(), both::<c::ExtensionInput>, "input"));
        v.push((b.clone(), json!({ "extension": j }), both::<i::AllocateInstructionArgs>, "allocate"));
    }
    let mut dels = vec![(vec![0u8], json!("All"))];
    let mut roles: Vec<Vec<u8>> = vec![vec![]];
    for n in 0..3 {
        for l in roles.clone().into_iter().filter(|l| l.len() == n) {
            for r in 0..4u8 {
                roles.push([l.clone(), vec![r]].concat());
            }
        }
    }
    for l in roles {
        let b = [vec![1], (l.len() as u32).to_le_bytes().to_vec(), l.clone()].concat();
        let names: Vec<_> = l.iter().map(|r| ROLES[*r as usize]).collect();
        dels.push((b, json!({"Some": {"roles": names}})));
    }
    for (b, j) in dels {
        v.push((b.clone(), j.clone(), both::<c::DelegateInput>, "delegate"));
        v.push((b.clone(), json!({ "delegate_input": j }), both::<i::ApproveInstructionArgs>, "approve"));
        v.push((b, json!({ "delegate_input": j }), both::<i::RevokeInstructionArgs>, "revoke"));
    }
    let names = ["", "x", "a \"name\" with \\ and é→\n"];
    for n in names {
        for (s, std) in STANDARDS.iter().enumerate() {
            for m in [false, true] {
                let head = [st(n), vec![s as u8, m as u8]].concat();
                let mut lists = vec![None, Some(vec![])];
                lists.extend((0..12).map(|k| Some(vec![&ins[k * 12 + 5], &ins[(k * 19 + 40) % 144]])));
                for l in lists {
                    let j = json!({
                        "name": n, "standard": std, "mutable": m,
                        "extensions": l.as_ref().map(|l| l.iter().map(|x| x.1.clone()).collect::<Vec<_>>()),
                    });
                    let e = l.map(|l| [(l.len() as u32).to_le_bytes().to_vec(), l.iter().flat_map(|x| x.0.clone()).collect()].concat());
                    v.push(([head.clone(), opt(e)].concat(), j, both::<i::CreateInstructionArgs>, "create"));
                }
            }
        }
    }
    for n in [None, Some(""), Some("x"), Some(names[2])] {
        for m in [None, Some(false), Some(true)] {
            for e in std::iter::once(None).chain(ins.iter().step_by(5).map(Some)) {
                let j = json!({"name": n, "mutable": m, "extension": e.map(|x| x.1.clone())});
                let b = [opt(n.map(st)), opt(m.map(|x| vec![x as u8])), opt(e.map(|x| x.0.clone()))].concat();
                v.push((b, j, both::<i::UpdateInstructionArgs>, "update"));
            }
        }
    }
    for o in [false, true] {
        for d in [vec![], vec![0u8], (0..=255).collect::<Vec<u8>>()] {
            let b = [vec![o as u8], (d.len() as u32).to_le_bytes().to_vec(), d.clone()].concat();
            v.push((b, json!({"overwrite": o, "bytes": d}), both::<i::WriteInstructionArgs>, "write"));
        }
        v.push((vec![o as u8], json!({ "is_collection": o }), both::<nifty_bridge::instructions::CreateInstructionArgs>, "bridge"));
    }
    for (n, t) in TYPES.iter().enumerate() {
        v.push((vec![n as u8], json!(t), both::<c::ExtensionType>, "type"));
        v.push((vec![n as u8], json!({ "extension_type": t }), both::<i::RemoveInstructionArgs>, "remove"));
    }
    for x in 0..=16 {
        let n = if x == 16 { u16::MAX } else { 1 << x };
        let b = [vec![1], n.to_le_bytes().to_vec()].concat();
        v.push((b.clone(), json!({"Extend": {"value": n}}), both::<c::Strategy>, "strategy"));
        v.push((b, json!({"strategy": {"Extend": {"value": n}}}), both::<i::ResizeInstructionArgs>, "resize"));
    }
    v.push((vec![0], json!("Trim"), both::<c::Strategy>, "strategy"));
    v.push((vec![0], json!({"strategy": "Trim"}), both::<i::ResizeInstructionArgs>, "resize"));
    for (n, s) in STANDARDS.iter().enumerate() {
        v.push((vec![n as u8], json!(s), both::<c::Standard>, "standard"));
        v.push((vec![n as u8], json!(ROLES[n]), both::<c::DelegateRole>, "role"));
    }
    for (n, s) in ["Text", "Number", "Boolean"].iter().enumerate() {
        v.push((vec![n as u8], json!(s), both::<c::Type>, "property type"));
    }
    for n in 0..2usize {
        v.push((vec![n as u8], json!(["Unlocked", "Locked"][n]), both::<c::State>, "state"));
        v.push((vec![n as u8], json!(["Uninitialized", "Asset"][n]), both::<c::Discriminator>, "discriminator"));
        v.push((vec![n as u8], json!(["Idle", "Active"][n]), both::<nifty_bridge::types::State>, "vault state"));
        v.push((vec![n as u8], json!(["Uninitialized", "Vault"][n]), both::<nifty_bridge::types::Discriminator>, "vault discriminator"));
    }
    for h in [[1u32, 2, 3, 0], [11, u32::MAX, 184, 0]] {
        let b: Vec<u8> = h.iter().flat_map(|x| x.to_le_bytes()).collect();
        v.push((b, json!({"kind": h[0], "length": h[1], "boundary": h[2], "padding": h[3]}), both::<c::ExtensionHeader>, "header"));
    }
    v
}

pub fn run(mask: Tags) -> (Stats, Vec<Found>) {
    let items: Vec<_> = forms().into_iter().map(|(b, j, f, w)| Form(b, j, f, w)).collect();
    enumerate("json-forms", P27, mask, &items, |x, t| (x.2)(&x.0, &x.1, t))
}

struct Form(Vec<u8>, Value, Check, &'static str);
impl Debug for Form {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{} {:?} {}", self.3, self.0, self.1)
    }
}

// ---- the asset file ----------------------------------------------------------------------------

fn ext_values() -> Vec<(u8, Value, ExtensionValue)> {
    use ExtensionValue as E;
    let mut v = vec![];
    let words = ["", "x", "name", "é→\"\\\n"];
    let keys = [OWNER, Pubkey::default(), Pubkey::new_from_array([255; 32])];
    let creator = |i: usize| {
        let (k, f, s) = (keys[i % 3], i % 2 == 0, [0u8, 100, 255, 1][i % 4]);
        (json!({"address": key(&k), "verified": f, "share": s}), JsonCreator { address: k, verified: f, share: s })
    };
    let attribute = |i: usize| {
        let (n, x) = (words[i % 4], words[i / 4 % 4]);
        (json!({"name": n, "value": x}), JsonAttribute { name: n.into(), value: x.into() })
    };
    let link = |i: usize| {
        let (n, x) = (words[i % 4], words[i / 4 % 4]);
        (json!({"name": n, "uri": x}), JsonLink { name: n.into(), uri: x.into() })
    };
    macro_rules! lists {
        ($n:expr, $f:ident, $ty:expr, $mk:expr) => {
            for i in 0..$n {
                let a = $f(i);
                v.push(($ty, json!([a.0]), $mk(vec![a.1.clone()])));
                for j in 0..$n {
                    let b = $f(j);
                    v.push(($ty, json!([a.0, b.0]), $mk(vec![a.1.clone(), b.1.clone()])));
                }
            }
            let all: Vec<_> = (0..40).map(|i| $f(i)).collect();
            let j = Value::Array(all.iter().map(|x| x.0.clone()).collect());
            v.push(($ty, j, $mk(all.into_iter().map(|x| x.1).collect())));
            v.push(($ty, json!([]), $mk(vec![])));
        };
    }
    lists!(12, creator, 3u8, E::JsonCreator);
    lists!(16, attribute, 1u8, E::JsonAttribute);
    lists!(16, link, 4u8, E::JsonLink);
    for i in 0..64 {
        let w = [words[i % 4], words[i / 4 % 4], words[i / 16]];
        v.push((
            5,
            json!({"symbol": w[0], "description": w[1], "uri": w[2]}),
            E::JsonMetadata(JsonMetadata { symbol: w[0].into(), description: w[1].into(), uri: w[2].into() }),
        ));
        if i < 16 {
            v.push((2, json!({"content_type": w[0], "path": w[1]}), E::JsonBlob(JsonBlob { content_type: w[0].into(), path: w[1].into() })));
        }
    }
    for (kind, name) in [(RoyaltiesKind::Allowlist, "Allowlist"), (RoyaltiesKind::Denylist, "Denylist")] {
        for n in [0u64, 1, 500, 10_000, u64::MAX] {
            for m in 0..=3 {
                let items: Vec<_> = keys[..m].iter().map(key).collect();
                v.push((
                    7,
                    json!({"kind": name, "basis_points": n, "items": items}),
                    E::JsonRoyalities(JsonRoyalties { kind: kind.clone(), basis_points: n, items: keys[..m].to_vec() }),
                ));
            }
        }
    }
    v
}

fn types(i: u8) -> nifty_asset::types::ExtensionType {
    nifty_asset::types::ExtensionType::try_from_slice(&[i]).unwrap()
}

#[derive(Debug, Clone)]
enum Item {
    /// A file and what it says.
    Good(Value, Box<AssetFile>),
    /// JSON which may or may not be a file.
    Any(Value),
}

fn file(name: &str, std: usize, mutable: bool, owner: Pubkey, path: Option<&str>, e: &[&(u8, Value, ExtensionValue)]) -> (Value, AssetFile) {
    let exts: Vec<Value> = e.iter().map(|x| json!({"extension_type": TYPES[x.0 as usize], "value": x.1})).collect();
    (
        json!({
            "name": name, "standard": STANDARDS[std], "mutable": mutable, "extensions": exts,
            "owner": key(&owner), "asset_keypair_path": path,
        }),
        AssetFile {
            name: name.into(),
            standard: nifty_asset::types::Standard::try_from_slice(&[std as u8]).unwrap(),
            mutable,
            extensions: e.iter().map(|x| JsonExtension { extension_type: types(x.0), value: x.2.clone() }).collect(),
            owner,
            asset_keypair_path: path.map(Into::into),
        },
    )
}

/// Every place in a JSON tree.
fn places(v: &Value, at: &str, out: &mut Vec<String>) {
    out.push(at.into());
    match v {
        Value::Array(l) => l.iter().enumerate().for_each(|(i, x)| places(x, &format!("{at}/{i}"), out)),
        Value::Object(m) => m.iter().for_each(|(k, x)| places(x, &format!("{at}/{k}"), out)),
        _ => (),
    }
}

// What a file has to look like.
fn is_key(v: &Value) -> bool {
    v.as_str().map_or(false, |s| KEYS.with(|k| k.contains(s)))
}
thread_local!(static KEYS: std::collections::BTreeSet<String> =
    [OWNER, BOB, Pubkey::default(), Pubkey::new_from_array([255; 32])].iter().map(bs58).collect());

fn fields(v: &Value, f: &[(&str, &dyn Fn(&Value) -> bool)]) -> bool {
    v.as_object().map_or(false, |m| f.iter().all(|(n, p)| m.get(*n).map_or(false, p)))
}
fn text(v: &Value) -> bool {
    v.is_string()
}
fn all(v: &Value, p: &dyn Fn(&Value) -> bool) -> bool {
    v.as_array().map_or(false, |l| l.iter().all(p))
}
fn below(n: u64) -> impl Fn(&Value) -> bool {
    move |v| v.as_u64().map_or(false, |x| x <= n)
}
fn is_value(v: &Value) -> bool {
    let creator = |v: &Value| fields(v, &[("address", &is_key), ("verified", &Value::is_boolean), ("share", &below(255))]);
    let attribute = |v: &Value| fields(v, &[("name", &text), ("value", &text)]);
    let link = |v: &Value| fields(v, &[("name", &text), ("uri", &text)]);
    all(v, &creator)
        || all(v, &attribute)
        || all(v, &link)
        || fields(v, &[("content_type", &text), ("path", &text)])
        || fields(v, &[("symbol", &text), ("description", &text), ("uri", &text)])
        || fields(
            v,
            &[
                ("kind", &|v| v == "Allowlist" || v == "Denylist"),
                ("basis_points", &below(u64::MAX)),
                ("items", &|v| all(v, &is_key)),
            ],
        )
}
fn is_file(v: &Value) -> bool {
    let name = |l: &'static [&'static str]| move |v: &Value| v.as_str().map_or(false, |s| l.contains(&s));
    let path = v.get("asset_keypair_path").map_or(true, |x| x.is_null() || x.is_string());
    let ext = |v: &Value| fields(v, &[("extension_type", &name(&TYPES)), ("value", &is_value)]);
    path && fields(
        v,
        &[
            ("name", &text),
            ("standard", &name(&STANDARDS)),
            ("mutable", &Value::is_boolean),
            ("extensions", &|v| all(v, &ext)),
            ("owner", &is_key),
        ],
    )
}

pub fn files(mask: Tags) -> (Stats, Vec<Found>) {
    let vals = ext_values();
    let mut items = vec![];
    let mut good = |x: (Value, AssetFile)| items.push(Item::Good(x.0, Box::new(x.1)));
    for name in ["", "x", "é→\"\\\n", "a name longer than the thirty-five bytes of an asset"] {
        for std in 0..4 {
            for m in [false, true] {
                for k in [OWNER, Pubkey::default(), Pubkey::new_from_array([255; 32])] {
                    for p in [None, Some(""), Some("dir/key.json")] {
                        good(file(name, std, m, k, p, &[]));
                    }
                }
            }
        }
    }
    for x in &vals {
        good(file("x", 0, true, OWNER, None, &[x]));
    }
    let few: Vec<_> = [3u8, 1, 4, 2, 5, 7].iter().flat_map(|t| vals.iter().filter(move |x| x.0 == *t).skip(2).step_by(9).take(3)).collect();
    for a in &few {
        for b in &few {
            good(file("x", 1, false, BOB, Some("k"), &[*a, *b]));
        }
    }
    good(file("x", 1, false, BOB, Some("k"), &few));
    // files which are damaged in one place
    let junk = [
        json!(null), json!(true), json!(7), json!(-1), json!(256), json!(1.5), json!("zz"), json!(""), json!([]), json!({}), json!([7]),
        key(&BOB), json!("Managed"), json!("Grouping"), json!("Denylist"), json!(bs58(&BOB) + "1"), json!("0OIl"),
        few[0].1.clone(), few[4].1.clone(), few[7].1.clone(), few[10].1.clone(), few[13].1.clone(), few[16].1.clone(),
        few[0].1[0].clone(), few[4].1[0].clone(), few[7].1[0].clone(),
    ];
    let (whole, _) = file("x", 1, false, BOB, Some("k"), &few.iter().step_by(2).copied().collect::<Vec<_>>());
    let mut at = vec![];
    places(&whole, "", &mut at);
    for p in &at {
        for j in &junk {
            let mut v = whole.clone();
            *v.pointer_mut(p).unwrap() = j.clone();
            items.push(Item::Any(v));
        }
        // left out
        if let Some((of, last)) = p.rsplit_once('/') {
            let mut v = whole.clone();
            match v.pointer_mut(of).unwrap() {
                Value::Object(m) => {
                    m.remove(last);
                }
                Value::Array(l) => {
                    l.remove(last.parse().unwrap());
                }
                _ => (),
            }
            items.push(Item::Any(v));
        }
    }
    enumerate("json-files", P27, mask, &items, |x, t| match x {
        Item::Good(j, f) => {
            t.check("the form of a good file", is_file(j))?;
            let text = serde_json::to_string(j).unwrap();
            t.state(text.as_bytes());
            let pretty = serde_json::to_string_pretty(j).unwrap();
            for s in [&text, &pretty] {
                let got: AssetFile = serde_json::from_str(s).map_err(|e| format!("file {s} is not read: {e}"))?;
                same(&got, f, t)?;
            }
            let mut less = j.clone();
            if less["asset_keypair_path"].is_null() {
                less.as_object_mut().unwrap().remove("asset_keypair_path");
                let got: AssetFile = serde_json::from_value(less).map_err(|e| format!("file {text} without its path is not read: {e}"))?;
                same(&got, f, t)?;
            }
            let out = serde_json::to_value(&**f).map_err(|e| format!("{f:?} is not written: {e}"))?;
            t.eq("file written", &out, j)?;
            for (e, je) in f.extensions.iter().zip(j["extensions"].as_array().unwrap()) {
                let got: JsonExtension = serde_json::from_value(je.clone()).map_err(|e| format!("extension {je} is not read: {e}"))?;
                t.eq("extension read", data(&got.value), data(&e.value))?;
            }
            Ok(())
        }
        Item::Any(j) => {
            let text = serde_json::to_string(j).unwrap();
            t.state(text.as_bytes());
            let r: Result<AssetFile, _> = serde_json::from_str(&text);
            match (is_file(j), r) {
                (true, Err(e)) => Err(format!("file {text} is not read: {e}")),
                (false, Ok(f)) => Err(format!("{text} is no asset file but read as {f:?}")),
                (true, Ok(f)) => t.eq("file read and written", strip(serde_json::to_value(&f).unwrap()), strip(j.clone())),
                (false, Err(_)) => {
                    t.refused += 1;
                    Ok(())
                }
            }
        }
    })
}

/// Fields that are not written.
fn strip(mut v: Value) -> Value {
    if let Some(m) = v.as_object_mut() {
        if m.get("asset_keypair_path").map_or(false, Value::is_null) {
            m.remove("asset_keypair_path");
        }
    }
    v
}

/// An empty list is the same for every kind of list.
fn data(v: &ExtensionValue) -> Result<Vec<u8>, ExtensionValue> {
    match v {
        ExtensionValue::JsonCreator(l) if l.is_empty() => Ok(vec![]),
        ExtensionValue::JsonAttribute(l) if l.is_empty() => Ok(vec![]),
        ExtensionValue::JsonLink(l) if l.is_empty() => Ok(vec![]),
        v => Err(v.clone()),
    }
}

fn same(got: &AssetFile, want: &AssetFile, t: &mut Tally) -> Result<(), String> {
    let head = |f: &AssetFile| (f.name.clone(), f.standard.clone() as u8, f.mutable, f.owner, f.asset_keypair_path.clone());
    t.eq("file", head(got), head(want))?;
    let list = |f: &AssetFile| f.extensions.iter().map(|e| (e.extension_type as u8, data(&e.value))).collect::<Vec<_>>();
    t.eq("extensions of the file", list(got), list(want))?;
    // and what they become
    for (a, b) in got.extensions.iter().zip(&want.extensions) {
        if !matches!(b.value, ExtensionValue::JsonBlob(_)) {
            t.eq("bytes of an extension", a.value.clone().into_data(), b.value.clone().into_data())?;
        }
    }
    Ok(())
}
