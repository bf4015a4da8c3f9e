//! The client's mint plans and the chunked writes from inside another program, executed.

use crate::{
    explore::{Found, Stats},
    keys::*,
    op::{Ins, ASSET},
    pure::{enumerate, Tally},
    scenarios::base,
    spec::*,
    view::{self, *},
    vm::{exec, register, rent, Ix, Meta, Prog, TRACE},
};
use nifty_asset::types::{ExtensionType as X, Standard};
use nifty_asset_types::constraints::{Account, ConstraintBuilder, NotBuilder, OwnedByBuilder, PubkeyMatchBuilder};
use nifty_asset_types::extensions::*;
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, message::Message, pubkey::Pubkey, system_program};
use std::sync::Arc;

const TYPES: [X; 12] = [
    X::None, X::Attributes, X::Blob, X::Creators, X::Links, X::Metadata, X::Grouping, X::Royalties, X::Manager, X::Proxy,
    X::Properties, X::Bucket,
];

/// Bytes that differ from position to position and start with a zero (an empty content type).
fn pattern(n: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 31) ^ (i >> 8)) as u8).collect()
}

/// `n` creators; the shares add up to 100 and every second one claims to be verified.
fn many_creators(n: usize, owner_at: usize) -> Vec<u8> {
    let v: Vec<view::Creator> = (0..n)
        .map(|i| {
            let mut k = [7u8; 32];
            k[0] = i as u8;
            k[1] = (i >> 8) as u8;
            view::Creator {
                key: if i == owner_at { OWNER } else { Pubkey::new_from_array(k) },
                verified: (i % 2) as u8,
                share: if i == n - 1 { 100 - 99.min(n as u8 - 1) } else { (i < 99) as u8 },
            }
        })
        .collect();
    creators_bytes(&v)
}

type Item = (u32, Arc<Vec<u8>>);

#[derive(Clone, Debug)]
struct Plan {
    name: usize,
    standard: u8,
    mutable: bool,
    payer: Option<Pubkey>,
    exts: Vec<Item>,
}

fn short(v: &[Item]) -> String {
    v.iter().map(|(t, d)| format!("{t}:{}", d.len())).collect::<Vec<_>>().join(" ")
}

fn item(t: u32, d: Vec<u8>) -> Item {
    (t, Arc::new(d))
}

/// One value of each type, around a size.
fn typed(t: u32, n: usize) -> Vec<u8> {
    let s = |n: usize| "é".repeat(n / 2) + if n % 2 == 1 { "x" } else { "" };
    match t {
        ty::ATTRIBUTES => {
            let mut b = AttributesBuilder::default();
            let mut left = n;
            while left > 2 {
                let v = (left - 2).min(250);
                b.add("n", &s(v));
                left = left.saturating_sub(v + 3);
            }
            b.data()
        }
        ty::BLOB => {
            let mut b = BlobBuilder::default();
            b.set_data("image/png", &pattern(n));
            b.data()
        }
        ty::CREATORS => many_creators((n / 34).clamp(1, 99), n % 3),
        ty::LINKS => {
            let mut b = LinksBuilder::default();
            for i in 0..=n / 200 {
                b.add(&format!("l{i}"), &s((n - i * 200).min(196)));
            }
            b.data()
        }
        ty::METADATA => {
            let mut b = MetadataBuilder::default();
            b.set(Some("SYM"), Some(&s(n.min(255))), Some(&s(n.saturating_sub(255).min(255))), (n % 2 == 1).then_some("i"));
            b.data()
        }
        ty::GROUPING => {
            let mut b = GroupingBuilder::default();
            b.set(if n == 0 { None } else { Some(n as u64) }, (n % 2 == 1).then_some(&GDEL));
            b.data()
        }
        ty::ROYALTIES => {
            let keys: Vec<Pubkey> = (0..n / 32).map(|i| Pubkey::new_from_array([i as u8; 32])).collect();
            let mut c = PubkeyMatchBuilder::default();
            c.set(Account::Recipient, &keys);
            let mut b = RoyaltiesBuilder::default();
            b.set(500, &mut c);
            b.data()
        }
        ty::MANAGER => manager_bytes(&MGR, 5),
        ty::PROPERTIES => {
            let mut b = PropertiesBuilder::default();
            for i in 0..=n / 40 {
                b.add::<u64>(&format!("property {i}"), i as u64);
            }
            b.data()
        }
        _ => pattern(n),
    }
}

fn standard(s: u8) -> Standard {
    match s {
        0 => Standard::NonFungible,
        1 => Standard::Managed,
        2 => Standard::Soulbound,
        _ => Standard::Proxied,
    }
}

/// Runs the plan one transaction per instruction and compares the result.
fn plan(p: &Plan, t: &mut Tally) -> Result<(), String> {
    let name: String = "n".repeat(p.name);
    let ixs = nifty_asset::mint(nifty_asset::MintIxArgs {
        accounts: nifty_asset::MintAccounts { asset: FRESH, owner: OWNER, payer: p.payer },
        asset_args: nifty_asset::AssetArgs { name: name.clone(), standard: standard(p.standard), mutable: p.mutable },
        extension_args: p
            .exts
            .iter()
            .map(|(ty, d)| nifty_asset::ExtensionArgs { extension_type: TYPES[*ty as usize], data: d.to_vec() })
            .collect(),
    })
    .map_err(|e| format!("no plan: {e}"))?;
    let payer = p.payer.unwrap_or(OWNER);
    let start = base();
    let mut w = start.clone();
    for (i, ix) in ixs.iter().enumerate() {
        let what = format!("instruction {i} of {} ({})", ixs.len(), short(&p.exts));
        // the transaction that carries it
        let m = Message::new(&[ix.clone()], Some(&payer));
        let packet = 1 + 64 * m.header.num_required_signatures as usize + m.serialize().len();
        t.check(&format!("{what}: the packet has {packet} bytes"), packet <= 1232)?;
        for a in &ix.accounts {
            t.check(&format!("{what}: needs the signature of {}", a.pubkey), !a.is_signer || a.pubkey == FRESH || a.pubkey == payer)?;
        }
        w = exec(&w, &[Ix::from(ix)], 1).map_err(|e| format!("{what}: {e}"))?;
        t.steps += 1;
        t.state(w.data(&FRESH));
    }
    let mut want = Build::new(OWNER, OWNER).std(p.standard).mutable(p.mutable);
    want.a.name = name.into_bytes();
    want.a.name.resize(35, 0);
    for (ty, d) in &p.exts {
        let mut d = d.to_vec();
        if *ty == ty::CREATORS {
            let mut c = creators(&d).unwrap();
            for c in c.iter_mut() {
                c.verified = (c.key == OWNER) as u8;
            }
            d = creators_bytes(&c);
        }
        want = want.ext(*ty, d);
    }
    let want = want.bytes();
    t.check("the account does not belong to the program", w.owner(&FRESH) == ASSET)?;
    let (got, want) = (Asset::parse_raw(w.data(&FRESH)), Asset::parse_raw(&want));
    if got != want {
        return Err(format!("({}) {got:?} instead of {want:?}", short(&p.exts)).chars().take(900).collect());
    }
    t.eq("lamports of the asset", w.lamports(&FRESH), rent(w.data(&FRESH).len()))?;
    t.eq("lamports of the payer", w.lamports(&payer) + w.lamports(&FRESH), start.lamports(&payer))
}

/// Data sizes around the limits of an allocate and a write.
fn edges(k: usize) -> Vec<usize> {
    let mut v = vec![0usize, 1, 7, 8, 9];
    for i in 0..=k {
        for d in [-2i64, -1, 0, 1, 2] {
            v.push((920 + 925 * i as i64 + d) as usize);
        }
    }
    v.push(10_240);
    v.push(10_241);
    v
}

pub fn mint(mask: Tags, deep: bool) -> (Stats, Vec<Found>) {
    let one = |exts: Vec<Item>| Plan { name: 4, standard: 0, mutable: true, payer: Some(PAYER), exts };
    let mut items = vec![];
    // every length of a single extension
    for n in 0..=if deep { 30_000 } else { 6_000 } {
        items.push(one(vec![item(ty::BUCKET, pattern(n))]));
    }
    // header values
    for name in 0..=35 {
        for standard in 0..3u8 {
            for mutable in [true, false] {
                for payer in [None, Some(PAYER), Some(OWNER)] {
                    for big in [0usize, 921] {
                        let mut exts = vec![];
                        if standard == MANAGED {
                            exts.push(item(ty::MANAGER, typed(ty::MANAGER, 0)));
                        }
                        if big > 0 {
                            exts.push(item(ty::BLOB, typed(ty::BLOB, big)));
                        }
                        items.push(Plan { name, standard, mutable, payer, exts });
                    }
                }
            }
        }
    }
    // every pair and triple of extensions over the edge sizes
    let sizes = if deep { edges(4) } else { vec![0, 1, 8, 911, 919, 920, 921, 1844, 1845, 1846, 2770, 2771] };
    let free: Vec<u32> = (1..=NTYPES).filter(|t| ![ty::MANAGER, ty::PROXY].contains(t)).collect();
    for &a in &free {
        for &n in &edges(3) {
            items.push(one(vec![item(a, typed(a, n))]));
        }
        for &b in &free {
            if a == b {
                continue;
            }
            for &n in &sizes {
                for &m in &sizes {
                    items.push(one(vec![item(a, typed(a, n)), item(b, typed(b, m))]));
                }
            }
        }
    }
    let raw = [ty::BUCKET, ty::BLOB, ty::ATTRIBUTES];
    for &n in &sizes {
        for &m in &sizes {
            for &o in &sizes {
                items.push(one(raw.iter().zip([n, m, o]).map(|(t, n)| item(*t, typed(*t, n))).collect()));
            }
        }
    }
    // every type at once, in each rotation
    for r in 0..free.len() {
        for n in [0usize, 3, 500, 921, 1846] {
            let mut v: Vec<Item> = free.iter().map(|t| item(*t, typed(*t, n))).collect();
            v.rotate_left(r);
            items.push(one(v));
        }
    }
    enumerate("mint-plans", P18, mask, &items, plan)
}

/// A program that stores extension data through the client's helper.
fn writer<'a>(id: &'a Pubkey, accounts: &'a [AccountInfo<'a>], data: &[u8]) -> ProgramResult {
    let [asset, payer, system, program] = accounts else { panic!("accounts") };
    let ty = TYPES[data[1] as usize];
    let bytes = &data[2..];
    let bump = Pubkey::find_program_address(&[b"writer"], id).1;
    if data[0] == 0 {
        nifty_asset::allocate_and_write!(program, asset, payer, system, ty, bytes);
    } else {
        nifty_asset::allocate_and_write!(program, asset, payer, system, ty, bytes, &[&[b"writer", &[bump]]]);
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Chunks {
    derived: bool,
    exts: Vec<Item>,
}

use nifty_asset::allocate_and_write;

pub fn chunks(mask: Tags, deep: bool) -> (Stats, Vec<Found>) {
    crate::vm::init();
    register(WRITER, Prog::Sol(writer));
    let mut sizes = vec![0usize, 1, 7, 8, 9];
    for i in 0..3usize {
        for d in -8i64..=8 {
            sizes.push((1163 + 1172 * i as i64 + d) as usize);
        }
    }
    let mut items = vec![];
    for derived in [false, true] {
        for n in 0..=if deep { 10_056 } else { 6_000 } {
            items.push(Chunks { derived, exts: vec![item(ty::BUCKET, pattern(n))] });
        }
        for &n in &sizes {
            for &m in &sizes {
                items.push(Chunks { derived, exts: vec![item(ty::BUCKET, pattern(n)), item(ty::BLOB, pattern(m + 1))] });
            }
        }
        for t in [ty::ATTRIBUTES, ty::BLOB, ty::CREATORS, ty::LINKS, ty::METADATA, ty::GROUPING, ty::ROYALTIES, ty::PROPERTIES] {
            for &n in &sizes {
                items.push(Chunks { derived, exts: vec![item(t, typed(t, n)), item(ty::BUCKET, pattern(5))] });
            }
        }
    }
    enumerate("chunked-writes", P18, mask, &items, |c, t| {
        let asset = if c.derived { Pubkey::find_program_address(&[b"writer"], &WRITER).0 } else { FRESH };
        let mut w = base();
        w.program(WRITER);
        let start = w.clone();
        let mut want = Build::new(Pubkey::default(), Pubkey::default());
        want.a.disc = 0;
        want.a.mutable = 0;
        want.a.name = vec![0; 35];
        for (ty, d) in &c.exts {
            let mut data = vec![c.derived as u8, *ty as u8];
            data.extend(d.iter());
            let m = |key, signer, writable| Meta { key, signer, writable };
            let ix = Ix {
                program: WRITER,
                metas: vec![
                    m(asset, !c.derived, true),
                    m(PAYER, true, true),
                    m(system_program::ID, false, false),
                    m(ASSET, false, false),
                ],
                data,
            };
            TRACE.with(|t| *t.borrow_mut() = Some(vec![]));
            let r = exec(&w, &[ix], 1);
            let calls = TRACE.with(|t| t.borrow_mut().take()).unwrap_or_default();
            w = r.map_err(|e| format!("({}) {e}", short(&c.exts)))?;
            t.steps += 1;
            for ix in calls.iter().filter(|i| i.program == ASSET) {
                // what a runtime with the smaller limit on instructions between programs accepts
                let size = ix.metas.len() * 34 + ix.data.len();
                t.check(&format!("({}) an instruction of {size} bytes", short(&c.exts)), size <= 1280)?;
                t.check("not an allocate or write", matches!(crate::op::decode(&ix.data), Some(Ins::Allocate(_) | Ins::Write { .. })))?;
            }
            t.state(w.data(&asset));
            let mut d = d.to_vec();
            if *ty == ty::CREATORS {
                // the flag of a creator in a buffer means nothing until the asset is created
                let mut v = creators(&d).unwrap();
                let got = Asset::parse_raw(w.data(&asset));
                let now = got.ext(*ty).and_then(creators).unwrap_or_default();
                t.eq("creators", now.len(), v.len())?;
                v.iter_mut().zip(now).for_each(|(v, n)| v.verified = n.verified);
                d = creators_bytes(&v);
            }
            want = want.ext(*ty, d);
            let (got, want) = (Asset::parse_raw(w.data(&asset)), Asset::parse_raw(&want.bytes()));
            if got != want {
                return Err(format!("({}) {got:?} instead of {want:?}", short(&c.exts)).chars().take(900).collect());
            }
        }
        t.eq("lamports of the payer", w.lamports(&PAYER) + w.lamports(&asset), start.lamports(&PAYER))
    })
}

#[derive(Clone, Debug)]
enum Value {
    Creators(Vec<(u8, bool, u8)>),
    Attributes(Vec<(usize, usize)>),
    Links(Vec<(usize, usize)>),
    Blob(usize, usize),
    Metadata(usize, usize, usize),
    Royalties(bool, u64, usize),
}

/// The plain values that the client turns into extension data.
pub fn values(mask: Tags) -> (Stats, Vec<Found>) {
    let lens = [0usize, 1, 2, 31, 127, 128, 254, 255];
    let mut items = vec![];
    let mut pairs = vec![vec![]];
    for a in lens {
        for b in lens {
            pairs.push(vec![(a, b)]);
            pairs.push(vec![(a, b), (b, a)]);
            pairs.push(vec![(1, 1), (a, b), (2, 0)]);
        }
    }
    for p in pairs {
        items.push(Value::Attributes(p.clone()));
        items.push(Value::Links(p));
    }
    for a in lens {
        for b in lens {
            for c in lens {
                items.push(Value::Metadata(a, b, c));
            }
            items.push(Value::Blob(a, b));
        }
        for d in [600usize, 4000] {
            items.push(Value::Blob(a, d));
        }
    }
    let one: Vec<(u8, bool, u8)> = (0..2u8).flat_map(|k| [0u8, 1, 99, 100, 255].map(|s| (k, k == 1, s))).collect();
    items.push(Value::Creators(vec![]));
    for a in &one {
        items.push(Value::Creators(vec![*a]));
        for b in &one {
            items.push(Value::Creators(vec![*a, *b]));
            for c in &one {
                items.push(Value::Creators(vec![*a, *b, *c]));
            }
        }
    }
    for allow in [true, false] {
        for bp in [0u64, 1, 500, 10_000, u64::MAX] {
            for n in [0usize, 1, 2, 3, 8] {
                items.push(Value::Royalties(allow, bp, n));
            }
        }
    }
    use nifty_asset::*;
    let s = |n: usize| "é".repeat(n / 2) + if n % 2 == 1 { "x" } else { "" };
    let key = |n: u8| Pubkey::new_from_array([n + 1; 32]);
    let dir = std::env::temp_dir().join(format!("vp-values-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let r = enumerate("json-values", P18, mask, &items, |v, t| {
        let (got, want) = match v {
            Value::Creators(c) => {
                let mut b = CreatorsBuilder::default();
                let mut list = vec![];
                for (k, v, s) in c {
                    b.add(&key(*k), *v, *s);
                    let j = JsonCreator { address: key(*k), verified: *v, share: *s };
                    t.eq("JsonCreator read back", JsonCreator::from_data(&j.clone().into_data()), j.clone())?;
                    list.push(j);
                }
                (ExtensionValue::JsonCreator(list).into_data(), b.data())
            }
            Value::Attributes(p) => {
                let mut b = AttributesBuilder::default();
                for (n, v) in p {
                    b.add(&s(*n), &s(*v));
                }
                let list = p.iter().map(|(n, v)| JsonAttribute { name: s(*n), value: s(*v) }).collect();
                (ExtensionValue::JsonAttribute(list).into_data(), b.data())
            }
            Value::Links(p) => {
                let mut b = LinksBuilder::default();
                for (n, v) in p {
                    b.add(&s(*n), &s(*v));
                }
                let list = p.iter().map(|(n, v)| JsonLink { name: s(*n), uri: s(*v) }).collect();
                (ExtensionValue::JsonLink(list).into_data(), b.data())
            }
            Value::Blob(c, d) => {
                let path = dir.join(format!("{c}-{d}"));
                std::fs::write(&path, pattern(*d)).map_err(|e| e.to_string())?;
                let mut b = BlobBuilder::default();
                b.set_data(&s(*c), &pattern(*d));
                let j = JsonBlob { content_type: s(*c), path: path.to_string_lossy().into_owned() };
                (ExtensionValue::JsonBlob(j).into_data(), b.data())
            }
            Value::Metadata(a, d, u) => {
                let mut b = MetadataBuilder::default();
                b.set(Some(&s(*a)), Some(&s(*d)), Some(&s(*u)), None);
                let j = JsonMetadata { symbol: s(*a), description: s(*d), uri: s(*u) };
                let mut got = ExtensionValue::JsonMetadata(j).into_data();
                let want = b.data();
                // the format allows the absent last string to be left out
                if got.len() + 1 == want.len() {
                    got.push(0);
                }
                (got, want)
            }
            Value::Royalties(allow, bp, n) => {
                let keys: Vec<Pubkey> = (0..*n as u8).map(key).collect();
                let j = JsonRoyalties {
                    kind: if *allow { RoyaltiesKind::Allowlist } else { RoyaltiesKind::Denylist },
                    basis_points: *bp,
                    items: keys.clone(),
                };
                let got = ExtensionValue::JsonRoyalities(j).into_data();
                // which account the list is about is the client's choice
                let at = if *allow { 16 } else { 24 };
                t.check("royalties too short", got.len() >= at + 4)?;
                let account = match got[at] {
                    0 => Account::Asset,
                    1 => Account::Authority,
                    _ => Account::Recipient,
                };
                let mut b = RoyaltiesBuilder::default();
                let (mut p, mut o, mut not);
                let rule: &mut dyn ConstraintBuilder = if *allow {
                    p = PubkeyMatchBuilder::default();
                    p.set(account, &keys);
                    &mut p
                } else {
                    o = OwnedByBuilder::default();
                    o.set(account, &keys);
                    not = NotBuilder::default();
                    not.set(&mut o);
                    &mut not
                };
                b.set(*bp, rule);
                (got, b.data())
            }
        };
        t.state(&got);
        t.eq("extension data", got, want)
    });
    let _ = std::fs::remove_dir_all(&dir);
    r
}
