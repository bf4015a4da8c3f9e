//! Proxied assets: forwarding programs and the example proxy program.

use crate::{
    keys::PROG1,
    op::{Call, Ins, ASSET, S},
    spec::*,
    view::*,
    vm::{register, Ix, Meta, Prog, World},
};
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey, system_program,
};

pub const PROXY: Pubkey = proxy_program::ID;

fn forwarder<'a>(id: &'a Pubkey, accounts: &'a [AccountInfo<'a>], data: &[u8]) -> ProgramResult {
    nifty_asset_interface::Interface::process_instruction(id, accounts, data)
}

pub fn init() {
    register(PROG1, Prog::Sol(forwarder));
    register(PROXY, Prog::Sol(proxy_program::entrypoint::verif_process_instruction));
}

pub const SEED: [u8; 32] = [7; 32];
pub const SEED2: [u8; 32] = [9; 32];

/// Address and bump of the asset that `program` derives from `seed`.
pub fn pda(program: &Pubkey, seed: &[u8; 32]) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[seed], program)
}

/// Asset controlled by the forwarding program.
pub fn px() -> Pubkey {
    static K: std::sync::OnceLock<Pubkey> = std::sync::OnceLock::new();
    *K.get_or_init(|| pda(&PROG1, &SEED).0)
}

/// Asset controlled by the example proxy program.
pub fn pxe() -> Pubkey {
    static K: std::sync::OnceLock<Pubkey> = std::sync::OnceLock::new();
    *K.get_or_init(|| pda(&PROXY, &SEED).0)
}

pub fn proxy_ext(program: &Pubkey, seed: &[u8; 32], authority: &Pubkey) -> Vec<u8> {
    proxy_bytes(program, seed, pda(program, seed).1, authority)
}

fn with_program(call: &Call) -> Vec<Meta> {
    let mut m = call.metas.clone();
    m.push(Meta { key: ASSET, signer: false, writable: false });
    m
}

pub fn forward_ix(call: &Call) -> Ix {
    Ix { program: PROG1, metas: with_program(call), data: call.ins.encode() }
}
pub fn proxy_ix(call: &Call) -> Ix {
    if let Ins::ProxyCreate(_) = call.ins {
        return Ix { program: PROXY, metas: call.metas.clone(), data: call.ins.encode() };
    }
    Ix { program: PROXY, metas: with_program(call), data: call.ins.encode() }
}

pub fn forward_spec(w: &World, call: &Call) -> Out {
    through(w, call, &PROG1, P11)
}

/// The instruction as the asset program should see it: same accounts, plus the asset's signature.
fn through(w: &World, call: &Call, program: &Pubkey, tag: Tags) -> Out {
    let k0 = call.metas[0].key;
    // the program signs for the asset that its proxy data derives
    let derived = Asset::parse_any(w.data(&k0)).and_then(|a| {
        let x = a.ext(ty::PROXY)?;
        if x.len() != 97 {
            return None;
        }
        Pubkey::create_program_address(&[&x[32..64], &x[64..65]], program).ok()
    });
    let mut inner = call.clone();
    let m = merged(&call.metas);
    for (i, x) in inner.metas.iter_mut().enumerate() {
        // no signature of the asset anywhere else, but what was signed stays signed
        x.signer = m[i].signer;
    }
    if derived != Some(k0) {
        let mut o = spec(w, &inner, 2);
        if !o.must_fail() && !m[0].signer {
            o.fail.push((tag, "the program does not derive this account"));
        }
        o.may.push("no asset of the program");
        return o;
    }
    let slots = call.ins.slots();
    let stands_in = (1..call.metas.len())
        .any(|i| call.metas[i].key == k0 && !m[i].signer && slots.get(i).map_or(false, |s| s.1 & S != 0));
    let alias = call.metas[1..].iter().any(|x| x.key == k0);
    inner.metas[0].signer = true;
    let mut o = spec(w, &inner, 2);
    o.live |= tag;
    o.op |= tag;
    for f in o.fail.iter_mut() {
        f.0 |= tag;
    }
    if stands_in {
        o.fail.push((tag | P11, "the asset's signature stands in for another"));
    }
    if alias {
        o.may.push("asset repeated");
    }
    o
}

fn pstr(d: &[u8], o: &mut usize) -> Option<Vec<u8>> {
    let n = *d.get(*o)? as usize;
    let v = d.get(*o + 1..*o + 1 + n)?.to_vec();
    *o += 1 + n;
    Some(v)
}

/// Number of transfers shown by a proxied asset.
pub fn transfers(a: &Asset) -> Option<i64> {
    let d = a.ext(ty::ATTRIBUTES)?;
    let mut o = 0;
    while o < d.len() {
        let (n, v) = (pstr(d, &mut o)?, pstr(d, &mut o)?);
        if n == b"transfers" {
            return String::from_utf8(v).ok()?.trim().parse().ok();
        }
    }
    None
}

/// Time of the last transfer shown by a proxied asset.
pub fn last_transferred(a: &Asset) -> Option<i64> {
    let d = a.ext(ty::PROPERTIES)?;
    let mut o = 0;
    while o < d.len() {
        let n = pstr(d, &mut o)?;
        let t = *d.get(o)?;
        o += 1;
        match t {
            0 => {
                pstr(d, &mut o)?;
            }
            1 => {
                let v = d.get(o..o + 8)?;
                o += 8;
                if n == b"last_transferred" {
                    return Some(i64::from_le_bytes(v.try_into().unwrap()));
                }
            }
            _ => o += 1,
        }
    }
    None
}

pub fn proxy_spec(w: &World, call: &Call) -> Out {
    let m = merged(&call.metas);
    let k0 = call.metas[0].key;
    match &call.ins {
        Ins::ProxyCreate(name) => {
            let mut o = Out { op: P17, live: P17, target: Some(k0), ..Default::default() };
            let mut fail = |c: bool, why| {
                if c {
                    o.fail.push((P17 | P21, why));
                }
            };
            fail(!m[3].signer, "authority did not sign");
            fail(!m[1].signer, "stub did not sign");
            let stub: [u8; 32] = m[1].key.to_bytes();
            let (k, bump) = pda(&PROXY, &stub);
            fail(k != k0, "not the address derived from the stub");
            let pre = w.get(&k0);
            fail(!pre.data.is_empty(), "address in use");
            let payer = m[4].key;
            fail(payer == ASSET, "nobody pays");
            fail(!m[4].signer, "payer did not sign");
            if m[4].signer {
                o.payers.push(payer);
            }
            let p = w.get(&payer);
            if pre.lamports > 0
                || !m[0].writable
                || !m[4].writable
                || p.owner != system_program::ID
                || p.lamports < 100_000_000
                || m[5].key != system_program::ID
                || m[6].key != ASSET
                || name.len() > 35
                || std::str::from_utf8(name).is_err()
                || call.metas[1..].iter().any(|x| x.key == k0)
            {
                o.may.push("unusual");
            }
            let mut n = name.clone();
            n.resize(35, 0);
            let a = Asset {
                disc: 1,
                state: 0,
                standard: PROXIED,
                mutable: 1,
                owner: m[2].key,
                group: Pubkey::default(),
                authority: k0,
                delegate: Pubkey::default(),
                roles: 0,
                name: n,
                exts: vec![Ext { ty: ty::PROXY, data: proxy_bytes(&PROXY, &stub, bump, &m[3].key) }],
                end: 0,
                len: 0,
                bad: None,
            };
            o.post.insert(k0, Want::Proxied(a, 0, w.clock));
            o
        }
        Ins::Transfer => {
            let mut o = through(w, call, &PROXY, P17);
            if !m[1].signer {
                o.fail.push((P17 | P11, "no signature"));
            }
            if let Some(Want::Asset(a, _)) = o.post.get(&k0).cloned() {
                match transfers(&a) {
                    // what it shows is no number (cannot come from the proxy)
                    None => o.may.push("no counter"),
                    Some(n) => {
                        let mut want = a.clone();
                        want.exts.retain(|e| {
                            ![ty::ATTRIBUTES, ty::BLOB, ty::PROPERTIES].contains(&e.ty)
                        });
                        o.post.insert(k0, Want::Proxied(want, n + 1, w.clock));
                    }
                }
                if a.mutable == 0 {
                    o.may.push("immutable asset cannot keep its counter");
                }
                if a.authority != k0 {
                    o.may.push("the proxy is not the authority");
                }
            }
            o
        }
        Ins::Update(u) => {
            // only name and mutability are passed on, with the asset as authority
            let mut o = Out { op: P17, live: P17, target: Some(k0), ..Default::default() };
            let a = if w.owner(&k0) == ASSET { Asset::parse(w.data(&k0)) } else { None };
            let Some(mut a) = a else {
                o.fail.push((P17 | P21, "not a genuine asset"));
                return o;
            };
            let x = a.ext(ty::PROXY).map(|d| d.to_vec()).unwrap_or_default();
            if x.len() != 97 {
                o.fail.push((P17, "not a proxied asset"));
                return o;
            }
            let auth = Pubkey::try_from(&x[65..97]).unwrap();
            if !m[1].signer {
                o.fail.push((P17 | P11, "authority did not sign"));
            }
            if m[1].key != auth || auth == Pubkey::default() {
                o.fail.push((P17, "not the proxy authority"));
            }
            if Pubkey::create_program_address(&[&x[32..64], &x[64..65]], &PROXY) != Ok(k0) {
                o.fail.push((P17 | P11, "the program does not derive this account"));
            }
            if a.authority != k0 {
                o.fail.push((P17 | P04, "the proxy is not the authority"));
            }
            if a.mutable == 0 {
                o.fail.push((P17 | P04, "immutable"));
            }
            if let Some(n) = &u.name {
                if std::str::from_utf8(n).is_err() {
                    o.fail.push((P17, "name is no utf-8"));
                }
                if n.len() > 35 {
                    o.may.push("name too long");
                }
                let mut n = n[..n.len().min(35)].to_vec();
                n.resize(35, 0);
                a.name = n;
            }
            if let Some(v) = u.mutable {
                a.mutable = v as u8;
            }
            if !m[0].writable || call.metas[1..].iter().any(|y| y.key == k0) {
                o.may.push("unusual");
            }
            if call.ins.encode().len() > 900 {
                o.may.push("large");
            }
            let n = a.len;
            o.post.insert(k0, Want::Asset(a, Some(n)));
            o
        }
        _ => through(w, call, &PROXY, P17),
    }
}
