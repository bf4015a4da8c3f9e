//! Reference model: what an instruction must do, judged on the independently decoded state.

use crate::{
    op::{Call, CreateIn, Deleg, ExtIn, Ins, UpdateIn, ASSET},
    rules::{Ctx, Rule, Who, V},
    view::*,
    vm::{rent, Meta, World, MAX_GROW},
};
use solana_program::{pubkey::Pubkey, system_program};
use std::collections::BTreeMap;

pub type Tags = u32;
pub const fn p(n: u32) -> Tags {
    1 << n
}
pub const P01: Tags = p(1);
pub const P02: Tags = p(2);
pub const P03: Tags = p(3);
pub const P04: Tags = p(4);
pub const P05: Tags = p(5);
pub const P06: Tags = p(6);
pub const P07: Tags = p(7);
pub const P08: Tags = p(8);
pub const P09: Tags = p(9);
pub const P10: Tags = p(10);
pub const P11: Tags = p(11);
pub const P12: Tags = p(12);
pub const P13: Tags = p(13);
pub const P14: Tags = p(14);
pub const P15: Tags = p(15);
pub const P16: Tags = p(16);
pub const P17: Tags = p(17);
pub const P18: Tags = p(18);
pub const P19: Tags = p(19);
pub const P20: Tags = p(20);
pub const P21: Tags = p(21);
pub const P22: Tags = p(22);
pub const P23: Tags = p(23);
pub const P24: Tags = p(24);
pub const P25: Tags = p(25);
pub const P26: Tags = p(26);
pub const P27: Tags = p(27);

/// An extension of a buffer: type, declared length, bytes present.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct BufExt {
    pub ty: u32,
    pub len: usize,
    pub data: Vec<u8>,
}

/// Decodes an uninitialised buffer; None if it is no buffer or has a broken chain.
pub fn buffer(d: &[u8]) -> Option<Vec<BufExt>> {
    if d.len() < HDR || d[0] != 0 {
        return None;
    }
    let (exts, _, bad) = chain(d, true);
    if bad.is_some() {
        return None;
    }
    let mut o = HDR;
    Some(
        exts.into_iter()
            .map(|e| {
                let len = u32_at(d, o + 4) as usize;
                o = u32_at(d, o + 8) as usize;
                BufExt { ty: e.ty, len, data: e.data }
            })
            .collect(),
    )
}

#[derive(Clone, Debug)]
pub enum Want {
    /// initialised asset with these fields/extensions; `Some(n)` pins the account length
    Asset(Asset, Option<usize>),
    Buffer(Vec<BufExt>),
    /// asset of the example proxy: its own extensions show this count and time
    Proxied(Asset, i64, i64),
    /// unchanged, or the first extension replaced by this content
    BufferMaybe(Vec<u8>),
    Gone,
}

#[derive(Clone, Debug, Default)]
pub struct Out {
    pub fail: Vec<(Tags, &'static str)>,
    pub may: Vec<&'static str>,
    pub live: Tags,
    /// tags of a wrong effect of this instruction, whatever the field
    pub op: Tags,
    pub post: BTreeMap<Pubkey, Want>,
    pub no_post: bool,
    /// accounts that may pay (signing payers)
    pub payers: Vec<Pubkey>,
    /// accounts that may receive released lamports
    pub sinks: Vec<Pubkey>,
    /// the program account whose lamports may move
    pub target: Option<Pubkey>,
    pub closes: bool,
}

impl Out {
    fn fail_if(&mut self, c: bool, t: Tags, why: &'static str) {
        if c {
            self.fail.push((t, why));
        }
    }
    fn may_if(&mut self, c: bool, why: &'static str) {
        if c {
            self.may.push(why);
        }
    }
    pub fn must_fail(&self) -> bool {
        !self.fail.is_empty()
    }
    pub fn must_succeed(&self) -> bool {
        self.fail.is_empty() && self.may.is_empty()
    }
}

pub fn merged(metas: &[Meta]) -> Vec<Meta> {
    let mut m = metas.to_vec();
    for i in 0..m.len() {
        for j in 0..m.len() {
            if m[i].key == m[j].key {
                m[i].signer |= metas[j].signer;
                m[i].writable |= metas[j].writable;
            }
        }
    }
    m
}

pub enum Valid {
    /// acceptable; stored as this
    Ok(Vec<u8>),
    Bad(Tags, &'static str),
    /// outside of what the properties speak about
    Unknown,
}

fn pstr(d: &[u8], o: &mut usize) -> bool {
    match d.get(*o) {
        Some(n) if *o + 1 + *n as usize <= d.len() => {
            *o += 1 + *n as usize;
            true
        }
        _ => false,
    }
}

/// Is the content a well-formed value of a free-form extension type?
pub fn well_formed(t: u32, d: &[u8]) -> bool {
    match t {
        ty::ATTRIBUTES | ty::LINKS => {
            let mut o = 0;
            while o < d.len() {
                if !pstr(d, &mut o) || !pstr(d, &mut o) {
                    return false;
                }
            }
            true
        }
        ty::BLOB => {
            let mut o = 0;
            pstr(d, &mut o)
        }
        ty::METADATA => {
            let mut o = 0;
            (0..5).all(|_| pstr(d, &mut o)) && o == d.len() || {
                // symbol, description, uri, image are the documented minimum
                let mut o = 0;
                (0..4).all(|_| pstr(d, &mut o)) && o == d.len()
            }
        }
        ty::PROPERTIES => {
            let mut o = 0;
            while o < d.len() {
                if !pstr(d, &mut o) || o >= d.len() {
                    return false;
                }
                let t = d[o];
                o += 1;
                match t {
                    0 => {
                        if !pstr(d, &mut o) {
                            return false;
                        }
                    }
                    1 => o += 8,
                    2 => o += 1,
                    _ => return false,
                }
                if o > d.len() {
                    return false;
                }
            }
            true
        }
        ty::BUCKET => true,
        _ => false,
    }
}

pub fn valid_create(t: u32, d: &[u8], authority: Option<&Pubkey>) -> Valid {
    match t {
        ty::CREATORS => match creators(d) {
            None => Valid::Bad(P07 | P22, "malformed creators"),
            Some(mut c) => {
                if c.iter().map(|c| c.share as u32).sum::<u32>() != 100 {
                    return Valid::Bad(P07, "shares do not add up to 100");
                }
                for x in c.iter_mut() {
                    x.verified = (Some(&x.key) == authority) as u8;
                }
                Valid::Ok(creators_bytes(&c))
            }
        },
        ty::GROUPING => match (d.len(), Grouping::parse(d)) {
            (16 | 48, Some(g)) => {
                if g.size != 0 {
                    Valid::Bad(P06, "group size set directly")
                } else {
                    Valid::Ok(d.to_vec())
                }
            }
            (0..=15, _) => Valid::Bad(P06 | P22, "malformed grouping"),
            _ => Valid::Unknown,
        },
        ty::ROYALTIES => {
            if d.len() < 8 {
                return Valid::Bad(P08 | P22, "malformed royalties");
            }
            if u64_at(d, 0) > 10000 {
                return Valid::Bad(P08, "royalty rate above 100%");
            }
            match Rule::parse(&d[8..]) {
                Some((_, n)) if n + 8 == d.len() => Valid::Ok(d.to_vec()),
                _ => Valid::Unknown,
            }
        }
        ty::MANAGER => match d.len() {
            33 => Valid::Ok(d.to_vec()),
            0..=32 => Valid::Bad(P10 | P22, "malformed manager"),
            _ => Valid::Unknown,
        },
        ty::PROXY => match d.len() {
            97 => Valid::Ok(d.to_vec()),
            _ => Valid::Bad(P10 | P22, "malformed proxy"),
        },
        _ if well_formed(t, d) => Valid::Ok(d.to_vec()),
        _ => Valid::Unknown,
    }
}

pub fn valid_update(t: u32, old: &[u8], new: &[u8], authority: &Pubkey) -> Valid {
    match t {
        ty::CREATORS => match (creators(old), creators(new)) {
            (Some(o), Some(mut n)) => {
                if n.iter().map(|c| c.share as u32).sum::<u32>() != 100 {
                    return Valid::Bad(P07, "shares do not add up to 100");
                }
                for x in n.iter_mut() {
                    x.verified = match o.iter().find(|c| c.key == x.key) {
                        Some(c) => c.verified,
                        None => (x.key == *authority) as u8,
                    };
                }
                if o.iter().any(|c| c.verified != 0 && !n.iter().any(|x| x.key == c.key)) {
                    return Valid::Bad(P07, "verified creator dropped");
                }
                Valid::Ok(creators_bytes(&n))
            }
            _ => Valid::Bad(P07, "malformed creators"),
        },
        ty::GROUPING => match (Grouping::parse(old), Grouping::parse(new)) {
            (Some(o), Some(n)) => {
                if n.max != 0 && n.max < o.size {
                    return Valid::Bad(P06, "maximum below size");
                }
                if new.len() != 16 && new.len() != 48 {
                    return Valid::Unknown;
                }
                let mut d = new.to_vec();
                d[..8].copy_from_slice(&o.size.to_le_bytes());
                Valid::Ok(d)
            }
            _ => Valid::Bad(P06, "grouping data lost"),
        },
        ty::PROXY => {
            if new.len() != 97 || old.len() != 97 || old[..65] != new[..65] {
                Valid::Bad(P10, "derivation data changed")
            } else {
                Valid::Ok(new.to_vec())
            }
        }
        _ => valid_create(t, new, Some(authority)),
    }
}

pub fn ext_tag(t: u32) -> Tags {
    match t {
        ty::CREATORS => P07,
        ty::GROUPING => P06,
        ty::ROYALTIES => P08,
        ty::MANAGER | ty::PROXY => P10,
        _ => 0,
    }
}

struct Cx<'a> {
    w: &'a World,
    m: Vec<Meta>,
}

impl Cx<'_> {
    fn k(&self, i: usize) -> Pubkey {
        self.m[i].key
    }
    fn signed(&self, i: usize) -> bool {
        self.m[i].signer
    }
    fn opt(&self, i: usize) -> Option<Pubkey> {
        self.m.get(i).and_then(|m| (m.key != ASSET).then_some(m.key))
    }
    fn ours(&self, i: usize) -> bool {
        self.w.owner(&self.k(i)) == ASSET
    }
    fn asset(&self, i: usize) -> Option<Asset> {
        if self.ours(i) {
            Asset::parse(self.w.data(&self.k(i)))
        } else {
            None
        }
    }
    fn alias(&self, i: usize) -> bool {
        self.m.iter().enumerate().any(|(j, m)| j != i && m.key == self.k(i))
    }
}

fn name35(n: &[u8]) -> Vec<u8> {
    let mut v = n[..n.len().min(35)].to_vec();
    v.resize(35, 0);
    v
}

fn mask(d: &Deleg) -> u8 {
    match d {
        Deleg::All => 7,
        Deleg::Some(r) => r.iter().fold(0, |m, r| if *r == 0 { m } else { m | (1 << (r - 1)) }),
    }
}

fn holds(a: &Asset, k: &Pubkey, role: u8) -> bool {
    (a.has_delegate() && a.delegate == *k && a.roles & role != 0)
        || a.manager().map_or(false, |(m, r)| m == *k && m != Pubkey::default() && r & role != 0)
}

/// Verdict of the royalty rule stored in `roy`.
fn royalty(roy: &[u8], c: &Cx, height: u64) -> Option<bool> {
    let sys = |i: usize| c.w.owner(&c.k(i)) == system_program::ID;
    if height == 1 && sys(1) && sys(2) {
        return Some(true);
    }
    let who = |i: usize| {
        Some(Who { key: c.k(i), owner: c.w.owner(&c.k(i)), empty: c.w.data(&c.k(i)).is_empty() })
    };
    let ctx = Ctx { who: [who(0), who(1), who(2)] };
    let (r, _) = Rule::parse(roy.get(8..)?)?;
    match r.eval(&ctx) {
        V::True => Some(true),
        V::False => Some(false),
        V::Missing => None,
    }
}

pub fn spec(w: &World, call: &Call, height: u64) -> Out {
    let mut c = Cx { w, m: merged(&call.metas) };
    let mut o = Out::default();
    if let Ins::Raw(_, why) = &call.ins {
        o.fail.push((P20, why));
        return o;
    }
    // a list that ends early can at best mean that the rest is left out
    let slots = call.ins.slots();
    for x in slots.iter().skip(c.m.len()) {
        o.may_if(true, "list of accounts ends early");
        o.fail_if(x.1 & crate::op::O == 0, P21, "an account is missing");
        c.m.push(Meta { key: ASSET, signer: false, writable: false });
    }
    let c = c;
    let k0 = c.k(0);
    // a proxied asset has to sign whatever acts on it
    if c.ours(0) && c.w.data(&k0).len() > 2 && c.w.data(&k0)[2] == PROXIED {
        o.fail_if(!c.signed(0), P11 | P21, "proxied asset did not sign");
        o.live |= P11;
    }
    let guarded = matches!(
        call.ins,
        Ins::Approve(_) | Ins::Burn | Ins::Lock | Ins::Revoke(_) | Ins::Transfer
    );
    if guarded {
        for i in 0..c.m.len() {
            if let Some(a) = c.asset(i) {
                if a.state == 1 {
                    if c.k(i) == k0 {
                        o.fail_if(true, P02, "asset is locked");
                    } else {
                        o.may_if(true, "another account is a locked asset");
                    }
                }
            }
        }
    }
    o.may_if(!c.m[0].writable, "asset not writable");
    let a = c.asset(0);
    let needs_asset = !matches!(
        call.ins,
        Ins::Create(_) | Ins::Allocate(_) | Ins::Write { .. } | Ins::Close | Ins::ProxyCreate(_)
    );
    if needs_asset && a.is_none() {
        o.fail_if(true, P21, "not a genuine asset");
        return o;
    }
    match &call.ins {
        Ins::Transfer => transfer(&c, a.unwrap(), height, &mut o),
        Ins::Approve(d) => {
            let mut a = a.unwrap();
            o.op = P03;
            o.live = P03;
            o.fail_if(!c.signed(1), P03 | P21, "owner did not sign");
            o.fail_if(a.owner != c.k(1), P03, "not the owner");
            o.may_if(c.k(2) == Pubkey::default(), "null delegate");
            if a.has_delegate() && a.delegate == c.k(2) {
                a.roles |= mask(d);
            } else {
                a.delegate = c.k(2);
                a.roles = mask(d);
            }
            o.post.insert(k0, Want::Asset(a.clone(), Some(a.len)));
        }
        Ins::Revoke(d) => {
            let mut a = a.unwrap();
            o.op = P03;
            o.live = P03;
            o.fail_if(!c.signed(1), P03 | P21, "no signature");
            let by_delegate = a.has_delegate() && a.delegate == c.k(1);
            o.fail_if(a.owner != c.k(1) && !by_delegate, P03, "neither owner nor delegate");
            o.may_if(!a.has_delegate(), "nothing to revoke");
            match d {
                Deleg::All => a.roles = 0,
                d => a.roles &= !mask(d),
            }
            if a.roles == 0 {
                a.delegate = Pubkey::default();
            }
            o.post.insert(k0, Want::Asset(a.clone(), Some(a.len)));
        }
        Ins::Lock | Ins::Unlock => {
            let mut a = a.unwrap();
            o.op = P02;
            o.live |= P02 | P03;
            o.fail_if(!c.signed(1), P02 | P21, "no signature");
            let s = c.k(1);
            let ok = holds(&a, &s, LOCK) || (!a.has_delegate() && a.owner == s);
            o.fail_if(!ok, P02 | P03, "may not lock/unlock");
            a.state = matches!(call.ins, Ins::Lock) as u8;
            o.post.insert(k0, Want::Asset(a.clone(), Some(a.len)));
        }
        Ins::Burn => burn(&c, a.unwrap(), &mut o),
        Ins::Close => {
            o.op = P14;
            o.live |= P14 | P13;
            o.closes = true;
            o.target = Some(k0);
            o.sinks.push(c.k(1));
            o.fail_if(!c.signed(0), P14 | P21, "buffer did not sign");
            o.fail_if(!c.ours(0), P14 | P21, "not a buffer of the program");
            let d = c.w.data(&k0);
            o.fail_if(!d.is_empty() && d[0] != 0, P14 | P21, "an asset is no buffer");
            o.may_if(c.alias(0), "aliased buffer");
            o.may_if(!c.m[1].writable, "recipient not writable");
            o.may_if(c.w.get(&c.k(1)).exec, "executable recipient");
            o.post.insert(k0, Want::Gone);
        }
        Ins::Handover => {
            let mut a = a.unwrap();
            o.op = P04;
            o.live |= P04;
            o.fail_if(!c.signed(1) || !c.signed(2), P04 | P21, "missing signature");
            o.fail_if(a.authority != c.k(1), P04, "not the authority");
            o.fail_if(a.mutable == 0, P04, "immutable");
            a.authority = c.k(2);
            o.post.insert(k0, Want::Asset(a.clone(), Some(a.len)));
        }
        Ins::Verify | Ins::Unverify => {
            let mut a = a.unwrap();
            o.op = P07;
            o.live |= P07;
            o.fail_if(!c.signed(1), P07 | P21, "creator did not sign");
            match a.creators() {
                Some(mut l) if l.iter().any(|x| x.key == c.k(1)) => {
                    for x in l.iter_mut().filter(|x| x.key == c.k(1)) {
                        x.verified = matches!(call.ins, Ins::Verify) as u8;
                    }
                    *a.ext_mut(ty::CREATORS).unwrap() = creators_bytes(&l);
                    o.post.insert(k0, Want::Asset(a.clone(), Some(a.len)));
                }
                _ => o.fail_if(true, P07, "not a listed creator"),
            }
        }
        Ins::Group | Ins::Ungroup => {
            let join = matches!(call.ins, Ins::Group);
            let mut a = a.unwrap();
            o.op = P06;
            o.live |= P06;
            o.may_if(c.k(0) == c.k(1), "asset is its own group");
            if c.k(0) == c.k(1) {
                o.no_post = true;
            }
            let Some(mut g) = c.asset(1) else {
                o.fail_if(true, P06 | P21, "not a genuine group");
                return o;
            };
            o.may_if(!c.m[1].writable, "group not writable");
            if join {
                o.fail_if(a.group != Pubkey::default(), P06, "already in a group");
                o.fail_if(a.authority != g.authority, P06, "authorities differ");
            } else {
                o.fail_if(a.group != c.k(1), P06 | P21, "not in this group");
            }
            group_signer(&c, 2, &g, &mut o);
            if let Some(mut gr) = g.grouping() {
                if join {
                    o.fail_if(gr.max != 0 && gr.size >= gr.max, P06, "group is full");
                    gr.size = gr.size.wrapping_add(1);
                    a.group = c.k(1);
                } else {
                    o.fail_if(gr.size == 0, P06, "group is empty");
                    gr.size = gr.size.wrapping_sub(1);
                    a.group = Pubkey::default();
                }
                g.ext_mut(ty::GROUPING).unwrap()[..8].copy_from_slice(&gr.size.to_le_bytes());
                o.post.insert(k0, Want::Asset(a.clone(), Some(a.len)));
                o.post.insert(c.k(1), Want::Asset(g.clone(), Some(g.len)));
            }
        }
        Ins::Trim | Ins::Extend(_) => {
            let a = a.unwrap();
            o.op = P04 | P05;
            o.live |= P04 | P05;
            authority(&c, &a, &mut o);
            o.target = Some(k0);
            o.sinks.push(c.k(2));
            o.may_if(c.alias(0), "aliased asset");
            o.may_if(!c.m[2].writable || c.w.get(&c.k(2)).exec, "payer not writable");
            o.may_if(frail(c.w, &c.k(2)), "payer is not rent-exempt");
            let len = match call.ins {
                Ins::Trim => a.end,
                Ins::Extend(v) => a.len + v as usize,
                _ => unreachable!(),
            };
            let missing = rent(len).saturating_sub(c.w.lamports(&k0));
            if len > a.len && missing > 0 {
                pay(&c, 2, 3, missing, &mut o);
            }
            o.may_if(len > a.len + MAX_GROW, "grows too much");
            o.post.insert(k0, Want::Asset(a, Some(len)));
        }
        Ins::Remove(t) => {
            let mut a = a.unwrap();
            let t = *t as u32;
            o.op = P04 | P05;
            o.live |= P04 | P05;
            authority(&c, &a, &mut o);
            o.target = Some(k0);
            o.sinks.push(c.k(3));
            o.may_if(c.alias(0), "aliased asset");
            o.may_if(!c.m[3].writable || c.w.get(&c.k(3)).exec, "recipient not writable");
            o.may_if(frail(c.w, &c.k(3)), "recipient is not rent-exempt");
            o.fail_if(t == 0 || a.ext(t).is_none(), P05, "no such extension");
            o.fail_if(t == ty::MANAGER || t == ty::PROXY, P10, "manager/proxy cannot be removed");
            if t == ty::GROUPING {
                o.fail_if(
                    a.grouping().map_or(false, |g| g.size > 0),
                    P06,
                    "group is not empty",
                );
            }
            a.exts.retain(|e| e.ty != t);
            o.post.insert(k0, Want::Asset(a, None));
        }
        Ins::Raw(..) => unreachable!(),
        Ins::ProxyCreate(_) => {
            o.may_if(true, "not for the asset program");
            o.no_post = true;
        }
        Ins::Update(u) => update(&c, a.unwrap(), u, &mut o),
        Ins::Create(x) => create(&c, x, &mut o),
        Ins::Allocate(e) => allocate(&c, e, &mut o),
        Ins::Write { overwrite, bytes } => write(&c, *overwrite, bytes, &mut o),
    }
    o
}

/// The runtime refuses to leave a touched account below the rent minimum.
fn frail(w: &World, k: &Pubkey) -> bool {
    w.lamports(k) < rent(w.data(k).len())
}

/// A payer in slot `i` has to cover `missing` lamports.
fn pay(c: &Cx, i: usize, sys: usize, missing: u64, o: &mut Out) {
    match c.opt(i) {
        None => o.fail_if(missing > 0, P12, "nobody pays"),
        Some(k) => {
            o.fail_if(!c.signed(i), P12 | P21, "payer did not sign");
            if c.signed(i) {
                o.payers.push(k);
            }
            let a = c.w.get(&k);
            o.may_if(a.lamports < missing + rent(0), "payer cannot afford it");
            o.may_if(!a.data.is_empty() || a.owner != system_program::ID, "payer is no wallet");
            o.may_if(!c.m[i].writable, "payer not writable");
        }
    }
    o.may_if(c.opt(sys) != Some(system_program::ID), "no system program");
}

fn authority(c: &Cx, a: &Asset, o: &mut Out) {
    o.fail_if(!c.signed(1), P04 | P21, "authority did not sign");
    o.fail_if(a.authority != c.k(1), P04, "not the authority");
    o.fail_if(a.mutable == 0, P04, "immutable");
}

fn group_signer(c: &Cx, i: usize, g: &Asset, o: &mut Out) {
    o.fail_if(!c.signed(i), P06 | P21, "group authority did not sign");
    match g.grouping() {
        None => o.fail_if(true, P06, "no grouping data"),
        Some(gr) => {
            let k = c.k(i);
            let ok = k == g.authority || (gr.delegate != Pubkey::default() && gr.delegate == k);
            o.fail_if(!ok, P06, "neither group authority nor grouping delegate");
        }
    }
}

fn transfer(c: &Cx, mut a: Asset, height: u64, o: &mut Out) {
    let (s, r) = (c.k(1), c.k(2));
    let own = a.owner == r;
    o.op = P01;
    o.live |= P01 | P08;
    if a.owner != s {
        o.live |= P03;
    }
    o.fail_if(!c.signed(1), P01 | P21, "no signature");
    if a.standard == SOULBOUND {
        if own {
            o.may_if(true, "soulbound to its owner");
        } else {
            o.fail_if(true, P01, "soulbound");
        }
    }
    o.fail_if(a.owner != s && !holds(&a, &s, TRANSFER), P01 | P03, "may not transfer");
    o.may_if(c.alias(0), "aliased asset");
    let verdict = |o: &mut Out, v: Option<bool>| match v {
        Some(true) => (),
        Some(false) if own => o.may_if(true, "rule on a transfer to the owner"),
        Some(false) => o.fail_if(true, P08, "royalty rule rejects"),
        None => o.may_if(true, "malformed royalty rule"),
    };
    if let Some(roy) = a.ext(ty::ROYALTIES) {
        verdict(o, royalty(roy, c, height));
    } else if a.group != Pubkey::default() {
        match c.opt(3) {
            Some(g) if g == a.group && c.asset(3).is_some() => {
                if let Some(roy) = c.asset(3).unwrap().ext(ty::ROYALTIES) {
                    verdict(o, royalty(roy, c, height));
                }
            }
            _ if own => o.may_if(true, "group on a transfer to the owner"),
            _ => o.fail_if(true, P08 | P21, "true group account not supplied"),
        }
    }
    if !own {
        a.owner = r;
        a.delegate = Pubkey::default();
        a.roles = 0;
    }
    o.post.insert(c.k(0), Want::Asset(a.clone(), Some(a.len)));
}

fn burn(c: &Cx, a: Asset, o: &mut Out) {
    let s = c.k(1);
    o.op = P14;
    o.live |= P14;
    if a.owner != s {
        o.live |= P03;
    }
    o.closes = true;
    o.target = Some(c.k(0));
    let rcpt = c.opt(2).unwrap_or(s);
    o.sinks.push(rcpt);
    o.fail_if(!c.signed(1), P14 | P21, "no signature");
    o.fail_if(a.owner != s && !holds(&a, &s, BURN), P14 | P03, "may not burn");
    o.may_if(c.alias(0), "aliased asset");
    let ri = if c.opt(2).is_some() { 2 } else { 1 };
    o.may_if(!c.m[ri].writable || c.w.get(&rcpt).exec, "recipient not writable");
    o.fail_if(a.grouping().map_or(false, |g| g.size > 0), P06 | P14, "group is not empty");
    if a.group != Pubkey::default() {
        o.live |= P06;
        match c.opt(3) {
            Some(k) if k == a.group => {
                o.may_if(!c.m[3].writable, "group not writable");
                o.may_if(rcpt == k, "group is the recipient");
                match c.asset(3) {
                    Some(mut g) if g.grouping().map_or(false, |x| x.size > 0) => {
                        let n = g.grouping().unwrap().size - 1;
                        g.ext_mut(ty::GROUPING).unwrap()[..8].copy_from_slice(&n.to_le_bytes());
                        o.post.insert(k, Want::Asset(g.clone(), Some(g.len)));
                    }
                    _ => o.fail_if(true, P06 | P21, "group account is not a group with members"),
                }
            }
            _ => o.fail_if(true, P06 | P14 | P21, "group account not supplied"),
        }
    }
    o.post.insert(c.k(0), Want::Gone);
}

fn update(c: &Cx, mut a: Asset, u: &UpdateIn, o: &mut Out) {
    o.op = P04;
    o.live |= P04;
    authority(c, &a, o);
    o.target = Some(c.k(0));
    o.may_if(c.alias(0), "aliased asset");
    if let Some(n) = &u.name {
        o.fail_if(std::str::from_utf8(n).is_err(), P20, "name is no utf-8");
        o.may_if(n.len() > 35, "name too long");
        a.name = name35(n);
    }
    if let Some(m) = u.mutable {
        a.mutable = m as u8;
    }
    let mut pin = Some(a.len);
    let from_buffer = c.opt(2).is_some();
    if u.ext.is_some() || from_buffer {
        o.op |= P05;
        o.live |= P05;
        pin = None;
        let (t, data): (u32, Vec<u8>) = if from_buffer {
            o.op |= P13;
            o.live |= P13;
            o.fail_if(u.ext.is_some(), P13, "both buffer and data");
            let k = c.k(2);
            if !c.ours(2) {
                return o.fail_if(true, P21 | P13, "foreign buffer");
            }
            let raw = c.w.data(&k);
            o.fail_if(raw.first() != Some(&0), P21 | P13, "not a buffer");
            let Some(b) = buffer(raw) else {
                o.no_post = true;
                return o.may_if(true, "unreadable buffer");
            };
            let Some(e) = b.first() else {
                return o.fail_if(true, P13, "empty buffer");
            };
            o.fail_if(e.data.len() < e.len, P13 | P05, "incomplete buffer");
            o.may_if(!c.m[2].writable, "buffer not writable");
            o.may_if(
                align8(HDR + EXT + e.len) > raw.len(),
                "unpadded buffer",
            );
            (e.ty, e.data.clone())
        } else {
            let e = u.ext.as_ref().unwrap();
            if e.ty as u32 > NTYPES {
                return o.fail_if(true, P20 | P22, "unknown type");
            }
            let d = e.data.clone().unwrap_or_default();
            o.fail_if(d.len() != e.len as usize, P05 | P13, "length mismatch");
            (e.ty as u32, d)
        };
        o.op |= ext_tag(t);
        o.live |= ext_tag(t);
        if t == 0 {
            o.post.insert(c.k(0), Want::Asset(a, None));
            if let Some(k) = c.opt(4) {
                o.sinks.push(k);
                if c.signed(4) {
                    o.payers.push(k);
                }
            }
            return o.may_if(true, "null extension type");
        }
        let v = match a.ext(t) {
            Some(old) => valid_update(t, old, &data, &c.k(1)),
            None if t == ty::MANAGER || t == ty::PROXY => {
                Valid::Bad(P10, "manager/proxy cannot be added")
            }
            None => valid_create(t, &data, Some(&c.k(1))),
        };
        match v {
            Valid::Bad(tags, why) => {
                o.fail_if(true, tags | if from_buffer { P13 } else { 0 }, why);
            }
            Valid::Unknown => {
                o.may_if(true, "content not covered");
                let _ = set_ext(&mut a, t, data);
            }
            Valid::Ok(d) => {
                if from_buffer {
                    o.post.insert(c.k(2), Want::BufferMaybe(d.clone()));
                }
                set_ext(&mut a, t, d);
            }
        }
        // money
        let end = chain_end(&a);
        let missing = rent(end).saturating_sub(c.w.lamports(&c.k(0)));
        if end > a.len && missing > 0 {
            pay(c, 4, 5, missing, o);
        } else if let Some(k) = c.opt(4) {
            o.may_if(!c.m[4].writable || c.w.get(&k).exec, "payer not writable");
            o.may_if(frail(c.w, &k), "payer is not rent-exempt");
            if c.signed(4) {
                o.payers.push(k);
            }
        } else {
            o.may_if(true, "no payer to refund");
        }
        o.may_if(c.opt(5) != Some(system_program::ID), "no system program");
        if let Some(k) = c.opt(4) {
            o.sinks.push(k);
            o.may_if(c.alias(4) && k != c.k(1), "aliased payer");
        }
        o.may_if(end > a.len + MAX_GROW, "grows too much");
    }
    o.post.insert(c.k(0), Want::Asset(a, pin));
}

fn set_ext(a: &mut Asset, t: u32, d: Vec<u8>) {
    match a.ext_mut(t) {
        Some(x) => *x = d,
        None => a.exts.push(Ext { ty: t, data: d }),
    }
}

pub fn chain_end(a: &Asset) -> usize {
    a.exts.iter().fold(HDR, |o, e| align8(o + EXT + e.data.len()))
}

fn create(c: &Cx, x: &CreateIn, o: &mut Out) {
    let k0 = c.k(0);
    o.op = P22;
    o.live |= P22;
    o.target = Some(k0);
    o.fail_if(!c.signed(0), P22 | P21, "new address did not sign");
    o.fail_if(std::str::from_utf8(&x.name).is_err(), P20, "name is no utf-8");
    o.may_if(x.name.len() > 35, "name too long");
    o.may_if(c.alias(0), "aliased asset");
    if x.standard > 3 {
        return o.fail_if(true, P20 | P22, "unknown standard");
    }
    let raw = c.w.data(&k0).to_vec();
    let mut exts: Vec<BufExt> = vec![];
    if raw.is_empty() {
        o.fail_if(
            c.w.owner(&k0) != system_program::ID && !c.ours(0),
            P21 | P22,
            "account of another program",
        );
        o.may_if(c.w.lamports(&k0) > 0, "address already funded");
        o.may_if(c.ours(0), "empty account of the program");
    } else {
        o.fail_if(!c.ours(0), P21 | P22, "account of another program");
        o.fail_if(raw.len() < HDR, P22, "account too small");
        o.fail_if(raw[0] != 0, P22 | P21, "already an asset");
        o.op |= P13;
        o.live |= P13;
        match buffer(&raw) {
            None => {
                o.no_post = true;
                o.may_if(true, "unreadable buffer");
            }
            Some(b) => {
                if let Some(l) = b.last() {
                    o.fail_if(l.data.len() < l.len, P13 | P22, "incomplete extension");
                }
                exts = b;
            }
        }
        let end = exts.iter().fold(HDR, |s, e| align8(s + EXT + e.len));
        o.may_if(end > raw.len(), "unpadded buffer");
    }
    for e in x.exts.iter().flatten() {
        if e.ty as u32 > NTYPES {
            return o.fail_if(true, P20 | P22, "unknown extension type");
        }
        let d = e.data.clone().unwrap_or_default();
        o.fail_if(exts.iter().any(|b| b.ty == e.ty as u32), P22 | P05, "duplicate extension");
        o.fail_if(d.len() != e.len as usize, P22 | P13, "incomplete or oversized data");
        if e.ty == 0 {
            o.may_if(true, "null extension type");
            o.no_post = true;
        }
        exts.push(BufExt { ty: e.ty as u32, len: e.len as usize, data: d });
    }
    let auth = c.k(1);
    let mut out = vec![];
    for e in &exts {
        o.op |= ext_tag(e.ty);
        match valid_create(e.ty, &e.data, Some(&auth)) {
            Valid::Ok(d) => out.push(Ext { ty: e.ty, data: d }),
            Valid::Bad(t, why) => o.fail_if(true, t | P22, why),
            Valid::Unknown => {
                o.may_if(true, "content not covered");
                out.push(Ext { ty: e.ty, data: e.data.clone() });
            }
        }
    }
    let has = |t: u32| exts.iter().any(|e| e.ty == t);
    o.fail_if(
        (x.standard == MANAGED) != has(ty::MANAGER),
        P10 | P22,
        "managed standard and manager do not match",
    );
    o.fail_if(
        (x.standard == PROXIED) != has(ty::PROXY),
        P10 | P22,
        "proxied standard and proxy data do not match",
    );
    if let Some(e) = exts.iter().find(|e| e.ty == ty::PROXY) {
        if e.data.len() >= 65 {
            let prog = Pubkey::try_from(&e.data[..32]).unwrap();
            let pda = Pubkey::create_program_address(&[&e.data[32..64], &e.data[64..65]], &prog);
            o.fail_if(pda != Ok(k0), P10 | P22 | P11, "address is not derived from the proxy data");
        }
        o.live |= P10 | P11;
    }
    let mut group = Pubkey::default();
    if let Some(g) = c.opt(3) {
        o.op |= P06;
        o.live |= P06;
        match c.asset(3) {
            None => o.fail_if(true, P06 | P21, "not a genuine group"),
            Some(mut ga) => {
                o.may_if(!c.m[3].writable, "group not writable");
                o.fail_if(ga.authority != auth, P06, "authorities differ");
                let i = if c.opt(4).is_some() { 4 } else { 1 };
                group_signer(c, i, &ga, o);
                if let Some(gr) = ga.grouping() {
                    o.fail_if(gr.max != 0 && gr.size >= gr.max, P06, "group is full");
                    let n = gr.size.wrapping_add(1);
                    ga.ext_mut(ty::GROUPING).unwrap()[..8].copy_from_slice(&n.to_le_bytes());
                    o.post.insert(g, Want::Asset(ga.clone(), Some(ga.len)));
                }
                group = g;
            }
        }
    }
    let a = Asset {
        disc: 1,
        state: 0,
        standard: x.standard,
        mutable: x.mutable as u8,
        owner: c.k(2),
        group,
        authority: auth,
        delegate: Pubkey::default(),
        roles: 0,
        name: name35(&x.name),
        exts: out,
        end: 0,
        len: 0,
        bad: None,
    };
    let end = chain_end(&a);
    let missing = rent(end).saturating_sub(c.w.lamports(&k0));
    if raw.is_empty() || (end > raw.len() && missing > 0) {
        pay(c, 5, 6, missing, o);
    } else if let Some(k) = c.opt(5) {
        if c.signed(5) {
            o.payers.push(k);
        }
    }
    if let Some(k) = c.opt(5) {
        o.sinks.push(k);
    }
    o.may_if(x.exts.iter().flatten().count() > 0 && c.opt(6) != Some(system_program::ID), "no system program");
    o.may_if(end > raw.len() + MAX_GROW, "grows too much");
    o.post.insert(k0, Want::Asset(a, None));
}

fn allocate(c: &Cx, e: &ExtIn, o: &mut Out) {
    let k0 = c.k(0);
    o.op = P13;
    o.live |= P13;
    o.target = Some(k0);
    o.fail_if(!c.signed(0), P13 | P21, "buffer did not sign");
    o.may_if(c.alias(0), "aliased buffer");
    if e.ty as u32 > NTYPES {
        return o.fail_if(true, P20 | P22, "unknown type");
    }
    if e.ty == 0 {
        o.no_post = true;
        o.may_if(true, "null extension type");
    }
    let raw = c.w.data(&k0);
    let mut exts = vec![];
    if raw.is_empty() {
        o.fail_if(
            c.w.owner(&k0) != system_program::ID && !c.ours(0),
            P21 | P13,
            "account of another program",
        );
        o.may_if(c.w.lamports(&k0) > 0 || c.ours(0), "address already funded");
    } else {
        o.fail_if(!c.ours(0), P21 | P13, "account of another program");
        o.fail_if(raw[0] != 0, P13 | P21 | P22, "already an asset");
        o.fail_if(raw.len() < HDR, P13, "account too small");
        match buffer(raw) {
            None => {
                o.no_post = true;
                o.may_if(true, "unreadable buffer");
            }
            Some(b) => exts = b,
        }
        o.fail_if(exts.iter().any(|b| b.ty == e.ty as u32), P13 | P22, "duplicate extension");
        if let Some(l) = exts.last() {
            o.fail_if(l.data.len() < l.len, P13, "previous extension incomplete");
        }
    }
    let d = e.data.clone().unwrap_or_default();
    o.fail_if(d.len() > e.len as usize, P13, "more data than declared");
    let start = exts.iter().fold(HDR, |s, e| align8(s + EXT + e.len));
    let end = if d.len() == e.len as usize {
        align8(start + EXT + d.len())
    } else {
        start + EXT + d.len()
    };
    exts.push(BufExt { ty: e.ty as u32, len: e.len as usize, data: d });
    let missing = rent(end).saturating_sub(c.w.lamports(&k0));
    if raw.is_empty() || missing > 0 {
        pay(c, 1, 2, missing, o);
    } else if let Some(k) = c.opt(1) {
        if c.signed(1) {
            o.payers.push(k);
        }
    }
    o.may_if(c.opt(1).is_none(), "no payer");
    if let Some(k) = c.opt(1) {
        o.sinks.push(k);
    }
    o.may_if(end > raw.len() + MAX_GROW, "grows too much");
    o.post.insert(k0, Want::Buffer(exts));
}

fn write(c: &Cx, overwrite: bool, bytes: &[u8], o: &mut Out) {
    let k0 = c.k(0);
    o.op = P13;
    o.live |= P13;
    o.target = Some(k0);
    o.sinks.push(c.k(1));
    o.fail_if(!c.signed(0), P13 | P21, "buffer did not sign");
    o.fail_if(!c.signed(1), P12 | P21, "payer did not sign");
    if c.signed(1) {
        o.payers.push(c.k(1));
    }
    o.may_if(c.k(2) != system_program::ID, "no system program");
    o.may_if(c.alias(0), "aliased buffer");
    if !c.ours(0) {
        return o.fail_if(true, P21 | P13, "account of another program");
    }
    let raw = c.w.data(&k0);
    o.fail_if(raw.len() < HDR, P13, "account too small");
    o.fail_if(raw.first().map_or(false, |b| *b != 0), P13 | P21 | P22, "already an asset");
    if o.must_fail() {
        return;
    }
    let Some(mut exts) = buffer(raw) else {
        o.no_post = true;
        return o.may_if(true, "unreadable buffer");
    };
    let Some(l) = exts.last_mut() else {
        return o.fail_if(true, P13, "nothing to write to");
    };
    if l.data.len() == l.len {
        o.may_if(true, "extension already complete");
    }
    let mut d = if overwrite { vec![] } else { l.data.clone() };
    d.extend(bytes);
    o.fail_if(d.len() > l.len, P13, "beyond the declared length");
    if d.len() == l.len {
        match valid_create(l.ty, &d, None) {
            Valid::Ok(x) => d = x,
            // whether bad content is refused here or on creation is open
            Valid::Bad(..) | Valid::Unknown => o.may_if(true, "content not acceptable"),
        }
    }
    l.data = d;
    let p = c.w.get(&c.k(1));
    o.may_if(p.owner != system_program::ID || !p.data.is_empty(), "payer is no wallet");
    o.may_if(p.lamports < rent(bytes.len()) + rent(0), "payer cannot afford it");
    o.may_if(!c.m[1].writable, "payer not writable");
    o.may_if(bytes.len() > MAX_GROW, "grows too much");
    o.post.insert(k0, Want::Buffer(exts));
}
