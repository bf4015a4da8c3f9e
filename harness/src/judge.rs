//! Runs a call on the real code and compares with the reference model.

use crate::{
    explore::{Tx, Via},
    op::{Call, Ins, ASSET},
    spec::*,
    view::*,
    vm::{exec, rent, Acct, Ix, Meta, World},
};
use solana_program::{pubkey::Pubkey, system_program};

pub type Bad = Vec<(Tags, String)>;

pub struct Verdict {
    pub next: Option<World>,
    pub bad: Bad,
    pub out: Out,
    pub err: Option<String>,
}

pub fn short(k: &Pubkey) -> String {
    crate::keys::name(k)
}

/// Compares an account with the wanted asset.
pub fn cmp_asset(k: &Pubkey, acct: &Acct, want: &Asset, pin: Option<usize>, op: Tags, bad: &mut Bad) {
    let s = short(k);
    if acct.owner != ASSET {
        bad.push((op | P14 | P21, format!("{s}: account left the program")));
        return;
    }
    let Some(got) = Asset::parse(&acct.data) else {
        bad.push((op | P14 | P21, format!("{s}: no longer an asset")));
        return;
    };
    let mut diff = |t: Tags, what: &str, a: String, b: String| {
        if a != b {
            bad.push((op | t, format!("{s}: {what} is {a}, expected {b}")));
        }
    };
    diff(P01, "owner", short(&got.owner), short(&want.owner));
    diff(P02, "state", got.state.to_string(), want.state.to_string());
    let dt = P03 | if got.delegate != want.delegate { P01 } else { 0 };
    diff(dt, "delegate", short(&got.delegate), short(&want.delegate));
    if want.delegate != Pubkey::default() {
        diff(P03, "delegate roles", got.roles.to_string(), want.roles.to_string());
    }
    diff(P04, "name", format!("{:?}", got.name), format!("{:?}", want.name));
    diff(P04, "mutable", got.mutable.to_string(), want.mutable.to_string());
    diff(P04, "authority", short(&got.authority), short(&want.authority));
    diff(P06, "group", short(&got.group), short(&want.group));
    diff(P10, "standard", got.standard.to_string(), want.standard.to_string());
    if let Some(n) = pin {
        diff(P05, "account length", got.len.to_string(), n.to_string());
    }
    if let Some(e) = &got.bad {
        bad.push((op | P05, format!("{s}: {e}")));
        return;
    }
    for e in &want.exts {
        match got.ext(e.ty) {
            None => bad.push((
                op | P05 | P04 | ext_tag(e.ty),
                format!("{s}: extension {} is gone", e.ty),
            )),
            Some(d) if d != e.data => bad.push((
                op | P05 | P04 | ext_tag(e.ty),
                format!("{s}: extension {} is {:?}, expected {:?}", e.ty, d, e.data),
            )),
            _ => (),
        }
    }
    for e in &got.exts {
        if want.ext(e.ty).is_none() {
            bad.push((
                op | P05 | P04 | ext_tag(e.ty),
                format!("{s}: unexpected extension {}", e.ty),
            ));
        }
    }
}

fn cmp_buffer(k: &Pubkey, acct: &Acct, want: &[BufExt], op: Tags, bad: &mut Bad) {
    let s = short(k);
    let op = op | P13;
    if acct.owner != ASSET {
        return bad.push((op | P21, format!("{s}: buffer left the program")));
    }
    let Some(got) = buffer(&acct.data) else {
        return bad.push((op, format!("{s}: unreadable buffer")));
    };
    // header of a buffer stays blank
    if acct.data[..HDR].iter().any(|b| *b != 0) {
        bad.push((op | P22, format!("{s}: buffer header is not blank")));
    }
    let norm = |b: &BufExt| {
        let mut d = b.data.clone();
        if b.ty == ty::CREATORS {
            // who verifies is decided on creation
            for c in d.chunks_mut(34) {
                if c.len() > 32 {
                    c[32] = 0;
                }
            }
        }
        (b.ty, b.len, d)
    };
    let (g, w): (Vec<_>, Vec<_>) = (got.iter().map(norm).collect(), want.iter().map(norm).collect());
    if g != w {
        bad.push((op, format!("{s}: buffer holds {g:?}, expected {w:?}")));
        return;
    }
    // a completed extension occupies its padded room
    if let Some(l) = want.last() {
        let end = want.iter().fold(HDR, |s, e| align8(s + EXT + e.len));
        if l.data.len() == l.len && acct.data.len() < end {
            bad.push((op, format!("{s}: completed extension is not padded")));
        }
    }
}

fn money(w: &World, n: &World, call: &Call, o: &Out, bad: &mut Bad) {
    let m = merged(&call.metas);
    let mut keys: Vec<Pubkey> = m.iter().map(|m| m.key).collect();
    keys.extend(w.accts.keys());
    keys.extend(n.accts.keys());
    keys.sort();
    keys.dedup();
    let (mut a, mut b) = (0u128, 0u128);
    for k in &keys {
        a += w.lamports(k) as u128;
        b += n.lamports(k) as u128;
    }
    let op = P12;
    if a != b {
        bad.push((op, format!("total lamports changed from {a} to {b}")));
    }
    let missing = o
        .target
        .map(|k| rent(n.data(&k).len()).saturating_sub(w.lamports(&k)))
        .unwrap_or(0);
    for k in &keys {
        let (x, y) = (w.lamports(k), n.lamports(k));
        if y < x {
            if Some(*k) == o.target {
                continue;
            }
            if !o.payers.contains(k) {
                bad.push((op, format!("{} lost {} lamports without paying", short(k), x - y)));
            } else if x - y > missing {
                bad.push((op, format!("{} was charged {}, missing rent {missing}", short(k), x - y)));
            }
        } else if y > x && Some(*k) != o.target && !o.sinks.contains(k) {
            bad.push((op, format!("{} received {} lamports", short(k), y - x)));
        }
    }
    if let Some(t) = o.target {
        let (x, y) = (w.lamports(&t), n.lamports(&t));
        if o.closes {
            if let Some(s) = o.sinks.first() {
                if *s != t && n.lamports(s) != w.lamports(s) + x {
                    bad.push((
                        op | P14,
                        format!("{} got {} of {x} lamports", short(s), n.lamports(s) - w.lamports(s)),
                    ));
                }
            }
        } else {
            let (lx, ly) = (w.data(&t).len(), n.data(&t).len());
            if y > 0 && y < rent(ly) {
                bad.push((op, format!("{} is not rent-exempt", short(&t))));
            }
            if ly < lx && !o.sinks.contains(&t) && x >= rent(lx) && x - rent(lx) + rent(ly) < y {
                bad.push((op, format!("{} kept the rent it no longer needs", short(&t))));
            }
        }
    }
}

/// Funds the destroyed address again within the same transaction.
fn revive(w: &World, ix: Ix, height: u64, k: &Pubkey, bad: &mut Bad) {
    let mut d = 2u32.to_le_bytes().to_vec();
    d.extend(rent(1000).to_le_bytes());
    let funder = crate::keys::FUNDER;
    let mut w = w.clone();
    w.set(funder, Acct::wallet(1 << 50));
    let sys = Ix {
        program: system_program::ID,
        metas: vec![
            Meta { key: funder, signer: true, writable: true },
            Meta { key: *k, signer: false, writable: true },
        ],
        data: d,
    };
    match exec(&w, &[ix, sys], height) {
        Err(e) => bad.push((P14, format!("{}: refunding after destruction failed: {e}", short(k)))),
        Ok(n) => {
            let a = n.get(k);
            if a.owner != system_program::ID || !a.data.is_empty() {
                bad.push((
                    P14,
                    format!(
                        "{}: {} bytes owned by {} survive destruction",
                        short(k),
                        a.data.len(),
                        short(&a.owner)
                    ),
                ));
            }
        }
    }
}

/// What is sent, and what has to come of it.
pub fn order(w: &World, tx: &Tx) -> (Ix, Out) {
    let call = &tx.call;
    match tx.via {
        Via::Direct => (call.ix(), spec(w, call, tx.height)),
        Via::Forward => (crate::proxy::forward_ix(call), crate::proxy::forward_spec(w, call)),
        Via::Proxy => (crate::proxy::proxy_ix(call), crate::proxy::proxy_spec(w, call)),
    }
}

pub fn judge(w: &World, tx: &Tx) -> Verdict {
    let mut v = judge_at(w, tx);
    for b in v.bad.iter_mut() {
        b.0 |= tx.also;
    }
    v
}

fn judge_at(w: &World, tx: &Tx) -> Verdict {
    if tx.dt != 0 {
        let mut later = w.clone();
        later.clock += tx.dt;
        return judge_now(&later, tx);
    }
    judge_now(w, tx)
}

fn judge_now(w: &World, tx: &Tx) -> Verdict {
    let (ix, out) = order(w, tx);
    let call = &tx.call;
    let height = tx.height;
    crate::explore::watch(w, call, &out);
    let r = if crate::explore::crashes(w, call) {
        Err("crash or no termination".into())
    } else {
        exec(w, &[ix.clone()], height)
    };
    crate::explore::unwatch();
    let mut bad: Bad = vec![];
    let what = call.ins.name();
    match r {
        Err(e) => {
            if out.must_succeed() {
                bad.push((out.live, format!("{what} refused although it has to work: {e}")));
            }
            Verdict { next: None, bad, out, err: Some(e) }
        }
        Ok(n) => {
            if out.must_fail() {
                for (t, why) in &out.fail {
                    bad.push((*t, format!("{what} succeeded although: {why}")));
                }
                if let Ins::Create(_) = call.ins {
                    // created all the same, but not as a member of the group that was asked for
                    let k = call.metas[0].key;
                    let asked = call.metas.get(3).map(|m| m.key).filter(|g| *g != ASSET);
                    let got = Asset::parse(n.data(&k)).map(|a| a.group);
                    if w.data(&k).first() != Some(&1) && asked.is_some() && got.is_some() && got != asked {
                        bad.push((P22, format!("{what} made an asset outside the group that was asked for")));
                    }
                }
            } else if !out.no_post {
                compare(w, &n, call, &out, &mut bad);
                if bad.is_empty() {
                    for (k, want) in &out.post {
                        if matches!(want, Want::Gone) && !(call.metas.len() > 1 && call.metas[1..].iter().any(|m| m.key == *k)) {
                            revive(w, ix.clone(), height, k, &mut bad);
                        }
                    }
                }
            }
            money(w, &n, call, &out, &mut bad);
            for b in bad.iter_mut() {
                if !b.1.starts_with(what) {
                    b.1 = format!("{what}: {}", b.1);
                }
            }
            Verdict { next: Some(n), bad, out, err: None }
        }
    }
}

fn compare(w: &World, n: &World, call: &Call, o: &Out, bad: &mut Bad) {
    for (k, want) in &o.post {
        let acct = n.get(k);
        match want {
            Want::Asset(a, pin) => cmp_asset(k, &acct, a, *pin, o.op, bad),
            Want::Proxied(a, count, time) => {
                let (mut a, s) = (a.clone(), short(k));
                if let Some(got) = Asset::parse(&acct.data) {
                    let t = crate::proxy::transfers(&got);
                    if t != Some(*count) {
                        bad.push((P17, format!("{s}: shows {t:?} transfers, expected {count}")));
                    }
                    let t = crate::proxy::last_transferred(&got);
                    if t != Some(*time) {
                        bad.push((P17, format!("{s}: shows last transfer at {t:?}, expected {time}")));
                    }
                    match got.ext(ty::BLOB) {
                        Some(b) if b.starts_with(b"\x0dimage/svg+xml") => (),
                        _ => bad.push((P17, format!("{s}: no image"))),
                    }
                    for t in [ty::ATTRIBUTES, ty::BLOB, ty::PROPERTIES] {
                        a.exts.extend(got.exts.iter().filter(|e| e.ty == t).cloned());
                    }
                }
                cmp_asset(k, &acct, &a, None, o.op, bad)
            }
            Want::Buffer(b) => cmp_buffer(k, &acct, b, o.op, bad),
            Want::BufferMaybe(d) => {
                let pre = w.get(k);
                if pre.owner != acct.owner || pre.data.len() != acct.data.len() {
                    bad.push((o.op | P13, format!("{}: buffer changed", short(k))));
                } else {
                    let (s, e) = (HDR + EXT, HDR + EXT + d.len());
                    let same = pre.data[..s] == acct.data[..s] && pre.data[e..] == acct.data[e..];
                    let mid = acct.data[s..e] == pre.data[s..e] || acct.data[s..e] == d[..];
                    if !same || !mid {
                        bad.push((o.op | P13, format!("{}: buffer changed", short(k))));
                    }
                }
            }
            Want::Gone => {
                if n.accts.contains_key(k) {
                    bad.push((o.op | P14, format!("{}: still exists", short(k))));
                }
            }
        }
    }
    for (k, pre) in &w.accts {
        if o.post.contains_key(k) {
            continue;
        }
        if n.accts.get(k).map_or(false, |x| std::sync::Arc::ptr_eq(x, pre)) {
            continue;
        }
        let post = n.get(k);
        if pre.data != post.data || (pre.owner != post.owner && post.lamports > 0) {
            let mut t = o.op | P21;
            if let (Some(a), Some(b)) = (Asset::parse(&pre.data), Asset::parse(&post.data)) {
                let mut sub = vec![];
                cmp_asset(k, &post, &a, Some(a.len), 0, &mut sub);
                t |= sub.iter().fold(0, |s, x| s | x.0);
                let _ = b;
            }
            bad.push((t, format!("{}: bystander changed", short(k))));
        }
    }
    for k in n.accts.keys() {
        if !w.accts.contains_key(k) && !o.post.contains_key(k) && n.accts[k].owner == ASSET {
            bad.push((o.op | P22, format!("{}: unexpected new account", short(k))));
        }
    }
    let _ = matches!(call.ins, Ins::Burn);
}

/// Invariants of every reachable world.
pub fn invariants(w: &World) -> Bad {
    let mut bad: Bad = vec![];
    let mut members: std::collections::BTreeMap<Pubkey, u64> = w.elsewhere.clone();
    let mut assets = vec![];
    for (k, a) in &w.accts {
        if a.owner != ASSET {
            continue;
        }
        if a.lamports < rent(a.data.len()) {
            bad.push((P12, format!("{} is not rent-exempt", short(k))));
        }
        if let Some(x) = Asset::parse(&a.data) {
            if x.group != Pubkey::default() {
                *members.entry(x.group).or_default() += 1;
            }
            assets.push((*k, x, &a.data));
        }
    }
    for (k, a, d) in &assets {
        let s = short(k);
        if let Some(e) = &a.bad {
            bad.push((P05, format!("{s}: {e}")));
            continue;
        }
        if a.state > 1 || a.standard > 3 || a.mutable > 1 || a.roles > 7 {
            bad.push((P04 | P02 | P03 | P10, format!("{s}: header bytes out of range")));
        }
        let n = members.get(k).copied().unwrap_or(0);
        match a.grouping() {
            Some(g) => {
                if g.size != n {
                    bad.push((P06, format!("{s}: group size {} with {n} members", g.size)));
                }
                if g.max != 0 && g.size > g.max {
                    bad.push((P06, format!("{s}: group size {} above maximum {}", g.size, g.max)));
                }
            }
            None if n > 0 => bad.push((P06, format!("{s}: no grouping data but {n} members"))),
            None => (),
        }
        if let Some(c) = a.ext(ty::CREATORS) {
            match creators(c) {
                None => bad.push((P07 | P05, format!("{s}: malformed creators"))),
                Some(l) => {
                    if l.iter().map(|c| c.share as u32).sum::<u32>() != 100 {
                        bad.push((P07, format!("{s}: creator shares do not add up to 100")));
                    }
                    if l.iter().any(|c| c.verified > 1) {
                        bad.push((P07, format!("{s}: verified flag out of range")));
                    }
                }
            }
        }
        if let Some(r) = a.ext(ty::ROYALTIES) {
            if r.len() < 8 || u64_at(r, 0) > 10000 {
                bad.push((P08, format!("{s}: royalty rate out of range")));
            }
        }
        if (a.standard == MANAGED) != a.ext(ty::MANAGER).is_some()
            || (a.standard == PROXIED) != a.ext(ty::PROXY).is_some()
            || (a.standard == MANAGED && a.manager().is_none())
        {
            bad.push((P10, format!("{s}: standard {} and extensions disagree", a.standard)));
        }
        if let Some(x) = a.ext(ty::PROXY) {
            let ok = x.len() == 97 && {
                let prog = Pubkey::try_from(&x[..32]).unwrap();
                Pubkey::create_program_address(&[&x[32..64], &x[64..65]], &prog) == Ok(*k)
            };
            if !ok {
                bad.push((P10 | P11, format!("{s}: proxy data does not derive the address")));
            }
        }
        if crate::explore::wants(P05 | P19) {
            library_agrees(&s, a, d, &mut bad);
        }
    }
    for (g, n) in &members {
        if !assets.iter().any(|(k, _, _)| k == g) {
            bad.push((P06, format!("{}: {n} assets name it as group but it is none", short(g))));
        }
    }
    bad
}

/// The library's own lookups see the same extensions.
fn library_agrees(s: &str, a: &Asset, d: &[u8], bad: &mut Bad) {
    use nifty_asset_types::{extensions::ExtensionType, state::Asset as Lib};
    // zero-copy views need an aligned copy
    let mut store = vec![0u64; d.len() / 8 + 1];
    let b: &mut [u8] =
        unsafe { std::slice::from_raw_parts_mut(store.as_mut_ptr() as *mut u8, d.len()) };
    b.copy_from_slice(d);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        crate::vm::quiet(|| {
            let mut bad = vec![];
            let list: Vec<u32> = Lib::get_extensions(b).iter().map(|t| *t as u32).collect();
            let want: Vec<u32> = a.exts.iter().map(|e| e.ty).collect();
            if list != want {
                bad.push(format!("library lists extensions {list:?}, stored {want:?}"));
            }
            for t in 1..=NTYPES {
                let Ok(x) = ExtensionType::try_from(t) else {
                    bad.push(format!("library does not know extension type {t}"));
                    continue;
                };
                if Lib::contains(x, b) != a.ext(t).is_some() {
                    bad.push(format!("library disagrees on presence of extension {t}"));
                }
            }
            let last = Lib::last_extension(b).map(|(e, o)| (e.extension_type() as u32, e.length() as usize, o));
            let lw = a.exts.last().map(|e| (e.ty, e.data.len(), a.end));
            match (last, lw) {
                (None, None) => (),
                (Some((t, l, o)), Some((wt, wl, end)))
                    if t == wt && l == wl && align8(o + l) == end => (),
                x => bad.push(format!("library's last extension {x:?}")),
            }
            let first = Lib::first_extension(b).map(|(e, o)| (e.extension_type() as u32, o));
            let fw = a.exts.first().map(|e| (e.ty, HDR + EXT));
            if first != fw {
                bad.push(format!("library's first extension {first:?}, stored {fw:?}"));
            }
            bad
        })
    }));
    match r {
        Ok(v) => bad.extend(v.into_iter().map(|m| (P05 | P19, format!("{s}: {m}")))),
        Err(_) => bad.push((P05 | P19, format!("{s}: library lookup panicked"))),
    }
}
