//! Scenarios in which one key plays several parts.
//!
//! Every scenario gives each part (owner, authority, delegate, manager, delegate of a group, …) a
//! key of its own. Here keys are identified with each other, in the initial worlds as well as in
//! the calls: all that the scenario explores, explored again for that coincidence.

use crate::{
    explore::{Scenario, Tx},
    keys::*,
    op::*,
    scenarios::*,
    sc_ext::*,
    sc_group::*,
    sc_std::*,
    view::ty,
    vm::{Acct, World},
};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, HashSet};

/// The account whose signature stands for an asset of the example proxy program.
const STUB: Pubkey = Pubkey::new_from_array(crate::proxy::SEED);

type Map = &'static [(Pubkey, Pubkey)];

fn key(k: &mut Pubkey, m: Map) {
    if let Some((_, to)) = m.iter().find(|(from, _)| from == k) {
        *k = *to;
    }
}

fn bytes(d: &mut [u8], m: Map) {
    let mut i = 0;
    while i + 32 <= d.len() {
        match m.iter().find(|(from, _)| from.as_ref() == &d[i..i + 32]) {
            Some((_, to)) => {
                d[i..i + 32].copy_from_slice(to.as_ref());
                i += 32;
            }
            None => i += 1,
        }
    }
}

fn world(w: &World, m: Map) -> World {
    let mut n = w.clone();
    n.accts = BTreeMap::new();
    for (k, a) in &w.accts {
        // the account of a key that is given up goes with it
        if m.iter().any(|(from, _)| from == k) {
            continue;
        }
        let mut a = (**a).clone();
        if !a.exec {
            bytes(&mut a.data, m);
        }
        n.set(*k, a);
    }
    n
}

fn call(c: &mut Call, m: Map) {
    for x in &mut c.metas {
        key(&mut x.key, m);
    }
    let ext = |e: &mut ExtIn| {
        if let Some(d) = &mut e.data {
            bytes(d, m);
        }
    };
    match &mut c.ins {
        Ins::Create(x) => x.exts.iter_mut().flatten().for_each(ext),
        Ins::Allocate(e) => ext(e),
        Ins::Update(x) => x.ext.iter_mut().for_each(ext),
        Ins::Write { bytes: b, .. } => bytes(b, m),
        _ => (),
    }
}

fn steps(depth: usize) -> String {
    if depth == usize::MAX { "all".into() } else { depth.to_string() }
}

fn mark(i: usize) -> Pubkey {
    let mut k = [0xee; 32];
    k[31] = i as u8;
    Pubkey::from(k)
}

/// The scenario with keys identified in every listed way, explored to a depth of its own.
fn same(s: Scenario, name: String, list: &'static [Map], depth: usize) -> Scenario {
    let Scenario { tags, inits: from, alphabet, .. } = s;
    let mut inits = vec![];
    for (i, m) in list.iter().enumerate() {
        for (n, w) in &from {
            let mut w = world(w, m);
            // shows which coincidence a world belongs to
            w.set(mark(i), Acct::wallet(1));
            inits.push((format!("{n}; {}", label(m)), w));
        }
    }
    Scenario {
        name,
        tags,
        inits,
        alphabet: Box::new(move |w| {
            let i = (0..list.len()).find(|i| w.accts.contains_key(&mark(*i))).unwrap();
            let mut seen = HashSet::new();
            let mut v: Vec<Tx> = alphabet(w);
            v.retain_mut(|t| {
                call(&mut t.call, list[i]);
                seen.insert((t.call.clone(), t.height, t.via, t.dt))
            });
            v
        }),
        depth,
    }
}

/// Coincidences that leave the asset of the buffer scenarios as it is.
pub const BUFFERS: &[Map] = &[
    &[(C1, AUTH)],
    &[(C2, AUTH)],
    &[(C1, OWNER)],
    &[(C1, PAYER)],
    &[(PAYER, AUTH)],
    &[(PAYER, OWNER)],
    &[(MGR, AUTH)],
    &[(MGR, OWNER)],
    &[(GDEL, AUTH)],
    &[(SINK, AUTH)],
    &[(SINK, PAYER)],
    &[(C1, AUTH), (PAYER, AUTH), (SINK, AUTH)],
    &[(C1, BUF)],
    &[(MGR, BUF)],
];

pub const ROYALTIES: &[Map] = &[
    &[(OWNER, AUTH)],
    &[(DEL, OWNER), (MGR, OWNER), (AUTH, OWNER)],
    &[(BOB, AUTH)],
    &[(DEL, AUTH)],
    &[(DEL, BOB)],
    &[(MGR, OWNER)],
    &[(BOB, A1)],
    &[(OWNER, G1)],
    &[(VAULT2, VAULT)],
];

pub const EXAMPLE: &[Map] = &[
    &[(OWNER, AUTH)],
    &[(AUTH2, AUTH)],
    &[(BOB, AUTH)],
    &[(DEL, OWNER)],
    &[(DEL, AUTH)],
    &[(GDEL, AUTH)],
    &[(GDEL, OWNER)],
    &[(PAYER, OWNER)],
    &[(SINK, OWNER)],
    &[(OWNER, AUTH), (GDEL, AUTH), (DEL, AUTH)],
    &[(AUTH, STUB)],
    &[(OWNER, STUB)],
    &[(PAYER, STUB)],
    &[(AUTH, PAYER)],
    &[(OWNER, STUB), (AUTH, STUB), (PAYER, STUB)],
];

fn label(m: Map) -> String {
    m.iter().map(|(a, b)| format!("{}={}", name(a), name(b))).collect::<Vec<_>>().join(",")
}

pub const CUSTODY: &[Map] = &[
    &[(OWNER, AUTH)],
    &[(DEL, AUTH)],
    &[(DEL, OWNER)],
    &[(MGR, OWNER)],
    &[(MGR, AUTH)],
    &[(MGR, DEL)],
    &[(BOB, AUTH)],
    &[(BOB, MGR)],
    &[(MGR, OWNER), (DEL, AUTH)],
    &[(MGR, OWNER), (AUTH, OWNER)],
    &[(MGR, OWNER), (DEL, OWNER), (AUTH, OWNER)],
    &[(OWNER, A1)],
    &[(DEL, A1)],
    &[(MGR, A1)],
    &[(AUTH, A1)],
    &[(SINK, OWNER)],
    &[(SINK, DEL)],
];

pub const GROUPS: &[Map] = &[
    &[(OWNER, AUTH)],
    &[(GDEL, AUTH)],
    &[(OWNER, GDEL)],
    &[(AUTH2, AUTH)],
    &[(AUTH2, OWNER)],
    &[(AUTH2, GDEL)],
    &[(OWNER, AUTH), (GDEL, AUTH)],
    &[(OWNER, AUTH), (AUTH2, AUTH), (GDEL, AUTH)],
    &[(OWNER, G1)],
    &[(AUTH, G1)],
    &[(GDEL, G1)],
    &[(GDEL, A1)],
    &[(AUTH, A1)],
    &[(SINK, OWNER)],
    &[(PAYER, AUTH)],
];

pub const EDITS: &[Map] = &[
    &[(OWNER, AUTH)],
    &[(AUTH2, AUTH)],
    &[(AUTH2, OWNER)],
    &[(PAYER, AUTH)],
    &[(PAYER, OWNER)],
    &[(SINK, AUTH)],
    &[(SINK, PAYER)],
    &[(BOB, AUTH)],
    &[(DEL, AUTH)],
    &[(AUTH, A1)],
    &[(OWNER, A1)],
    &[(C1, AUTH)],
    &[(C1, OWNER)],
    &[(C2, AUTH)],
    &[(C1, AUTH), (C2, OWNER)],
    &[(OWNER, AUTH), (PAYER, AUTH), (SINK, AUTH), (C1, AUTH)],
];

pub fn same_custody(standard: u8, roles: u8, deep: bool) -> Scenario {
    same(custody(standard, roles, deep), format!("same-custody-s{standard}-m{roles}"), CUSTODY, usize::MAX)
}
pub fn same_groups(kind: u8, depth: usize) -> Scenario {
    same(groups(kind, depth), format!("same-groups-{kind}-d{}", steps(depth)), GROUPS, depth)
}
pub fn same_edits(depth: usize) -> Scenario {
    same(edits(), format!("same-edits-d{}", steps(depth)), EDITS, depth)
}
pub fn same_creators(depth: usize) -> Scenario {
    same(creators_scenario(false), format!("same-creators-d{}", steps(depth)), EDITS, depth)
}
pub fn same_rates(depth: usize) -> Scenario {
    same(royalty_rates(), format!("same-royalty-rates-d{}", steps(depth)), EDITS, depth)
}
pub fn same_standards(depth: usize) -> Scenario {
    same(standards(depth), format!("same-standards-d{}", steps(depth)), EDITS, depth)
}
pub fn same_proxied(depth: usize) -> Scenario {
    same(proxied(0, depth), format!("same-proxied-d{}", steps(depth)), EDITS, depth)
}
pub fn same_buffers(depth: usize) -> Scenario {
    let d = BufferDomain {
        types: vec![(ty::CREATORS, vec![34, 68]), (ty::MANAGER, vec![33]), (ty::GROUPING, vec![16, 48])],
        chunks: vec![16, 33],
        max_exts: 2,
    };
    same(buffers("", d, depth), format!("same-buffers-d{}", steps(depth)), BUFFERS, depth)
}
pub fn same_royalties(deep: bool) -> Scenario {
    let list = if deep { ROYALTIES } else { &ROYALTIES[..3] };
    same(royalties(false), format!("same-royalties{}", if deep { "-deep" } else { "" }), list, 1)
}
pub fn same_example(depth: usize) -> Scenario {
    same(example(0, 2, depth), format!("same-example-proxy-d{}", steps(depth)), EXAMPLE, depth)
}
