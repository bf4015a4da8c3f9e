//! Groups, royalties, standards.

use crate::{
    explore::{Scenario, Tx},
    keys::*,
    op::*,
    rules::{royalties_bytes, Rule},
    scenarios::*,
    sc_ext::{content, raw_buffer},
    spec::*,
    view::*,
    vm::{rent, Acct, World},
};
use solana_program::pubkey::Pubkey;

fn gr(size: u64, max: u64, delegate: Pubkey) -> Vec<u8> {
    Grouping { size, max, delegate }.bytes()
}
pub fn ext_in(t: u32, d: Vec<u8>) -> Vec<ExtIn> {
    vec![ExtIn::full(t as u8, d)]
}
pub fn with_ext(a: Pubkey, by: Pubkey, e: ExtIn) -> Call {
    update(a, by, UpdateIn { ext: Some(e), ..Default::default() })
}

/// Membership of several assets in two groups.
pub fn groups(kind: u8, depth: usize) -> Scenario {
    let mut w = base();
    put(&mut w, A1, Build::new(OWNER, AUTH).bytes());
    put(&mut w, A2, Build::new(OWNER, AUTH).std(SOULBOUND).ext(ty::BUCKET, vec![1, 2, 3]).bytes());
    put(&mut w, A4, Build::new(OWNER, AUTH2).bytes());
    put(&mut w, G1, Build::new(OWNER, AUTH).ext(ty::BUCKET, vec![1]).ext(ty::GROUPING, gr(0, 2, GDEL)).ext(ty::LINKS, content(ty::LINKS, 6, 0).unwrap()).bytes());
    put(&mut w, G2, Build::new(OWNER, AUTH).ext(ty::GROUPING, gr(0, 0, Pubkey::default())).bytes());
    put(&mut w, BUF, raw_buffer(&[(ty::GROUPING, gr(0, 1, Pubkey::default()))]));
    put(&mut w, BUF2, raw_buffer(&[(ty::GROUPING, gr(1, 5, GDEL))]));
    // an imitation with free slots
    put_owned(&mut w, FAKEG, Build::new(OWNER, AUTH).ext(ty::GROUPING, gr(0, 0, GDEL)).bytes(), PROG1);
    let mut v = vec![];
    let (assets, gs): (Vec<Pubkey>, Vec<Pubkey>) = match kind {
        0 => (vec![A1, A2, A4], vec![G1, G2]),
        1 => (vec![A1, A2, G2], vec![G1]),
        _ => (vec![A1, FRESH], vec![G1]),
    };
    for a in &assets {
        for g in &gs {
            for by in [AUTH, AUTH2, GDEL, OWNER] {
                v.push(group(*a, *g, by));
                v.push(ungroup(*a, *g, by));
            }
            for by in [AUTH, GDEL] {
                v.push(group(*a, *g, by).sign(2, false));
                v.push(ungroup(*a, *g, by).sign(2, false));
            }
        }
        v.push(group(*a, FAKEG, AUTH));
        v.push(group(*a, A4, AUTH));
        v.push(group(*a, *a, AUTH));
        v.push(ungroup(*a, FAKEG, AUTH));
        v.push(ungroup(*a, A4, AUTH2));
        for g in [None, s(G1), s(G2), s(FAKEG)] {
            v.push(burn(*a, OWNER, s(SINK), g));
        }
        v.push(transfer(*a, OWNER, OWNER, None));
    }
    for g in &gs {
        v.push(burn(*g, OWNER, s(SINK), None));
        v.push(burn(*g, OWNER, s(SINK), s(G1)));
        v.push(remove(*g, AUTH, ty::GROUPING, SINK));
        v.push(remove(*g, GDEL, ty::GROUPING, SINK));
        v.push(close(*g, SINK));
        v.push(close(*g, SINK).sign(0, false));
        let mut sets = vec![gr(0, 2, GDEL), gr(0, 1, GDEL), gr(1, 2, GDEL), gr(0, 0, Pubkey::default())];
        if kind != 0 {
            sets.extend([gr(2, 0, GDEL), gr(u64::MAX, 3, GDEL), gr(0, 2, Pubkey::default())]);
        }
        for d in sets {
            v.push(set_ext(*g, AUTH, ty::GROUPING, d.clone()));
            v.push(set_ext(*g, GDEL, ty::GROUPING, d));
        }
        for n in [0usize, 8, 15, 16] {
            v.push(set_ext(*g, AUTH, ty::GROUPING, gr(0, 2, GDEL)[..n].to_vec()));
        }
        v.push(with_ext(*g, AUTH, ExtIn { ty: ty::GROUPING as u8, len: 0, data: None }));
        v.push(with_ext(*g, AUTH, ExtIn { ty: ty::GROUPING as u8, len: 48, data: None }));
        v.push(set_name(*g, AUTH, b"asset"));
    }
    v.push(update_buf(G1, AUTH, BUF));
    v.push(update_buf(G1, AUTH, BUF2));
    v.push(burn(A1, OWNER, s(G1), s(G1)));
    match kind {
        1 => {
            // nested: a group that is a member itself; members of the inner group
            for by in [AUTH, GDEL] {
                v.push(group(A1, G2, by));
                v.push(ungroup(A1, G2, by));
            }
            v.push(handover(G1, AUTH, AUTH2));
            v.push(handover(G1, AUTH2, AUTH));
            v.push(handover(A1, AUTH, AUTH2));
            v.push(handover(A1, AUTH2, AUTH));
            v.push(set_ext(G1, AUTH2, ty::GROUPING, gr(0, 0, GDEL)));
        }
        2 => {
            for auth in [AUTH, AUTH2] {
                for (ga, sign) in [(s(AUTH), true), (s(AUTH), false), (s(GDEL), true), (s(GDEL), false), (s(AUTH2), true), (s(OWNER), true)] {
                    let c = create(FRESH, auth, OWNER, s(G1), ga, plain(0, vec![]));
                    v.push(if sign { c } else { c.sign(4, false) });
                }
                v.push(create(FRESH, auth, OWNER, s(G1), None, plain(0, vec![])));
                v.push(create(FRESH, auth, OWNER, s(G1), None, plain(0, vec![])).sign(1, true));
                v.push(create(FRESH, auth, OWNER, s(FAKEG), s(AUTH), plain(0, vec![])));
                v.push(create(FRESH, auth, OWNER, s(A4), s(auth), plain(0, vec![])));
                v.push(create(FRESH, auth, OWNER, None, None, plain(0, ext_in(ty::GROUPING, gr(0, 1, Pubkey::default())))));
                v.push(create(FRESH, auth, OWNER, s(G1), s(auth), plain(0, ext_in(ty::GROUPING, gr(1, 1, Pubkey::default())))));
                v.push(create(FRESH, auth, OWNER, s(G1), s(auth), plain(0, ext_in(ty::GROUPING, gr(0, 0, Pubkey::default())[..16].to_vec()))));
            }
            v.push(group(A1, FRESH, AUTH));
            v.push(ungroup(A1, FRESH, AUTH));
            v.push(remove(FRESH, AUTH, ty::GROUPING, SINK));
            v.push(handover(FRESH, AUTH, AUTH2));
            v.push(set_mutable(FRESH, AUTH, false));
            v.push(set_mutable(G1, AUTH, false));
        }
        _ => (),
    }
    Scenario {
        name: format!("groups-{kind}"),
        tags: P06 | P05 | P21 | P14 | P12 | if kind == 2 { P22 } else { P04 },
        inits: vec![("assets and empty groups".into(), w)],
        alphabet: fixed(v),
        depth,
    }
}

fn leaves(thorough: bool) -> Vec<Rule> {
    let mut v = vec![Rule::Empty];
    for a in 0..3u8 {
        v.push(Rule::Owned(a, vec![PROG1]));
        v.push(Rule::Key(a, vec![[A1, OWNER, VAULT][a as usize]]));
        if thorough {
            v.push(Rule::Owned(a, vec![]));
            v.push(Rule::Owned(a, vec![PROG2, PROG1]));
            v.push(Rule::Owned(a, vec![solana_program::system_program::ID, ASSET]));
            v.push(Rule::Key(a, vec![]));
            v.push(Rule::Key(a, vec![BOB, VAULT2, EMPTYV]));
        }
    }
    v
}

pub fn rules(thorough: bool) -> Vec<Rule> {
    let l = leaves(thorough);
    let mut v = l.clone();
    v.extend([Rule::And(vec![]), Rule::Or(vec![])]);
    for a in &l {
        v.push(Rule::Not(Box::new(a.clone())));
        for b in &l {
            v.push(Rule::And(vec![a.clone(), b.clone()]));
            v.push(Rule::Or(vec![a.clone(), b.clone()]));
            let n = || Rule::Not(Box::new(b.clone()));
            v.push(Rule::Or(vec![a.clone(), n()]));
            v.push(Rule::And(vec![n(), a.clone()]));
            v.push(Rule::Not(Box::new(Rule::And(vec![a.clone(), b.clone()]))));
            v.push(Rule::Not(Box::new(Rule::Or(vec![a.clone(), b.clone()]))));
        }
        v.push(Rule::And(vec![Rule::Or(vec![a.clone()]), a.clone(), Rule::Empty]));
        v.push(Rule::Or(vec![Rule::And(vec![]), Rule::Not(Box::new(a.clone())), a.clone()]));
    }
    // the documented default: no program may move it, listed ones excepted
    v.push(Rule::And(vec![
        Rule::Not(Box::new(Rule::Owned(1, vec![PROG2]))),
        Rule::Or(vec![Rule::Owned(2, vec![PROG1]), Rule::Key(2, vec![BOB])]),
    ]));
    v
}

/// Transfers between wallets and program accounts under every rule.
pub fn royalties(thorough: bool) -> Scenario {
    let mut inits = vec![];
    // kinds of assets and groups: 0 is the ordinary one
    let mut world = |kind: u8, name: String, own: Option<&Rule>, grp: Option<&Rule>, owner: Pubkey| {
        let mut w = base();
        put_owned(&mut w, VAULT, vec![1; 8], PROG1);
        put_owned(&mut w, VAULT2, vec![1; 8], PROG2);
        put_owned(&mut w, EMPTYV, vec![], PROG1);
        let mut b = Build::new(owner, AUTH).delegate(DEL, TRANSFER).group(G1);
        let mut g = Build::new(OWNER, AUTH).ext(ty::GROUPING, gr(1, 0, GDEL));
        match kind {
            1 => b = b.std(MANAGED).ext(ty::MANAGER, manager_bytes(&MGR, TRANSFER)),
            2 => b = b.std(MANAGED).mutable(false).ext(ty::MANAGER, manager_bytes(&MGR, 0)),
            3 => g = g.std(MANAGED).locked(true).ext(ty::MANAGER, manager_bytes(&MGR, 7)),
            4 => g = g.std(SOULBOUND).mutable(false).delegate(DEL2, 7),
            // the owner is also the authority, of the asset and of its group
            5 => {
                b = Build::new(owner, owner).group(G1);
                g = Build::new(owner, owner).ext(ty::GROUPING, gr(1, 0, owner));
            }
            _ => (),
        }
        b = b.ext(ty::BUCKET, vec![1, 2, 3, 4, 5]);
        if let Some(r) = own {
            b = b.ext(ty::ROYALTIES, royalties_bytes(500, r));
        }
        if let Some(r) = grp {
            g = g.ext(ty::ROYALTIES, royalties_bytes(if kind == 0 { 500 } else { 0 }, r));
        }
        if kind > 0 {
            b = b.ext(ty::LINKS, b"\x01n\x01u".to_vec());
            g = g.ext(ty::BLOB, b"\x01t123".to_vec());
        }
        put(&mut w, A1, b.bytes());
        put(&mut w, G1, g.bytes());
        // a group without rules, and an imitation
        put(&mut w, G2, Build::new(OWNER, AUTH).ext(ty::GROUPING, gr(0, 0, GDEL)).bytes());
        put_owned(&mut w, FAKEG, Build::new(OWNER, AUTH).ext(ty::GROUPING, gr(1, 0, GDEL)).bytes(), PROG1);
        inits.push((name, w));
    };
    let yes = Rule::Empty;
    let no = Rule::Or(vec![]);
    for owner in [OWNER, VAULT, VAULT2, EMPTYV] {
        for r in rules(thorough) {
            if owner == EMPTYV && !thorough {
                break;
            }
            world(0, format!("own {r:?} owner {}", name(&owner)), Some(&r), Some(&no), owner);
            world(0, format!("group {r:?} owner {}", name(&owner)), None, Some(&r), owner);
        }
        world(0, format!("own no, group yes, owner {}", name(&owner)), Some(&no), Some(&yes), owner);
        world(0, format!("none, owner {}", name(&owner)), None, None, owner);
        for kind in 1..6 {
            let few = [yes.clone(), no.clone(), Rule::Owned(2, vec![PROG1]), Rule::Not(Box::new(Rule::Owned(2, vec![PROG1])))];
            for r in &few {
                world(kind, format!("kind {kind} own {r:?} owner {}", name(&owner)), Some(r), Some(&no), owner);
                world(kind, format!("kind {kind} group {r:?} owner {}", name(&owner)), None, Some(r), owner);
            }
            world(kind, format!("kind {kind} none owner {}", name(&owner)), None, None, owner);
        }
    }
    let mut v: Vec<Tx> = vec![];
    for by in [OWNER, VAULT, VAULT2, EMPTYV, DEL, BOB, MGR] {
        for to in [BOB, VAULT, VAULT2, EMPTYV, OWNER, FRESH] {
            for g in [None, s(G1), s(G2), s(FAKEG), s(BUF)] {
                if g != s(G1) && g.is_some() && (to == EMPTYV || to == FRESH || by == BOB) {
                    continue;
                }
                for h in [1, 2] {
                    v.push(Tx { height: h, ..transfer(A1, by, to, g).into() });
                }
            }
        }
    }
    Scenario {
        name: format!("royalties{}", if thorough { "-deep" } else { "" }),
        tags: P08 | P01 | P09 | P21 | P03,
        inits,
        alphabet: Box::new(move |_| v.clone()),
        depth: 1,
    }
}

/// Setting royalties; rates and the rule of the group changing over time.
pub fn royalty_rates() -> Scenario {
    let mut w = base();
    put_owned(&mut w, VAULT, vec![1; 8], PROG1);
    put(&mut w, A1, Build::new(OWNER, AUTH).bytes());
    put(&mut w, G1, Build::new(OWNER, AUTH).ext(ty::GROUPING, gr(0, 0, GDEL)).bytes());
    let (yes, no) = (Rule::Owned(2, vec![PROG1]), Rule::Not(Box::new(Rule::Owned(2, vec![PROG1]))));
    put(&mut w, BUF, raw_buffer(&[(ty::ROYALTIES, royalties_bytes(10001, &yes))]));
    put(&mut w, BUF2, raw_buffer(&[(ty::ROYALTIES, royalties_bytes(10000, &no))]));
    let mut v = vec![];
    for a in [A1, G1] {
        for bps in [0, 500, 10000, 10001, 65535, 1 << 32, (1 << 32) + 5, u64::MAX] {
            v.push(set_ext(a, AUTH, ty::ROYALTIES, royalties_bytes(bps, &yes)));
        }
        v.push(set_ext(a, AUTH, ty::ROYALTIES, royalties_bytes(1, &no)));
        v.push(set_ext(a, AUTH2, ty::ROYALTIES, royalties_bytes(1, &no)));
        v.push(remove(a, AUTH, ty::ROYALTIES, SINK));
        v.push(update_buf(a, AUTH, BUF));
        v.push(update_buf(a, AUTH, BUF2));
        for len in [0u32, 8, 16] {
            v.push(with_ext(a, AUTH, ExtIn { ty: ty::ROYALTIES as u8, len, data: None }));
        }
        for n in [0usize, 7] {
            v.push(set_ext(a, AUTH, ty::ROYALTIES, royalties_bytes(1, &no)[..n].to_vec()));
        }
    }
    for bps in [10000, 10001] {
        let c = create(FRESH, AUTH, OWNER, s(G1), s(AUTH), plain(0, ext_in(ty::ROYALTIES, royalties_bytes(bps, &yes))));
        v.push(c);
    }
    v.push(group(A1, G1, AUTH));
    v.push(ungroup(A1, G1, AUTH));
    v.push(burn(G1, OWNER, s(SINK), None));
    let mut v = txs(v);
    for (by, to) in [(OWNER, VAULT), (VAULT, OWNER), (OWNER, BOB), (BOB, OWNER), (BOB, VAULT)] {
        for g in [None, s(G1)] {
            v.push(transfer(A1, by, to, g).into());
            v.push(Tx::from(transfer(A1, by, to, g)).cpi());
        }
    }
    Scenario {
        name: "royalty-rates".into(),
        tags: P08 | P13 | P06 | P05 | P01,
        inits: vec![("no rules yet".into(), w)],
        alphabet: Box::new(move |_| v.clone()),
        depth: usize::MAX,
    }
}

pub fn funded(w: &mut World, k: Pubkey, l: u64) {
    w.set(k, Acct::wallet(l));
}

pub fn minimum(n: usize) -> u64 {
    rent(n)
}
