//! Every kind of asset against every instruction by every party, one step deep: the product of the
//! conditions that the deeper scenarios vary one or two at a time.

use crate::{
    explore::{Scenario, Tx},
    keys::*,
    op::*,
    rules::{royalties_bytes, Rule},
    sc_ext::raw_buffer,
    scenarios::*,
    spec::*,
    view::*,
    vm::World,
};
use solana_program::pubkey::Pubkey;

#[derive(Clone)]
struct Kind {
    standard: u8,
    manager: u8,
    locked: bool,
    mutable: bool,
    roles: u8,
    member: bool,
    exts: usize,
    group: usize,
    alias: usize,
    slack: usize,
}

fn creator(k: &Pubkey, verified: u8, share: u8) -> Vec<u8> {
    let mut v = k.to_bytes().to_vec();
    v.extend([verified, share]);
    v
}
fn creators() -> Vec<u8> {
    [creator(&C1, 1, 30), creator(&C2, 0, 70)].concat()
}
/// A blob of `n` bytes.
fn blob(n: usize) -> Vec<u8> {
    let mut v = b"\x01t".to_vec();
    v.resize(n, 7);
    v
}
fn grouping(size: u64, max: u64, d: Pubkey) -> Vec<u8> {
    let mut v = size.to_le_bytes().to_vec();
    v.extend(max.to_le_bytes());
    v.extend(d.to_bytes());
    v
}

fn world(k: &Kind) -> World {
    let mut w = base();
    let deny = royalties_bytes(100, &Rule::Not(Box::new(Rule::Owned(2, vec![PROG1]))));
    put_owned(&mut w, VAULT, vec![1; 8], PROG1);
    // who is who
    let (mut owner, mut auth, mut del, mut mgr, mut gauth, mut gdel) = (OWNER, AUTH, DEL, MGR, AUTH2, GDEL);
    match k.alias {
        1 => auth = OWNER,
        2 => del = AUTH,
        3 => mgr = OWNER,
        4 => mgr = DEL,
        5 => mgr = AUTH,
        6 => gauth = AUTH,
        7 => gdel = AUTH,
        8 => gauth = OWNER,
        9 => owner = C1,
        10 => auth = C2,
        11 => del = OWNER,
        12 => gdel = OWNER,
        _ => (),
    }
    let mut b = Build::new(owner, auth).std(k.standard).mutable(k.mutable).locked(k.locked).slack(k.slack);
    if k.roles != 0 {
        b = b.delegate(del, k.roles);
    }
    if k.member {
        b = b.group(G1);
    }
    if k.exts == 5 {
        b = b.ext(ty::BUCKET, vec![1, 2, 3, 4, 5]);
    }
    if k.exts == 6 {
        b = b.ext(ty::BLOB, blob(4_000));
    }
    if k.exts == 7 {
        b = b.ext(ty::BLOB, blob(70_000));
    }
    if k.standard == MANAGED {
        b = b.ext(ty::MANAGER, manager_bytes(&mgr, k.manager));
    }
    match k.exts {
        1 => b = b.ext(ty::CREATORS, creators()),
        2 | 6 | 7 => b = b.ext(ty::ROYALTIES, deny.clone()).ext(ty::CREATORS, creators()),
        3 => b = b.ext(ty::GROUPING, grouping(0, 5, Pubkey::default())),
        8 => b = b.ext(ty::CREATORS, creators()).ext(ty::BLOB, blob(70_000)),
        4 => b = b.ext(ty::GROUPING, grouping(1, 0, GDEL)).ext(ty::LINKS, b"\x01n\x01u".to_vec()),
        _ => (),
    }
    put(&mut w, A1, b.bytes());
    if k.exts == 4 {
        put(&mut w, A3, Build::new(OWNER, AUTH).group(A1).bytes());
    }
    // the group
    let others = 1 + k.member as u64;
    let mut g = Build::new(OWNER, gauth);
    let mut max = 3;
    match k.group {
        1 => g = g.locked(true),
        2 => g = g.mutable(false),
        3 => max = others,
        4 => g = g.ext(ty::ROYALTIES, royalties_bytes(100, &Rule::Or(vec![]))),
        5 => g = g.ext(ty::ROYALTIES, deny),
        6 => g = g.std(SOULBOUND).delegate(DEL2, 7),
        7 => g = g.std(MANAGED).ext(ty::MANAGER, manager_bytes(&MGR, 7)),
        8 => g = g.ext(ty::LINKS, b"\x01n\x01u".to_vec()).slack(8),
        9 => g = g.ext(ty::BLOB, blob(70_000)).ext(ty::ROYALTIES, deny),
        _ => (),
    }
    g = g.ext(ty::GROUPING, grouping(others, max, gdel));
    put(&mut w, G1, g.bytes());
    put(&mut w, A2, Build::new(BOB, AUTH).group(G1).bytes());
    put(&mut w, G2, Build::new(BOB, AUTH).ext(ty::GROUPING, grouping(0, 0, GDEL)).bytes());
    put(&mut w, BUF, raw_buffer(&[(ty::LINKS, b"\x01m\x02uu".to_vec())]));
    w
}

fn alphabet() -> Vec<Tx> {
    let mut v = vec![];
    let yes = royalties_bytes(5, &Rule::Empty);
    for by in [OWNER, AUTH, DEL, MGR, AUTH2, GDEL, C1, C2, BOB] {
        for g in [None, s(G1)] {
            for to in [BOB, OWNER, VAULT] {
                v.push(transfer(A1, by, to, g));
            }
            v.push(burn(A1, by, s(SINK), g));
        }
        v.push(burn(A1, by, None, s(G1)));
        v.push(burn(A1, by, s(SINK), s(G2)));
        for d in [Deleg::All, Deleg::Some(vec![1]), Deleg::Some(vec![2, 3])] {
            for to in [DEL, DEL2] {
                v.push(approve(A1, by, to, d.clone()));
            }
            v.push(revoke(A1, by, d));
        }
        v.push(lock(A1, by));
        v.push(unlock(A1, by));
        v.push(verify(A1, by, true));
        v.push(verify(A1, by, false));
        for g in [G1, G2, A1] {
            v.push(group(A1, g, by));
            v.push(ungroup(A1, g, by));
        }
        v.push(group(A2, A1, by));
        v.push(ungroup(A3, A1, by));
        v.push(handover(A1, by, BOB));
        v.push(handover(A1, by, BOB).sign(2, false));
        v.push(set_name(A1, by, b"other"));
        v.push(set_mutable(A1, by, false));
        v.push(set_mutable(A1, by, true));
        for (t, d) in [
            (ty::BUCKET, vec![7; 3]),
            (ty::BLOB, b"\x01t123".to_vec()),
            (ty::CREATORS, [creator(&C1, 1, 40), creator(&C2, 0, 60)].concat()),
            (ty::CREATORS, creator(&C2, 0, 100)),
            (ty::CREATORS, [creator(&C1, 1, 40), creator(&C2, 1, 60)].concat()),
            (ty::ROYALTIES, yes.clone()),
            (ty::GROUPING, grouping(0, 2, Pubkey::default())),
            (ty::GROUPING, grouping(1, 1, GDEL)),
            (ty::MANAGER, manager_bytes(&MGR, 7)),
            (ty::MANAGER, manager_bytes(&BOB, 1)),
        ] {
            v.push(set_ext(A1, by, t, d));
        }
        v.push(update_buf(A1, by, BUF));
        for t in [ty::BUCKET, ty::CREATORS, ty::ROYALTIES, ty::GROUPING, ty::MANAGER, ty::LINKS] {
            v.push(remove(A1, by, t, SINK));
        }
        v.push(trim(A1, by, PAYER));
        v.push(extend(A1, by, PAYER, 8));
        v.push(close(A1, by));
        let x = || plain(0, vec![]);
        v.push(create(FRESH, by, OWNER, s(A1), None, x()));
        v.push(create(FRESH, AUTH, OWNER, s(A1), s(by), x()));
    }
    txs(v)
}

pub fn kinds(thorough: bool) -> Scenario {
    let standards = [(0u8, 0u8), (MANAGED, 0), (MANAGED, TRANSFER), (MANAGED, LOCK), (MANAGED, BURN), (MANAGED, 7), (SOULBOUND, 0)];
    let mut all = vec![];
    for (standard, manager) in standards {
        for locked in [false, true] {
            for mutable in [true, false] {
                for roles in [0, 1, 2, 4, 7] {
                    for member in [false, true] {
                        for exts in 0..6 {
                            let full = |group, alias, slack| Kind {
                                standard, manager, locked, mutable, roles, member, exts, group, alias, slack,
                            };
                            for group in 0..9 {
                                for alias in 0..13 {
                                    for slack in [0, 8] {
                                        // how many conditions differ from the ordinary
                                        let odd = [group != 0, alias != 0, slack != 0].iter().filter(|x| **x).count();
                                        let plain = [manager & 3 != 0 && manager != 7, locked, !mutable, roles != 0 && roles != 7, exts != 0]
                                            .iter()
                                            .filter(|x| **x)
                                            .count();
                                        let keep = match odd {
                                            0 => true,
                                            1 => plain <= 1 + thorough as usize * 2,
                                            _ => thorough && odd == 2 && plain <= 1,
                                        };
                                        if keep {
                                            all.push(full(group, alias, slack));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    scenario(format!("kinds{}", if thorough { "-deep" } else { "" }), all)
}

/// The same for accounts of several thousand bytes, and of more than 65 535.
pub fn big_kinds(thorough: bool) -> Scenario {
    let mut all = vec![];
    for (standard, manager) in [(0u8, 0u8), (MANAGED, 7), (SOULBOUND, 0)] {
        for roles in [0, 7] {
            for member in [false, true] {
                for (exts, group) in [(6, 0), (6, 5), (7, 0), (7, 5), (8, 0), (8, 9), (0, 9), (2, 9)] {
                    for locked in [false, true] {
                        if !locked || thorough {
                            all.push(Kind { standard, manager, locked, mutable: true, roles, member, exts, group, alias: 0, slack: 0 });
                        }
                    }
                }
            }
        }
    }
    scenario(format!("big-kinds{}", if thorough { "-deep" } else { "" }), all)
}

fn scenario(name: String, all: Vec<Kind>) -> Scenario {
    let inits = all
        .iter()
        .map(|k| {
            let name = format!(
                "standard {} manager {} locked {} mutable {} roles {} member {} exts {} group {} alias {} slack {}",
                k.standard, k.manager, k.locked, k.mutable, k.roles, k.member, k.exts, k.group, k.alias, k.slack
            );
            (name, world(k))
        })
        .collect();
    let v = alphabet();
    Scenario {
        name,
        tags: P01 | P02 | P03 | P04 | P05 | P06 | P07 | P08 | P10 | P12 | P14,
        inits,
        alphabet: Box::new(move |_| v.clone()),
        depth: 1,
    }
}
