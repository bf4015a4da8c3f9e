//! The explored worlds and alphabets.

use crate::{
    explore::{Scenario, Tx},
    keys::*,
    op::*,
    spec::*,
    view::*,
    vm::{rent, Acct, World},
};
use solana_program::{pubkey::Pubkey, system_program};

pub const RICH: u64 = 50_000_000_000;

pub fn base() -> World {
    let mut w = World { clock: 1000, ..Default::default() };
    w.program(ASSET);
    w.program(system_program::ID);
    for k in [OWNER, BOB, DEL, DEL2, MGR, AUTH, AUTH2, GDEL, C1, C2, C3, PAYER, SINK, OWNER_TWIN, AUTH_TWIN] {
        w.set(k, Acct::wallet(RICH));
    }
    w
}

pub fn put(w: &mut World, k: Pubkey, d: Vec<u8>) {
    put_owned(w, k, d, ASSET)
}
pub fn put_owned(w: &mut World, k: Pubkey, d: Vec<u8>, owner: Pubkey) {
    w.set(k, Acct { lamports: rent(d.len()), owner, data: d, exec: false });
}

pub fn s(k: Pubkey) -> Option<Pubkey> {
    Some(k)
}
pub const SYS: Option<Pubkey> = Some(system_program::ID);

pub fn transfer(a: Pubkey, by: Pubkey, to: Pubkey, g: Option<Pubkey>) -> Call {
    Call::new(Ins::Transfer, &[s(a), s(by), s(to), g])
}
pub fn approve(a: Pubkey, by: Pubkey, to: Pubkey, d: Deleg) -> Call {
    Call::new(Ins::Approve(d), &[s(a), s(by), s(to)])
}
pub fn revoke(a: Pubkey, by: Pubkey, d: Deleg) -> Call {
    Call::new(Ins::Revoke(d), &[s(a), s(by)])
}
pub fn lock(a: Pubkey, by: Pubkey) -> Call {
    Call::new(Ins::Lock, &[s(a), s(by)])
}
pub fn unlock(a: Pubkey, by: Pubkey) -> Call {
    Call::new(Ins::Unlock, &[s(a), s(by)])
}
pub fn burn(a: Pubkey, by: Pubkey, to: Option<Pubkey>, g: Option<Pubkey>) -> Call {
    Call::new(Ins::Burn, &[s(a), s(by), to, g])
}
pub fn close(b: Pubkey, to: Pubkey) -> Call {
    Call::new(Ins::Close, &[s(b), s(to)])
}
pub fn handover(a: Pubkey, by: Pubkey, to: Pubkey) -> Call {
    Call::new(Ins::Handover, &[s(a), s(by), s(to)])
}
pub fn verify(a: Pubkey, c: Pubkey, yes: bool) -> Call {
    Call::new(if yes { Ins::Verify } else { Ins::Unverify }, &[s(a), s(c)])
}
pub fn group(a: Pubkey, g: Pubkey, by: Pubkey) -> Call {
    Call::new(Ins::Group, &[s(a), s(g), s(by)])
}
pub fn ungroup(a: Pubkey, g: Pubkey, by: Pubkey) -> Call {
    Call::new(Ins::Ungroup, &[s(a), s(g), s(by)])
}
pub fn remove(a: Pubkey, by: Pubkey, t: u32, to: Pubkey) -> Call {
    Call::new(Ins::Remove(t as u8), &[s(a), s(by), None, s(to)])
}
pub fn trim(a: Pubkey, by: Pubkey, payer: Pubkey) -> Call {
    Call::new(Ins::Trim, &[s(a), s(by), s(payer), SYS])
}
pub fn extend(a: Pubkey, by: Pubkey, payer: Pubkey, n: u16) -> Call {
    Call::new(Ins::Extend(n), &[s(a), s(by), s(payer), SYS])
}
pub fn update(a: Pubkey, by: Pubkey, u: UpdateIn) -> Call {
    Call::new(Ins::Update(u), &[s(a), s(by), None, None, s(PAYER), SYS])
}
pub fn update_buf(a: Pubkey, by: Pubkey, b: Pubkey) -> Call {
    Call::new(Ins::Update(UpdateIn::default()), &[s(a), s(by), s(b), None, s(PAYER), SYS])
}
pub fn set_ext(a: Pubkey, by: Pubkey, t: u32, d: Vec<u8>) -> Call {
    update(a, by, UpdateIn { ext: Some(ExtIn::full(t as u8, d)), ..Default::default() })
}
pub fn set_name(a: Pubkey, by: Pubkey, n: &[u8]) -> Call {
    update(a, by, UpdateIn { name: Some(n.to_vec()), ..Default::default() })
}
pub fn set_mutable(a: Pubkey, by: Pubkey, m: bool) -> Call {
    update(a, by, UpdateIn { mutable: Some(m), ..Default::default() })
}
pub fn create(a: Pubkey, auth: Pubkey, owner: Pubkey, g: Option<Pubkey>, ga: Option<Pubkey>, x: CreateIn) -> Call {
    Call::new(Ins::Create(x), &[s(a), s(auth), s(owner), g, ga, s(PAYER), SYS])
}
pub fn plain(standard: u8, exts: Vec<ExtIn>) -> CreateIn {
    CreateIn {
        name: b"new".to_vec(),
        standard,
        mutable: true,
        exts: if exts.is_empty() { None } else { Some(exts) },
    }
}
pub fn allocate(b: Pubkey, e: ExtIn) -> Call {
    Call::new(Ins::Allocate(e), &[s(b), s(PAYER), SYS])
}
pub fn write(b: Pubkey, overwrite: bool, bytes: Vec<u8>) -> Call {
    Call::new(Ins::Write { overwrite, bytes }, &[s(b), s(PAYER), SYS])
}

pub fn txs(v: Vec<Call>) -> Vec<Tx> {
    v.into_iter().map(Tx::from).collect()
}
pub fn fixed(v: Vec<Call>) -> crate::explore::Alphabet {
    let v = txs(v);
    Box::new(move |_| v.clone())
}

fn roles_sets(thorough: bool) -> Vec<Deleg> {
    let mut v = vec![
        Deleg::All,
        Deleg::Some(vec![1]),
        Deleg::Some(vec![2]),
        Deleg::Some(vec![3]),
        Deleg::Some(vec![]),
        Deleg::Some(vec![1, 3]),
    ];
    if thorough {
        v.extend([
            Deleg::Some(vec![2, 1]),
            Deleg::Some(vec![3, 2]),
            Deleg::Some(vec![1, 2, 3]),
            Deleg::Some(vec![2, 2]),
        ]);
    }
    v
}

/// Owner / delegate / manager powers over one asset, until no new state appears.
pub fn custody(standard: u8, mgr_roles: u8, thorough: bool) -> Scenario {
    let mut w = base();
    let mut b = Build::new(OWNER, AUTH).std(standard).ext(ty::BLOB, b"\x01tabc".to_vec());
    if standard == MANAGED {
        b = b.ext(ty::MANAGER, manager_bytes(&MGR, mgr_roles));
    }
    b = b.ext(ty::ATTRIBUTES, b"\x01k\x01v".to_vec());
    put(&mut w, A1, b.bytes());
    // the same asset in other hands, to see that nothing spills over
    put(&mut w, A2, Build::new(BOB, AUTH2).delegate(DEL2, 7).bytes());
    let who = [OWNER, BOB, DEL, DEL2, MGR, AUTH, OWNER_TWIN];
    let mut v = vec![];
    for by in who {
        for to in [OWNER, BOB, DEL] {
            v.push(transfer(A1, by, to, None));
        }
        for d in roles_sets(thorough) {
            for to in [DEL, DEL2, OWNER] {
                v.push(approve(A1, by, to, d.clone()));
            }
            v.push(revoke(A1, by, d));
        }
        v.push(lock(A1, by));
        v.push(unlock(A1, by));
        v.push(burn(A1, by, None, None));
        v.push(burn(A1, by, s(SINK), None));
    }
    for by in [OWNER, BOB, DEL, MGR] {
        v.push(transfer(A1, by, BOB, None).sign(1, false));
        v.push(transfer(A1, by, OWNER, None).sign(1, false));
        v.push(approve(A1, by, DEL, Deleg::All).sign(1, false));
        v.push(revoke(A1, by, Deleg::All).sign(1, false));
        v.push(revoke(A1, by, Deleg::Some(vec![1])).sign(1, false));
        v.push(lock(A1, by).sign(1, false));
        v.push(unlock(A1, by).sign(1, false));
        v.push(burn(A1, by, s(SINK), None).sign(1, false));
    }
    // edits and others that have no business with custody
    for by in [OWNER, DEL, MGR, AUTH] {
        v.push(close(A1, by));
        v.push(close(A1, by).sign(0, false));
        v.push(set_name(A1, by, b"asset"));
        v.push(set_ext(A1, by, ty::BLOB, b"\x01tabc".to_vec()));
        v.push(trim(A1, by, PAYER));
        v.push(update(A1, by, UpdateIn { mutable: Some(true), ..Default::default() }));
        if standard == MANAGED {
            // the authority may hand the manager other roles
            v.push(set_ext(A1, by, ty::MANAGER, manager_bytes(&MGR, mgr_roles)));
        }
    }
    Scenario {
        name: format!("custody-s{standard}-m{mgr_roles}"),
        tags: P01 | P02 | P03 | P04 | P12 | P14 | P10,
        inits: vec![("fresh asset".into(), w)],
        alphabet: fixed(v),
        depth: usize::MAX,
    }
}

/// Every list of up to `n` roles, repetitions and the empty role included, against every set of
/// roles already given.
pub fn role_lists(n: usize) -> Scenario {
    let mut lists: Vec<Vec<u8>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = lists.len();
        for i in from..to {
            for r in 0..4 {
                let mut l = lists[i].clone();
                l.push(r);
                lists.push(l);
            }
        }
        from = to;
    }
    let mut inits = vec![];
    for roles in 0..8u8 {
        for (standard, mgr) in [(0, None), (MANAGED, Some(5u8))] {
            let mut w = base();
            let mut b = Build::new(OWNER, AUTH).std(standard);
            if roles != 0 {
                b = b.delegate(DEL, roles);
            }
            if let Some(m) = mgr {
                b = b.ext(ty::MANAGER, manager_bytes(&MGR, m));
            }
            put(&mut w, A1, b.bytes());
            inits.push((format!("standard {standard}, roles {roles}"), w));
        }
    }
    let mut v = vec![];
    for l in lists {
        let d = Deleg::Some(l);
        for to in [DEL, DEL2] {
            v.push(approve(A1, OWNER, to, d.clone()));
        }
        v.push(approve(A1, DEL, DEL, d.clone()));
        for by in [OWNER, DEL, DEL2, MGR] {
            v.push(revoke(A1, by, d.clone()));
        }
    }
    Scenario { name: "role-lists".into(), tags: P03 | P10, inits, alphabet: fixed(v), depth: 1 }
}

/// Authority powers: name, flag, handover, extension edits, resize; two assets share keys.
pub fn edits() -> Scenario {
    let mut w = base();
    put(&mut w, A1, Build::new(OWNER, AUTH).ext(ty::BUCKET, vec![1, 2, 3]).bytes());
    let who = [AUTH, AUTH2, OWNER, AUTH_TWIN];
    let long: Vec<u8> = (0..36).map(|i| b'a' + (i % 26)).collect();
    let mut v = vec![];
    for by in who {
        for n in [&b""[..], b"n1", &long[..35], &long[..36], "\u{00e9}t\u{00e9}".as_bytes()] {
            v.push(set_name(A1, by, n));
        }
        v.push(set_name(A1, by, &[0xff, 0xfe]));
        for m in [true, false] {
            v.push(set_mutable(A1, by, m));
            v.push(update(A1, by, UpdateIn { name: Some(b"both".to_vec()), mutable: Some(m), ext: None }));
            v.push(update(
                A1,
                by,
                UpdateIn {
                    name: Some(b"all".to_vec()),
                    mutable: Some(m),
                    ext: Some(ExtIn::full(ty::BUCKET as u8, vec![9; 11])),
                },
            ));
        }
        v.push(update(A1, by, UpdateIn::default()));
        v.push(set_ext(A1, by, ty::BUCKET, vec![4, 5]));
        v.push(remove(A1, by, ty::BUCKET, SINK));
        v.push(trim(A1, by, PAYER));
        v.push(extend(A1, by, PAYER, 8));
        v.push(set_name(A1, by, b"n2").sign(1, false));
        v.push(set_mutable(A1, by, true).sign(1, false));
        v.push(set_ext(A1, by, ty::BUCKET, vec![4, 5, 6]).sign(1, false));
        v.push(remove(A1, by, ty::BUCKET, SINK).sign(1, false));
        v.push(extend(A1, by, PAYER, 8).sign(1, false));
        v.push(trim(A1, by, PAYER).sign(1, false));
        for to in [AUTH, AUTH2, OWNER] {
            v.push(handover(A1, by, to));
            v.push(handover(A1, by, to).sign(1, false));
            v.push(handover(A1, by, to).sign(2, false));
        }
    }
    v.push(transfer(A1, OWNER, BOB, None));
    v.push(lock(A1, OWNER));
    v.push(unlock(A1, OWNER));
    let alpha = txs(v);
    let small: Vec<Tx> = alpha.iter().filter(|t| !matches!(t.call.ins, Ins::Extend(_))).cloned().collect();
    Scenario {
        name: "edits".into(),
        tags: P04 | P05 | P01 | P02 | P12,
        inits: vec![("mutable asset".into(), w)],
        alphabet: Box::new(move |w| if w.data(&A1).len() > 216 { small.clone() } else { alpha.clone() }),
        depth: usize::MAX,
    }
}
