//! Creation shapes, standards, proxied assets, substituted accounts, lamports.

use crate::{
    explore::{Scenario, Tx, Via},
    keys::*,
    op::*,
    proxy::*,
    rules::{royalties_bytes, Rule},
    scenarios::*,
    sc_ext::{content, contents, raw_buffer},
    sc_group::{ext_in, with_ext},
    spec::*,
    view::*,
    vm::{rent, Acct, Meta, World},
};
use solana_program::{pubkey::Pubkey, system_program};

fn gr(size: u64, max: u64, delegate: Pubkey) -> Vec<u8> {
    Grouping { size, max, delegate }.bytes()
}

/// Elements for extension lists of a creation: valid and invalid ones of every type.
fn elements() -> Vec<ExtIn> {
    let mut v = vec![];
    for t in 1..=NTYPES {
        let c = if t == ty::PROXY {
            vec![proxy_ext(&PROG1, &SEED, &C1), proxy_ext(&PROG1, &SEED2, &C1)]
        } else {
            contents(t)
        };
        for d in c.iter().take(2) {
            v.push(ExtIn::full(t as u8, d.clone()));
        }
        let d = c.last().unwrap().clone();
        let n = d.len() as u32;
        v.push(ExtIn { ty: t as u8, len: n, data: None });
        v.push(ExtIn { ty: t as u8, len: n + 1, data: Some(d.clone()) });
        v.push(ExtIn { ty: t as u8, len: n.saturating_sub(1), data: Some(d.clone()) });
        v.push(ExtIn { ty: t as u8, len: 0, data: None });
        v.push(ExtIn { ty: t as u8, len: 0, data: Some(vec![]) });
        let k = d.len().min(7);
        v.push(ExtIn::full(t as u8, d[..k].to_vec()));
    }
    v.push(ExtIn::full(ty::GROUPING as u8, gr(1, 0, GDEL)));
    v.push(ExtIn::full(ty::GROUPING as u8, gr(0, 3, GDEL)[..16].to_vec()));
    v.push(ExtIn::full(ty::ROYALTIES as u8, royalties_bytes(10001, &Rule::Empty)));
    v.push(ExtIn::full(
        ty::CREATORS as u8,
        creators_bytes(&[Creator { key: AUTH, verified: 0, share: 60 }, Creator { key: C1, verified: 1, share: 40 }]),
    ));
    v.push(ExtIn::full(ty::CREATORS as u8, creators_bytes(&[Creator { key: AUTH, verified: 0, share: 99 }])));
    v.push(ExtIn::full(0, vec![1, 2]));
    v.push(ExtIn::full(12, vec![1, 2]));
    v.push(ExtIn { ty: 0, len: 0, data: None });
    v
}

fn valid_elements() -> Vec<ExtIn> {
    (1..=NTYPES)
        .map(|t| {
            let d = if t == ty::PROXY { proxy_ext(&PROG1, &SEED, &C1) } else { contents(t)[1].clone() };
            ExtIn::full(t as u8, d)
        })
        .collect()
}

/// Addresses in every condition.
fn places() -> (World, Vec<Pubkey>) {
    let mut w = base();
    put(&mut w, A1, Build::new(OWNER, AUTH).ext(ty::BUCKET, vec![1, 2, 3]).bytes());
    put(&mut w, A2, Build::new(OWNER, AUTH).bytes());
    put(&mut w, BUF, raw_buffer(&[(ty::BUCKET, vec![4; 9]), (ty::LINKS, content(ty::LINKS, 9, 1).unwrap())]));
    // incomplete buffers: data missing, and header only
    let mut d = raw_buffer(&[(ty::BLOB, content(ty::BLOB, 20, 1).unwrap())]);
    d.truncate(HDR + EXT + 11);
    put(&mut w, BUF2, d);
    let mut d = raw_buffer(&[(ty::BUCKET, vec![6; 8])]);
    d.truncate(HDR + EXT);
    put(&mut w, FAKEB, d);
    // a buffer without extensions
    put(&mut w, A3, vec![0; HDR]);
    put(&mut w, RAW10, vec![0; 10]);
    put(&mut w, RAW200, vec![0; 200]);
    put_owned(&mut w, FAKE, vec![0; HDR], PROG1);
    put_owned(&mut w, EMPTYV, vec![], PROG1);
    w.set(FRESH2, Acct::wallet(5_000_000));
    put(&mut w, G1, Build::new(OWNER, AUTH).ext(ty::GROUPING, gr(0, 1, GDEL)).bytes());
    put(&mut w, G2, Build::new(OWNER, AUTH).ext(ty::GROUPING, gr(0, 1, GDEL)).ext(ty::MANAGER, manager_bytes(&MGR, 1)).std(MANAGED).bytes());
    put(&mut w, A4, Build::new(OWNER, AUTH2).ext(ty::GROUPING, gr(0, 1, GDEL)).bytes());
    (w, vec![FRESH, px(), FRESH2, BUF, BUF2, FAKEB, A3, A1, A2, FAKE, EMPTYV, OWNER, RAW10, RAW200])
}

/// Every shape of a creation, one step.
pub fn creations(thorough: bool) -> Scenario {
    let (w, at) = places();
    let mut v: Vec<Tx> = vec![];
    let el = elements();
    let mut add = |c: Call| v.push(c.into());
    for k in &at {
        for st in 0..=4u8 {
            for e in &el {
                add(create(*k, AUTH, OWNER, None, None, plain(st, vec![e.clone()])));
            }
            add(create(*k, AUTH, OWNER, None, None, plain(st, vec![])));
            add(create(*k, AUTH, OWNER, None, None, plain(st, vec![])).sign(0, false));
        }
        for p in [None, s(OWNER), s(A2)] {
            let mut c = create(*k, AUTH, OWNER, None, None, plain(0, ext_in(ty::ATTRIBUTES, vec![])));
            match p {
                None => {
                    c.metas[5] = Meta { key: ASSET, signer: false, writable: false };
                }
                Some(p) => c.metas[5].key = p,
            }
            add(c.clone());
            c.metas[5].signer = false;
            add(c);
        }
        let names: [&[u8]; 9] = [
            b"",
            b"x",
            b"0123456789012345678901234567890123",
            b"01234567890123456789012345678901234",
            b"012345678901234567890123456789012345",
            "\u{00e9}\u{4e2d}\u{1f600}".as_bytes(),
            b"a\0b",
            b"\xff",
            b"0123456789012345678901234567890123\xc3\xa9",
        ];
        for n in names {
            for m in [true, false] {
                for (auth, owner) in [(AUTH, OWNER), (C1, C1), (*k, *k), (AUTH2, BOB)] {
                    add(create(*k, auth, owner, None, None, CreateIn { name: n.to_vec(), standard: 0, mutable: m, exts: None }));
                    add(create(
                        *k,
                        auth,
                        owner,
                        None,
                        None,
                        CreateIn { name: n.to_vec(), standard: SOULBOUND, mutable: m, exts: Some(vec![]) },
                    ));
                }
            }
        }
        for g in [G1, G2, A4, A2, FAKE, BUF, OWNER] {
            for ga in [None, s(AUTH), s(GDEL), s(OWNER), s(AUTH2)] {
                for auth in [AUTH, AUTH2] {
                    let c = create(*k, auth, OWNER, s(g), ga, plain(0, ext_in(ty::BUCKET, vec![1])));
                    add(c.clone());
                    add(c.clone().sign(4, false));
                    add(c.sign(1, true));
                }
            }
        }
    }
    // lists
    let small: Vec<ExtIn> = if thorough {
        el.clone()
    } else {
        el.iter().enumerate().filter(|(i, _)| i % 3 == 0).map(|x| x.1.clone()).collect()
    };
    for k in [FRESH, px(), BUF] {
        for st in 0..=3u8 {
            for a in &small {
                for b in &small {
                    add(create(k, AUTH, OWNER, None, None, plain(st, vec![a.clone(), b.clone()])));
                }
            }
        }
    }
    let ve = valid_elements();
    for a in &ve {
        for b in &ve {
            for c in &ve {
                let l = vec![a.clone(), b.clone(), c.clone()];
                let has = |t: u32| l.iter().any(|e| e.ty as u32 == t);
                let st = if has(ty::PROXY) {
                    PROXIED
                } else if has(ty::MANAGER) {
                    MANAGED
                } else {
                    0
                };
                add(create(px(), AUTH, OWNER, None, None, plain(st, l.clone())));
                if thorough {
                    for d in &ve {
                        let mut l = l.clone();
                        l.push(d.clone());
                        add(create(px(), C1, OWNER, None, None, plain(st, l)));
                    }
                }
            }
        }
    }
    // all types at once, in rotated orders
    for r in 0..ve.len() {
        let mut l: Vec<ExtIn> = ve.iter().filter(|e| e.ty as u32 != ty::MANAGER).cloned().collect();
        let n = l.len();
        l.rotate_left(r % n);
        add(create(px(), C1, OWNER, None, None, plain(PROXIED, l.clone())));
        l.retain(|e| e.ty as u32 != ty::PROXY);
        add(create(FRESH, C1, OWNER, None, None, plain(0, l.clone())));
        add(create(FRESH, C1, OWNER, None, None, plain(MANAGED, l.clone())));
        l.push(ve[ty::MANAGER as usize - 1].clone());
        add(create(FRESH, C1, OWNER, None, None, plain(MANAGED, l)));
    }
    Scenario {
        name: format!("creations{}", if thorough { "-deep" } else { "" }),
        tags: P22 | P10 | P07 | P06 | P08 | P13 | P12 | P21 | P05 | P20,
        inits: vec![("addresses in every condition".into(), w)],
        alphabet: Box::new(move |_| v.clone()),
        depth: 1,
    }
}

/// Creation of managed and proxied assets and everything that could disturb their extensions.
pub fn standards(depth: usize) -> Scenario {
    let mut w = base();
    let px = px();
    let pe = |seed: &[u8; 32], auth| proxy_ext(&PROG1, seed, &auth);
    put(&mut w, BUF, raw_buffer(&[(ty::MANAGER, manager_bytes(&DEL, 7))]));
    put(&mut w, BUF2, raw_buffer(&[(ty::PROXY, pe(&SEED2, C1))]));
    put(&mut w, FAKEB, raw_buffer(&[(ty::PROXY, pe(&SEED, C2))]));
    let mut v: Vec<Tx> = vec![];
    let man = manager_bytes(&MGR, 7);
    let bump = {
        let mut d = pe(&SEED, C1);
        d[64] = d[64].wrapping_sub(1);
        d
    };
    let other = {
        let mut d = pe(&SEED, C1);
        d[..32].copy_from_slice(PROG2.as_ref());
        d
    };
    let exts: Vec<(u32, Vec<u8>)> = vec![
        (ty::MANAGER, man.clone()),
        (ty::MANAGER, manager_bytes(&MGR, 0)),
        (ty::MANAGER, man[..32].to_vec()),
        (ty::MANAGER, vec![]),
        (ty::PROXY, pe(&SEED, C1)),
        (ty::PROXY, pe(&SEED, C2)),
        (ty::PROXY, pe(&SEED2, C1)),
        (ty::PROXY, pe(&SEED, C1)[..96].to_vec()),
        (ty::PROXY, pe(&SEED, C1)[..65].to_vec()),
        (ty::PROXY, vec![]),
        (ty::PROXY, bump),
        (ty::PROXY, other),
        (ty::BUCKET, vec![1, 2, 3]),
    ];
    for a in [FRESH, px] {
        for st in 0..=3u8 {
            for e in &exts {
                v.push(create(a, AUTH, OWNER, None, None, plain(st, ext_in(e.0, e.1.clone()))).into());
            }
            v.push(create(a, AUTH, OWNER, None, None, plain(st, vec![])).into());
            v.push(create(a, AUTH, OWNER, None, None, plain(st, vec![ExtIn::full(8, man.clone()), ExtIn::full(9, pe(&SEED, C1))])).into());
            v.push(create(a, AUTH, OWNER, None, None, plain(st, vec![ExtIn::full(9, pe(&SEED, C1)), ExtIn::full(11, vec![7; 5])])).into());
        }
        for t in [0u8, 8, 9, 11] {
            let mut c = remove(a, AUTH, t as u32, SINK);
            v.push(c.clone().into());
            c.metas[0].signer = true;
            v.push(c.into());
            for len in [0u32, 33, 97] {
                v.push(with_ext(a, AUTH, ExtIn { ty: t, len, data: None }).sign(0, true).into());
            }
        }
        for e in &exts {
            v.push(set_ext(a, AUTH, e.0, e.1.clone()).sign(0, true).into());
            v.push(set_ext(a, AUTH, e.0, e.1.clone()).into());
            v.push(set_ext(a, AUTH2, e.0, e.1.clone()).sign(0, true).into());
        }
        for b in [BUF, BUF2, FAKEB] {
            v.push(update_buf(a, AUTH, b).sign(0, true).into());
        }
        v.push(set_name(a, AUTH, b"new").sign(0, true).into());
        v.push(set_mutable(a, AUTH, false).sign(0, true).into());
        v.push(trim(a, AUTH, PAYER).sign(0, true).into());
        v.push(burn(a, OWNER, s(SINK), None).sign(0, true).into());
        v.push(allocate(a, ExtIn::full(8, man.clone())).into());
        v.push(allocate(a, ExtIn::full(9, pe(&SEED, C1))).into());
        v.push(write(a, true, vec![9; 33]).into());
        v.push(close(a, SINK).into());
    }
    Scenario {
        name: format!("standards-d{}", if depth == usize::MAX { "all".into() } else { depth.to_string() }),
        tags: P10 | P22 | P11 | P13 | P05 | P04,
        inits: vec![("empty addresses".into(), w)],
        alphabet: Box::new(move |_| v.clone()),
        depth,
    }
}

/// Creation of a proxied asset with every bump, and with every byte of its derivation changed.
pub fn proxy_data() -> Scenario {
    let w = base();
    let good = proxy_ext(&PROG1, &SEED, &C1);
    let mut data = vec![good.clone()];
    for b in 0..=255u8 {
        let mut d = good.clone();
        d[64] = b;
        data.push(d);
        // the same with seeds for which there is an address with this bump
        let seed = (10..=255u8).map(|x| [x; 32]).find(|x| Pubkey::create_program_address(&[x, &[b]], &PROG1).is_ok()).unwrap();
        data.push(proxy_bytes(&PROG1, &seed, b, &C1));
    }
    for i in 0..64 {
        for x in [1u8, 0x80, 0xff] {
            let mut d = good.clone();
            d[i] ^= x;
            data.push(d);
        }
    }
    // all zeroes or ones in one of the parts
    for (a, b) in [(0, 32), (32, 64), (0, 65), (0, 97)] {
        for x in [0u8, 0xff] {
            let mut d = good.clone();
            d[a..b].fill(x);
            data.push(d);
        }
    }
    let mut v: Vec<Tx> = vec![];
    for a in [FRESH, px(), pda(&PROG1, &SEED2).0] {
        for d in &data {
            v.push(create(a, AUTH, OWNER, None, None, plain(PROXIED, ext_in(ty::PROXY, d.clone()))).into());
        }
    }
    Scenario {
        name: "proxy-data".into(),
        tags: P10 | P22 | P11,
        inits: vec![("empty addresses".into(), w)],
        alphabet: Box::new(move |_| v.clone()),
        depth: 1,
    }
}

/// Every instruction on a proxied asset: directly, with and without its signature, and through a
/// forwarding program.
pub fn proxied(kind: u8, depth: usize) -> Scenario {
    let mut w = base();
    w.program(PROG1);
    let px = px();
    // who holds the roles: ordinary parties, or the asset itself
    let me = |k: Pubkey| if kind == 1 { px } else { k };
    let roy = royalties_bytes(100, &Rule::Key(2, vec![BOB, OWNER]));
    put(
        &mut w,
        px,
        Build::new(me(OWNER), me(AUTH))
            .std(PROXIED)
            .delegate(me(DEL), 7)
            .ext(ty::ATTRIBUTES, b"\x01k\x01v".to_vec())
            .ext(ty::PROXY, proxy_ext(&PROG1, &SEED, &C1))
            .ext(ty::CREATORS, creators_bytes(&[Creator { key: me(C1), verified: 0, share: 100 }]))
            .ext(ty::ROYALTIES, roy)
            .bytes(),
    );
    // other assets the proxied one has rights over
    put(&mut w, A1, Build::new(px, px).delegate(px, 7).ext(ty::CREATORS, creators_bytes(&[Creator { key: px, verified: 0, share: 100 }])).bytes());
    put(&mut w, G1, Build::new(OWNER, me(AUTH)).ext(ty::GROUPING, gr(0, 1, if kind == 1 { px } else { GDEL })).bytes());
    // an asset of another program, and accounts that only carry proxy data
    let px2 = pda(&PROG2, &SEED2).0;
    put(&mut w, px2, Build::new(OWNER, AUTH).std(PROXIED).ext(ty::PROXY, proxy_ext(&PROG2, &SEED2, &C1)).bytes());
    put(&mut w, A2, raw_buffer(&[(ty::PROXY, proxy_ext(&PROG1, &SEED, &C1))]));
    put(&mut w, BUF, raw_buffer(&[(ty::BUCKET, vec![1, 2, 3])]));
    put_owned(&mut w, FAKE, Build::new(OWNER, AUTH).std(PROXIED).ext(ty::PROXY, proxy_ext(&PROG1, &SEED, &C1)).bytes(), PROG1);
    let mut v: Vec<Call> = vec![];
    let targets = if kind == 1 { vec![px] } else { vec![px, px2, A2, FAKE, A1] };
    for a in targets.iter().copied() {
        for by in [OWNER, DEL, px] {
            for to in [OWNER, BOB, SINK] {
                v.push(transfer(a, by, to, None));
                v.push(transfer(a, by, to, s(G1)));
            }
            v.push(approve(a, by, DEL, Deleg::All));
            v.push(approve(a, by, px, Deleg::Some(vec![1])));
            v.push(revoke(a, by, Deleg::All));
            v.push(revoke(a, by, Deleg::Some(vec![1])));
            v.push(lock(a, by));
            v.push(unlock(a, by));
            v.push(burn(a, by, s(SINK), s(G1)));
            v.push(burn(a, by, None, None));
        }
        for by in [AUTH, OWNER, px] {
            v.push(set_name(a, by, b"n1"));
            v.push(set_mutable(a, by, true));
            v.push(set_ext(a, by, ty::ATTRIBUTES, b"\x01k\x02vv".to_vec()));
            v.push(update_buf(a, by, BUF));
            v.push(set_ext(a, by, ty::PROXY, proxy_ext(&PROG1, &SEED, &C2)));
            v.push(set_ext(a, by, ty::PROXY, proxy_ext(&PROG1, &SEED2, &C2)));
            v.push(remove(a, by, ty::ATTRIBUTES, SINK));
            v.push(remove(a, by, ty::PROXY, SINK));
            v.push(handover(a, by, AUTH));
            v.push(handover(a, by, px));
            v.push(trim(a, by, PAYER));
            if w.data(&px).len() < 560 {
                v.push(extend(a, by, PAYER, 8));
            }
        }
        for by in [C1, px, BOB] {
            v.push(verify(a, by, true));
            v.push(verify(a, by, false));
        }
        for by in [AUTH, GDEL, px] {
            v.push(group(a, G1, by));
            v.push(ungroup(a, G1, by));
        }
        v.push(close(a, SINK));
        v.push(allocate(a, ExtIn::full(ty::BUCKET as u8, vec![1])));
        v.push(write(a, true, vec![1]));
        v.push(create(a, AUTH, OWNER, None, None, plain(0, vec![])));
    }
    let mut out: Vec<Tx> = vec![];
    for c in v {
        let slots = c.ins.slots();
        // the asset itself never signs on the outside when it goes through a program
        let mut f = c.clone();
        for m in f.metas.iter_mut() {
            if m.key == px {
                m.signer = false;
            }
        }
        out.push(Tx::from(f.clone()).via(Via::Forward));
        // and once for every signature that is missing
        for i in 1..f.metas.len() {
            if f.metas[i].signer && slots[i].1 & S != 0 && f.metas[i].key != PAYER {
                out.push(Tx::from(f.clone().sign(i, false)).via(Via::Forward));
            }
        }
        out.push(c.clone().into());
        let mut d = c.clone();
        d.metas[0].signer = true;
        out.push(Tx::from(d).cpi());
        let mut d = c;
        d.metas[0].signer = false;
        out.push(d.into());
    }
    Scenario {
        name: format!("proxied-{kind}-d{}", if depth == usize::MAX { "all".into() } else { depth.to_string() }),
        tags: P11 | P21 | P10 | P08 | P20 | P03 | P01 | P04 | P07,
        inits: vec![("proxied asset".into(), w)],
        alphabet: Box::new(move |w| {
            let big = w.data(&px).len() > 560;
            out.iter().filter(|t| !(big && matches!(t.call.ins, Ins::Extend(_)))).cloned().collect()
        }),
        depth,
    }
}

pub fn stub() -> Pubkey {
    Pubkey::new_from_array(SEED)
}

pub fn proxy_create(owner: Pubkey, auth: Pubkey, name: &[u8]) -> Call {
    Call::new(Ins::ProxyCreate(name.to_vec()), &[s(pxe()), s(stub()), s(owner), s(auth), s(PAYER), SYS, s(ASSET)])
}

fn with_counter(w: &World, n: i64) -> World {
    // the counter attribute has a fixed width
    let mut w = w.clone();
    let mut a = w.get(&pxe());
    let (old, new) = (format!("{:>12}", 0), format!("{n:>12}"));
    if let Some(i) = a.data.windows(12).position(|x| x == old.as_bytes()) {
        a.data[i..i + 12].copy_from_slice(new.as_bytes());
    }
    w.set(pxe(), a);
    w
}

/// Histories of an asset of the example proxy program.
pub fn example(kind: u8, max_count: i64, depth: usize) -> Scenario {
    let mut w = base();
    w.program(PROXY);
    w.program(PROG1);
    let a = pxe();
    put_owned(&mut w, VAULT, vec![1; 8], PROG1);
    let roy = royalties_bytes(100, &Rule::Key(2, vec![BOB, OWNER]));
    put(&mut w, G1, Build::new(OWNER, a).ext(ty::GROUPING, gr(0, 1, GDEL)).ext(ty::ROYALTIES, roy).bytes());
    put(&mut w, G2, Build::new(OWNER, a).ext(ty::GROUPING, gr(0, 1, GDEL)).bytes());
    put_owned(&mut w, FAKEG, Build::new(OWNER, a).ext(ty::GROUPING, gr(0, 1, GDEL)).bytes(), PROG1);
    let mut inits = vec![("nothing created".to_string(), w.clone())];
    if kind == 1 {
        // long histories, shortened
        crate::vm::init();
        if let Ok(w) = crate::vm::exec(&w, &[proxy_ix(&proxy_create(OWNER, AUTH, b"p"))], 1) {
            for n in [8, 98, 9_998, 99_999_999_998] {
                inits.push((format!("{n} transfers done"), with_counter(&w, n)));
            }
        }
    }
    let mut c = vec![proxy_create(OWNER, AUTH, b"p")];
    if kind == 0 {
        c.push(proxy_create(BOB, AUTH2, b"0123456789012345678901234567890123456"));
        for i in [1, 3, 4] {
            c.push(proxy_create(OWNER, AUTH, b"p").sign(i, false));
        }
        let mut x = proxy_create(OWNER, AUTH, b"p");
        x.metas[1].key = AUTH2;
        c.push(x);
        let mut x = proxy_create(OWNER, AUTH, b"p");
        x.metas[0].key = FRESH;
        c.push(x);
    }
    let mut v: Vec<Tx> = c.into_iter().map(|c| Tx::from(c).via(Via::Proxy)).collect();
    let mut mv: Vec<Tx> = vec![];
    for by in [OWNER, BOB, DEL] {
        let to: &[Pubkey] = if kind == 1 { &[OWNER, BOB] } else { &[OWNER, BOB, VAULT] };
        for to in to {
            for g in [None, s(G1)] {
                if kind == 1 && g.is_some() {
                    continue;
                }
                let mut t = Tx::from(transfer(a, by, *to, g)).via(Via::Proxy);
                t.dt = 1;
                let mut u = t.clone();
                u.call.metas[1].signer = false;
                mv.push(t);
                mv.push(u);
            }
        }
    }
    for g in [G2, FAKEG] {
        for to in [BOB, VAULT] {
            let mut t = Tx::from(transfer(a, OWNER, to, s(g))).via(Via::Proxy);
            t.dt = 1;
            mv.push(t);
        }
    }
    let mut c: Vec<Call> = vec![];
    if kind == 0 {
        for by in [OWNER, BOB, DEL] {
            c.push(approve(a, by, DEL, Deleg::Some(vec![1, 2])));
            c.push(approve(a, by, DEL, Deleg::Some(vec![3])).sign(1, false));
            c.push(revoke(a, by, Deleg::All));
            c.push(lock(a, by));
            c.push(lock(a, by).sign(1, false));
            c.push(unlock(a, by));
            c.push(burn(a, by, s(SINK), s(G1)));
            c.push(burn(a, by, s(SINK), None));
            c.push(burn(a, by, s(SINK), s(G1)).sign(1, false));
        }
        for g in [G1, G2] {
            c.push(group(a, g, GDEL));
            c.push(group(a, g, GDEL).sign(2, false));
            c.push(ungroup(a, g, GDEL));
            c.push(ungroup(a, g, OWNER));
        }
        for by in [AUTH, AUTH2, OWNER, a] {
            for name in [&b"p"[..], b"q"] {
                c.push(set_name(a, by, name));
                c.push(set_name(a, by, name).sign(1, false));
            }
            c.push(set_mutable(a, by, false).sign(1, by != a));
            c.push(set_ext(a, by, ty::BUCKET, vec![1, 2, 3]).sign(1, by != a));
            c.push(set_ext(a, by, ty::PROXY, proxy_ext(&PROXY, &SEED, &OWNER)).sign(1, by != a));
            if by == AUTH {
                // what it already has, and what it does not have, in every type
                for t in 1..=11 {
                    for d in [vec![], vec![1, b'x', 1, b'y'], vec![0; 40]] {
                        c.push(set_ext(a, by, t, d));
                    }
                }
                let mut d = b"\x09transfers\x0c".to_vec();
                d.extend(format!("{:>12}", 7).as_bytes());
                c.push(set_ext(a, by, ty::ATTRIBUTES, d));
            }
            c.push(remove(a, by, ty::ATTRIBUTES, SINK).sign(1, by != a));
            c.push(handover(a, by, AUTH2).sign(1, by != a));
            c.push(extend(a, by, PAYER, 8).sign(1, by != a));
            c.push(update(a, by, UpdateIn { name: Some(b"p".to_vec()), mutable: Some(true), ext: None }).sign(1, by != a));
        }
        for by in [AUTH, C1] {
            c.push(verify(a, by, true));
        }
        c.push(close(a, SINK).sign(0, false));
        c.push(write(a, true, vec![1]).sign(0, false));
    }
    v.extend(c.iter().cloned().map(|c| {
        let mut t = Tx::from(c).via(Via::Proxy);
        for m in t.call.metas.iter_mut() {
            // nobody can sign for the asset from outside
            if m.key == a {
                m.signer = false;
            }
        }
        t
    }));
    // straight to the asset program
    v.extend(c.into_iter().map(|mut c| {
        c.metas[0].signer = false;
        Tx::from(c)
    }));
    let limit = inits.iter().map(|(_, w)| Asset::parse(w.data(&a)).and_then(|a| transfers(&a)).unwrap_or(0)).collect::<Vec<_>>();
    Scenario {
        name: format!("example-proxy-{kind}"),
        tags: P17 | P11 | P20,
        inits,
        alphabet: Box::new(move |w| {
            let n = Asset::parse(w.data(&a)).and_then(|a| transfers(&a)).unwrap_or(0);
            let mut t = v.clone();
            if w.clock - 1000 < 2 * max_count && limit.iter().any(|l| n >= *l && n - l < max_count) {
                t.extend(mv.iter().cloned());
            }
            t
        }),
        depth,
    }
}

/// One world with every kind of account, and one valid call of every instruction.
fn bench() -> (World, Vec<Call>, Vec<Pubkey>) {
    let mut w = base();
    w.program(PROG1);
    let cr = creators_bytes(&[Creator { key: C1, verified: 0, share: 60 }, Creator { key: C2, verified: 1, share: 40 }]);
    let member = || {
        Build::new(OWNER, AUTH)
            .group(G1)
            .delegate(DEL, 7)
            .ext(ty::CREATORS, cr.clone())
            .ext(ty::BUCKET, vec![1, 2, 3])
    };
    put(&mut w, A1, member().bytes());
    put(&mut w, A2, Build::new(OWNER, AUTH).ext(ty::CREATORS, cr.clone()).bytes());
    put(&mut w, A3, Build::new(OWNER, AUTH).locked(true).ext(ty::BUCKET, vec![1, 2, 3]).bytes());
    put(&mut w, A4, Build::new(BOB, AUTH2).bytes());
    let group = || Build::new(OWNER, AUTH).ext(ty::GROUPING, gr(1, 3, GDEL));
    put(&mut w, G1, group().bytes());
    put(&mut w, G2, Build::new(OWNER, AUTH).ext(ty::GROUPING, gr(0, 3, GDEL)).bytes());
    put(&mut w, BUF, raw_buffer(&[(ty::BUCKET, vec![7; 12])]));
    let mut d = raw_buffer(&[(ty::BUCKET, vec![8; 12])]);
    d.truncate(HDR + EXT + 3);
    put(&mut w, BUF2, d);
    // a buffer that holds everything an asset, a group and a managed asset would hold
    put(
        &mut w,
        BUF3,
        raw_buffer(&[
            (ty::CREATORS, cr.clone()),
            (ty::GROUPING, gr(1, 3, GDEL)),
            (ty::MANAGER, manager_bytes(&DEL, 7)),
            (ty::BUCKET, vec![1, 2, 3]),
        ]),
    );
    // imitations of all of them under another program
    put_owned(&mut w, FAKE, member().bytes(), PROG1);
    put_owned(&mut w, FAKEG, group().bytes(), PROG1);
    put_owned(&mut w, FAKEB, raw_buffer(&[(ty::BUCKET, vec![9; 12])]), PROG1);
    // accounts that anyone can make the program own, without the program having seen them
    put(&mut w, RAW10, vec![0; 10]);
    put(&mut w, RAW168, vec![0; HDR]);
    put(&mut w, RAW200, vec![0; 200]);
    put(&mut w, px(), Build::new(OWNER, AUTH).std(PROXIED).ext(ty::PROXY, proxy_ext(&PROG1, &SEED, &C1)).bytes());
    let calls = vec![
        transfer(A1, OWNER, BOB, s(G1)),
        transfer(A1, DEL, BOB, s(G1)),
        transfer(A2, OWNER, BOB, None),
        approve(A1, OWNER, DEL2, Deleg::All),
        revoke(A1, OWNER, Deleg::All),
        revoke(A1, DEL, Deleg::Some(vec![1])),
        lock(A1, DEL),
        unlock(A3, OWNER),
        burn(A1, OWNER, s(SINK), s(G1)),
        burn(A1, DEL, s(SINK), s(G1)),
        burn(A2, OWNER, None, None),
        unlock(A1, DEL),
        verify(A1, C1, true),
        verify(A1, C2, false),
        group_call(A2, G1, AUTH),
        group_call(A2, G1, GDEL),
        ungroup(A1, G1, AUTH),
        ungroup(A1, G1, GDEL),
        handover(A1, AUTH, AUTH2),
        set_name(A1, AUTH, b"n"),
        set_ext(A1, AUTH, ty::BUCKET, vec![5; 20]),
        update_buf(A1, AUTH, BUF),
        remove(A1, AUTH, ty::BUCKET, SINK),
        trim(A1, AUTH, PAYER),
        extend(A1, AUTH, PAYER, 16),
        close(BUF, SINK),
        allocate(BUF, ExtIn::full(ty::LINKS as u8, vec![])),
        allocate(FRESH, ExtIn::full(ty::LINKS as u8, vec![])),
        write(BUF2, false, vec![1, 2]),
        write(BUF2, true, vec![1; 12]),
        create(FRESH, AUTH, OWNER, s(G1), s(AUTH), plain(0, ext_in(ty::BUCKET, vec![1]))),
        create(FRESH, AUTH, OWNER, s(G1), s(GDEL), plain(0, vec![])),
        create(BUF, AUTH, OWNER, None, None, plain(0, vec![])),
    ];
    let pool = vec![
        A1, A2, A3, A4, G1, G2, BUF, BUF2, BUF3, FAKE, FAKEG, FAKEB, RAW10, RAW168, RAW200, px(), OWNER, BOB, DEL, AUTH, AUTH2, GDEL, C1, C2,
        PAYER, SINK, OWNER_TWIN, AUTH_TWIN, FRESH, PROG1, ASSET, system_program::ID, Pubkey::default(),
    ];
    (w, calls, pool)
}

fn group_call(a: Pubkey, g: Pubkey, by: Pubkey) -> Call {
    crate::scenarios::group(a, g, by)
}

/// Lists of accounts that end early or go on.
pub fn account_lists() -> Scenario {
    let (w, calls, pool) = bench();
    let mut v: Vec<Tx> = vec![];
    for c in &calls {
        let n = c.metas.len();
        for k in 0..n {
            let mut x = c.clone();
            x.metas.truncate(k);
            v.push(x.clone().into());
            v.push(Tx::from(x).cpi());
        }
        for k in &pool {
            for (signer, writable) in [(false, false), (true, true), (true, false), (false, true)] {
                if *k == ASSET && (signer || writable) {
                    continue;
                }
                let m = Meta { key: *k, signer, writable };
                let mut x = c.clone();
                x.metas.push(m.clone());
                v.push(x.clone().into());
                v.push(Tx::from(x.clone()).cpi());
                x.metas.push(m.clone());
                x.metas.insert(n, Meta { key: A2, signer: false, writable: false });
                v.push(x.into());
                // more accounts do not make up for a signature that is missing
                for i in 0..n {
                    if c.metas[i].signer && c.metas[i].key != *k {
                        let mut x = c.clone();
                        x.metas[i].signer = false;
                        x.metas.push(m.clone());
                        v.push(x.into());
                    }
                }
                // nor are they taken for those before them
                for i in 0..n {
                    let mut x = c.clone();
                    let own = std::mem::replace(&mut x.metas[i], m.clone());
                    x.metas.push(own);
                    v.push(x.into());
                }
            }
        }
    }
    Scenario {
        name: "account-lists".into(),
        tags: P21 | P01 | P02 | P03 | P04 | P06 | P07 | P08 | P12 | P13 | P14 | P11 | P22,
        inits: vec![("every kind of account".into(), w)],
        alphabet: Box::new(move |_| v.clone()),
        depth: 1,
    }
}

/// Every account of every instruction replaced by every other, and every signature withheld.
pub fn substitutions(pairs: bool) -> Scenario {
    let (w, calls, pool) = bench();
    let few: Vec<Pubkey> = vec![A1, A3, A4, G1, G2, BUF, BUF3, FAKE, FAKEG, FAKEB, RAW10, RAW168, RAW200, OWNER, AUTH, DEL, SINK, PAYER, ASSET, FRESH];
    let mut v: Vec<Tx> = vec![];
    for c in &calls {
        let n = c.metas.len();
        v.push(c.clone().into());
        // signatures and write access, all patterns
        for f in 0..1u32 << n {
            let mut x = c.clone();
            for i in 0..n {
                x.metas[i].signer &= f >> i & 1 == 1;
            }
            v.push(x.into());
            let mut x = c.clone();
            for i in 0..n {
                x.metas[i].writable &= f >> i & 1 == 1;
            }
            v.push(x.into());
        }
        for i in 0..n {
            for k in &pool {
                let mut x = c.clone();
                x.metas[i].key = *k;
                if *k == ASSET {
                    x.metas[i].signer = false;
                    x.metas[i].writable = false;
                }
                v.push(x.clone().into());
                let mut y = x.clone();
                y.metas[i].signer = false;
                v.push(y.into());
                if pairs {
                    for j in i + 1..n {
                        for l in &few {
                            let mut y = x.clone();
                            y.metas[j].key = *l;
                            if *l == ASSET {
                                y.metas[j].signer = false;
                                y.metas[j].writable = false;
                            }
                            v.push(y.clone().into());
                            y.metas[j].signer = false;
                            v.push(y.into());
                        }
                    }
                }
            }
        }
    }
    v.dedup_by(|a, b| a.call == b.call);
    Scenario {
        name: format!("substitutions{}", if pairs { "-pairs" } else { "" }),
        tags: P21 | P01 | P02 | P03 | P04 | P06 | P07 | P08 | P12 | P13 | P14 | P11 | P22 | P05,
        inits: vec![("every kind of account".into(), w)],
        alphabet: Box::new(move |_| v.clone()),
        depth: 1,
    }
}

/// Who pays and who is paid.
pub fn money(depth: usize) -> Scenario {
    let mut inits = vec![];
    for over in [0u64, 1, 300_000, 5_000_000_000] {
        for slack in [0usize, 40] {
            let (mut w, _, _) = bench();
            for k in [A1, BUF, BUF2] {
                let mut a = w.get(&k);
                if k == A1 {
                    a.data.resize(a.data.len() + slack, 0);
                }
                a.lamports = rent(a.data.len()) + over;
                w.set(k, a);
            }
            // exactly what 16 more bytes cost while staying alive, and one less
            w.set(POOR, Acct::wallet(rent(0) + rent(16) - rent(0)));
            w.set(FUNDER, Acct::wallet(rent(0) + rent(16) - rent(0) - 1));
            w.set(FRESH2, Acct::wallet(2_000_000));
            inits.push((format!("{over} lamports above, {slack} bytes spare"), w));
        }
    }
    let payers = [s(PAYER), s(POOR), s(FUNDER), s(OWNER), s(AUTH), s(A1), s(G1), s(FAKE), s(BUF), None, s(PROG1)];
    let mut v: Vec<Tx> = vec![];
    let mut each = |c: Call, i: usize, accs: &[Option<Pubkey>]| {
        for p in accs {
            let mut x = c.clone();
            match p {
                Some(p) => x.metas[i].key = *p,
                None => x.metas[i] = Meta { key: ASSET, signer: false, writable: false },
            }
            v.push(x.clone().into());
            if x.metas[i].signer {
                v.push(x.clone().sign(i, false).into());
                // a payer that also signs elsewhere
                if i > 1 {
                    let mut y = x.clone().sign(i, false);
                    y.metas[i].writable = false;
                    v.push(y.into());
                }
            }
        }
    };
    for n in [2usize, 3, 5, 19, 20, 40] {
        each(set_ext(A1, AUTH, ty::BUCKET, vec![5; n]), 4, &payers);
    }
    each(set_ext(A1, AUTH, ty::BLOB, content(ty::BLOB, 9, 0).unwrap()), 4, &payers);
    each(update_buf(A1, AUTH, BUF), 4, &payers);
    for n in [0u16, 1, 8, 16, 24, 1000] {
        each(extend(A1, AUTH, PAYER, n), 2, &payers);
    }
    each(trim(A1, AUTH, PAYER), 2, &payers);
    each(remove(A1, AUTH, ty::BUCKET, SINK), 3, &[s(SINK), s(OWNER), s(A1), s(A2), s(G1), s(FRESH), s(PROG1), s(FAKE), s(BUF)]);
    each(remove(A1, AUTH, ty::CREATORS, SINK), 3, &[s(SINK), s(A1), s(FRESH)]);
    each(burn(A1, OWNER, s(SINK), s(G1)), 2, &[s(SINK), s(OWNER), s(A1), s(A2), s(G1), s(FRESH), s(PROG1), s(FAKE), s(BUF), None]);
    each(close(BUF, SINK), 1, &[s(SINK), s(OWNER), s(BUF), s(A1), s(FRESH), s(PROG1), s(BUF2)]);
    each(close(BUF2, SINK), 1, &[s(SINK), s(BUF2), s(A1)]);
    for b in [FRESH, FRESH2, BUF, BUF2] {
        for n in [0usize, 1, 16] {
            each(allocate(b, ExtIn::full(ty::BLOB as u8, content(ty::BLOB, n.max(1), 0).unwrap())), 1, &payers);
        }
        each(allocate(b, ExtIn { ty: ty::LINKS as u8, len: 40, data: None }), 1, &payers);
        each(write(b, false, vec![1, 2]), 1, &payers);
        each(write(b, true, vec![1; 12]), 1, &payers);
        each(create(b, AUTH, OWNER, None, None, plain(0, vec![])), 5, &payers);
        each(create(b, AUTH, OWNER, s(G1), s(AUTH), plain(0, ext_in(ty::LINKS, vec![]))), 5, &payers);
    }
    for c in bench().1 {
        v.push(c.into());
    }
    Scenario {
        name: format!("lamports-d{depth}"),
        tags: P12 | P14 | P05 | P13,
        inits,
        alphabet: Box::new(move |_| v.clone()),
        depth,
    }
}

/// Every truncation, extension and one-byte change of the data of every instruction.
pub fn wire() -> Scenario {
    let (w, calls, _) = bench();
    let mut v: Vec<Tx> = vec![];
    for c in &calls {
        let mut t = Tx::from(c.clone());
        t.also = P20;
        v.push(t);
        let d = c.ins.encode();
        let mut send = |d: Vec<u8>, why: &'static str| {
            let ins = match decode(&d) {
                None => Ins::Raw(d, why),
                Some(ins) => {
                    assert!(ins.encode() == d);
                    let need = ins.slots().iter().filter(|x| x.1 & O == 0).count();
                    if c.metas.len() < need {
                        Ins::Raw(d, "accounts are missing")
                    } else if c.metas.len() < ins.slots().len() {
                        return;
                    } else {
                        ins
                    }
                }
            };
            v.push(Call { ins, metas: c.metas.clone() }.into());
        };
        for n in 0..d.len() {
            send(d[..n].to_vec(), "the data is cut off");
        }
        for x in 0..=255u8 {
            let mut e = d.clone();
            e.push(x);
            send(e, "there is data left over");
            for i in 0..d.len() {
                let mut e = d.clone();
                if e[i] != x {
                    e[i] = x;
                    send(e, "the data is no instruction");
                }
            }
        }
        // required accounts left out
        let need = c.ins.slots().iter().rposition(|x| x.1 & O == 0).map_or(0, |x| x + 1);
        for n in 1..need {
            v.push(Call { ins: Ins::Raw(d.clone(), "accounts are missing"), metas: c.metas[..n].to_vec() }.into());
        }
    }
    Scenario {
        name: "wire".into(),
        tags: P20,
        inits: vec![("every kind of account".into(), w)],
        alphabet: Box::new(move |_| v.clone()),
        depth: 1,
    }
}
