//! Extension storage, creators and buffers.

use crate::{
    explore::{Scenario, Tx},
    keys::*,
    op::*,
    rules::{royalties_bytes, Rule},
    scenarios::*,
    spec::*,
    view::*,
    vm::World,
};
use solana_program::pubkey::Pubkey;

fn fill(t: u32, n: usize, v: u8) -> Vec<u8> {
    (0..n).map(|i| 0x21 + ((t as usize * 29 + v as usize * 53 + i * 3) % 90) as u8).collect()
}

/// A valid content of exactly `n` bytes for a free-form type, if there is one.
pub fn content(t: u32, n: usize, v: u8) -> Option<Vec<u8>> {
    let s = |n: usize| {
        let mut o = vec![n as u8];
        o.extend(fill(t, n, v));
        o
    };
    match t {
        ty::BUCKET => Some(fill(t, n, v)),
        ty::BLOB => {
            let ct = (n.checked_sub(1)?).min(2);
            let mut o = s(ct);
            o.extend(fill(t, n - 1 - ct, v));
            Some(o)
        }
        ty::ATTRIBUTES | ty::LINKS => {
            if n == 0 {
                return Some(vec![]);
            }
            let n = n.checked_sub(2)?;
            let mut o = s(n / 2);
            o.extend(s(n - n / 2));
            Some(o)
        }
        ty::METADATA => {
            let n = n.checked_sub(4)?;
            let mut o = s(n / 2);
            o.extend(s(n - n / 2));
            o.extend(s(0));
            o.extend(s(0));
            Some(o)
        }
        ty::PROPERTIES => {
            if n == 0 {
                return Some(vec![]);
            }
            let n = n.checked_sub(4)?;
            let mut o = vec![1, b'p', 0];
            o.extend(s(n));
            Some(o)
        }
        _ => None,
    }
}

/// Some valid contents of any type, of different sizes.
pub fn contents(t: u32) -> Vec<Vec<u8>> {
    match t {
        ty::CREATORS => vec![
            creators_bytes(&[Creator { key: C1, verified: 0, share: 100 }]),
            creators_bytes(&[
                Creator { key: C1, verified: 0, share: 1 },
                Creator { key: C2, verified: 0, share: 99 },
            ]),
            creators_bytes(&[
                Creator { key: C3, verified: 0, share: 30 },
                Creator { key: C1, verified: 0, share: 30 },
                Creator { key: C2, verified: 0, share: 40 },
            ]),
        ],
        ty::GROUPING => vec![
            Grouping { size: 0, max: 0, delegate: Pubkey::default() }.bytes(),
            Grouping { size: 0, max: 7, delegate: GDEL }.bytes(),
        ],
        ty::ROYALTIES => vec![
            royalties_bytes(500, &Rule::Empty),
            royalties_bytes(10000, &Rule::Not(Box::new(Rule::Key(2, vec![BOB])))),
            royalties_bytes(0, &Rule::And(vec![])),
        ],
        ty::MANAGER => vec![manager_bytes(&MGR, 1), manager_bytes(&DEL, 7)],
        ty::BUCKET => [0usize, 5, 8, 17].iter().filter_map(|n| content(t, *n, 0)).collect(),
        t => [4usize, 9, 16, 23].iter().filter_map(|n| content(t, *n, 0)).collect(),
    }
}

/// All orders and sizes of some types, added, replaced, removed, resized, to the fixpoint.
pub fn layouts(types: &[u32], sizes: &[usize], max_slack: usize, ext_by: &[u16], buffers: bool) -> Scenario {
    let mut w = base();
    put(&mut w, A1, Build::new(OWNER, AUTH).bytes());
    let mut v = vec![];
    for t in types {
        for n in sizes {
            if let Some(d) = content(*t, *n, 0) {
                v.push(set_ext(A1, AUTH, *t, d));
            }
        }
        v.push(remove(A1, AUTH, *t, SINK));
    }
    v.push(trim(A1, AUTH, PAYER));
    if buffers {
        // buffers with one complete extension, with and without spare room behind it
        let (t, u) = (types[0], types[1]);
        for (k, t, n, slack) in [(BUF, t, 13usize, 0usize), (BUF2, u, 20, 24)] {
            let mut b = Build::new(Pubkey::default(), Pubkey::default());
            b.a.disc = 0;
            b.a.mutable = 0;
            b.a.name = vec![0; 35];
            put(&mut w, k, b.ext(t, content(t, n, 1).unwrap()).slack(slack).bytes());
            v.push(update_buf(A1, AUTH, k));
        }
    }
    let small: Vec<Tx> = v.iter().cloned().map(Tx::from).collect();
    for n in ext_by {
        v.push(extend(A1, AUTH, PAYER, *n));
    }
    let all: Vec<Tx> = v.into_iter().map(Tx::from).collect();
    let names: Vec<String> = types.iter().map(|t| t.to_string()).collect();
    Scenario {
        name: format!("layouts-{}-{}sizes-slack{max_slack}{}", names.join("."), sizes.len(), if buffers { "-buf" } else { "" }),
        tags: P05 | P04 | P12 | if buffers { P13 } else { 0 },
        inits: vec![("asset without extensions".into(), w)],
        alphabet: Box::new(move |w| match Asset::parse(w.data(&A1)) {
            Some(a) if a.len - a.end < max_slack => all.clone(),
            _ => small.clone(),
        }),
        depth: usize::MAX,
    }
}

fn perms(types: &[u32], k: usize) -> Vec<Vec<u32>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in perms(types, k - 1) {
        for t in types {
            if !p.contains(t) {
                let mut q = p.clone();
                q.push(*t);
                v.push(q);
            }
        }
    }
    v
}

const FREE: [u32; 9] = [
    ty::ATTRIBUTES,
    ty::BLOB,
    ty::CREATORS,
    ty::LINKS,
    ty::METADATA,
    ty::GROUPING,
    ty::ROYALTIES,
    ty::PROPERTIES,
    ty::BUCKET,
];

/// Every type at every position of every list, edited in every way.
pub fn typed(k: usize, depth: usize, managed: bool) -> Scenario {
    let types: Vec<u32> =
        if managed { FREE.iter().copied().chain([ty::MANAGER]).collect() } else { FREE.to_vec() };
    let mut inits = vec![];
    for n in 0..=k {
        for p in perms(&types, n) {
            if managed != p.contains(&ty::MANAGER) {
                continue;
            }
            for slack in [0usize, 24] {
                let mut w = base();
                let mut b = Build::new(OWNER, AUTH).std(if managed { MANAGED } else { 0 }).slack(slack);
                for (i, t) in p.iter().enumerate() {
                    let c = contents(*t);
                    b = b.ext(*t, c[i % c.len()].clone());
                }
                put(&mut w, A1, b.bytes());
                inits.push((format!("{p:?} slack {slack}"), w));
            }
        }
    }
    let mut v = vec![];
    for t in &types {
        for c in contents(*t) {
            v.push(set_ext(A1, AUTH, *t, c));
        }
    }
    for t in 0..=NTYPES {
        v.push(remove(A1, AUTH, t, SINK));
        v.push(update(A1, AUTH, UpdateIn { ext: Some(ExtIn { ty: t as u8, len: 0, data: None }), ..Default::default() }));
        v.push(update(A1, AUTH, UpdateIn { ext: Some(ExtIn { ty: t as u8, len: 5, data: None }), ..Default::default() }));
    }
    v.push(set_ext(A1, AUTH, 12, vec![1]));
    v.push(Call::new(Ins::Remove(12), &[s(A1), s(AUTH), None, s(SINK)]));
    v.push(trim(A1, AUTH, PAYER));
    v.push(extend(A1, AUTH, PAYER, 9));
    Scenario {
        name: format!("typed-{k}{}-d{depth}", if managed { "m" } else { "" }),
        tags: P05 | P04 | P06 | P07 | P08 | P10 | P12 | P19,
        inits,
        alphabet: fixed(v),
        depth,
    }
}

fn cr(l: &[(Pubkey, u8)], flag: u8) -> Vec<u8> {
    creators_bytes(&l.iter().map(|(k, s)| Creator { key: *k, verified: flag, share: *s }).collect::<Vec<_>>())
}

pub fn raw_buffer(exts: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut b = Build::new(Pubkey::default(), Pubkey::default());
    b.a.disc = 0;
    b.a.mutable = 0;
    b.a.name = vec![0; 35];
    for (t, d) in exts {
        b = b.ext(*t, d.clone());
    }
    b.bytes()
}

fn creator_lists(thorough: bool) -> Vec<Vec<(Pubkey, u8)>> {
    let mut v = vec![
        vec![(C1, 100)],
        vec![(AUTH, 100)],
        vec![(C1, 60), (C2, 40)],
        vec![(C2, 100), (C1, 0)],
        vec![(C1, 50), (AUTH, 50)],
        vec![(C1, 34), (C2, 33), (AUTH, 33)],
        vec![(AUTH, 1), (C2, 1), (C1, 98)],
        // the same creator twice
        vec![(C1, 60), (C2, 20), (C1, 20)],
        vec![(AUTH, 50), (AUTH, 50)],
        // not acceptable
        vec![],
        vec![(C1, 99)],
        vec![(C1, 101)],
        vec![(C1, 0)],
        vec![(C1, 100), (C2, 1)],
        vec![(C1, 200), (C2, 156)],
        vec![(C1, 255), (C2, 1), (AUTH, 100)],
        vec![(C1, 255), (C2, 255), (AUTH, 102)],
    ];
    if thorough {
        v.extend([
            vec![(C2, 100)],
            vec![(C1, 40), (C2, 60)],
            vec![(C2, 60), (C1, 40)],
            vec![(AUTH2, 100)],
            vec![(AUTH2, 50), (C1, 50)],
            vec![(C1, 0), (C2, 0), (AUTH, 100)],
            vec![(C3, 100)],
            vec![(C1, 10), (C2, 20), (C3, 30), (AUTH, 40)],
        ]);
    }
    v
}

pub fn creators_scenario(thorough: bool) -> Scenario {
    let mut w = base();
    put(
        &mut w,
        A1,
        Build::new(OWNER, AUTH)
            .ext(ty::BUCKET, vec![1, 2, 3])
            .ext(ty::CREATORS, cr(&[(C1, 60), (C2, 40)], 0))
            .ext(ty::ATTRIBUTES, b"\x01k\x01v".to_vec())
            .bytes(),
    );
    put(&mut w, BUF, raw_buffer(&[(ty::CREATORS, cr(&[(C1, 70), (C2, 30)], 1))]));
    put(&mut w, BUF2, raw_buffer(&[(ty::CREATORS, cr(&[(C1, 200), (C2, 156)], 1))]));
    put(&mut w, FAKEB, raw_buffer(&[(ty::CREATORS, cr(&[(AUTH, 100)], 0))]));
    let mut w2 = w.clone();
    put(&mut w2, A1, Build::new(OWNER, AUTH).ext(ty::BUCKET, vec![1, 2, 3]).bytes());
    let mut v = vec![];
    for l in creator_lists(thorough) {
        for f in [0u8, 1] {
            v.push(set_ext(A1, AUTH, ty::CREATORS, cr(&l, f)));
            for (auth, sign) in [(AUTH, true), (AUTH, false), (C1, false), (AUTH2, true)] {
                v.push(
                    create(FRESH, auth, OWNER, None, None, plain(0, vec![ExtIn::full(ty::CREATORS as u8, cr(&l, f))]))
                        .sign(1, sign),
                );
            }
        }
        v.push(set_ext(A1, AUTH2, ty::CREATORS, cr(&l, 1)));
        v.push(set_ext(A1, AUTH, ty::CREATORS, cr(&l, 1)).sign(1, false));
    }
    v.push(set_ext(A1, AUTH, ty::CREATORS, cr(&[(C1, 100)], 0)[..33].to_vec()));
    v.push(set_ext(A1, AUTH, ty::CREATORS, cr(&[(C1, 100), (C2, 0)], 0)[..67].to_vec()));
    for len in [0u32, 34, 68] {
        v.push(update(A1, AUTH, UpdateIn { ext: Some(ExtIn { ty: ty::CREATORS as u8, len, data: None }), ..Default::default() }));
    }
    for b in [BUF, BUF2, FAKEB] {
        v.push(update_buf(A1, AUTH, b));
        v.push(update_buf(A1, AUTH2, b));
    }
    for a in [A1, FRESH] {
        for c in [C1, C2, C3, AUTH, AUTH2, OWNER] {
            for yes in [true, false] {
                v.push(verify(a, c, yes));
                v.push(verify(a, c, yes).sign(1, false));
            }
        }
    }
    for by in [AUTH, C1, AUTH2] {
        v.push(remove(A1, by, ty::CREATORS, SINK));
        for to in [AUTH, AUTH2] {
            v.push(handover(A1, by, to));
        }
    }
    v.push(burn(FRESH, OWNER, s(SINK), None));
    Scenario {
        name: format!("creators{}", if thorough { "-deep" } else { "" }),
        tags: P07 | P13 | P22 | P05 | P04 | P21,
        inits: vec![("two creators".into(), w), ("none".into(), w2)],
        alphabet: fixed(v),
        depth: if thorough { usize::MAX } else { 5 },
    }
}

/// A buffer filled in every possible way.
pub struct BufferDomain {
    pub types: Vec<(u32, Vec<usize>)>,
    pub chunks: Vec<usize>,
    pub max_exts: usize,
}

pub fn buffers(name: &str, d: BufferDomain, depth: usize) -> Scenario {
    let mut w = base();
    put(&mut w, A1, Build::new(OWNER, AUTH).ext(ty::BUCKET, vec![1, 2, 3]).ext(ty::LINKS, content(ty::LINKS, 9, 1).unwrap()).bytes());
    let goal = |t: u32, n: usize, v: u8| -> Vec<u8> {
        match t {
            ty::CREATORS => cr(&[(C1, 60), (C2, 40)], v)[..n.min(68)].to_vec(),
            ty::MANAGER => manager_bytes(&MGR, 5)[..n.min(33)].to_vec(),
            ty::GROUPING => Grouping { size: v as u64, max: 3, delegate: GDEL }.bytes()[..n.min(48)].to_vec(),
            t => content(t, n, v).unwrap_or_else(|| fill(t, n, v)),
        }
    };
    let fresh = w.data(&A1).to_vec();
    let alphabet = move |w: &World| -> Vec<Tx> {
        let mut v = vec![];
        if w.data(&A1) != fresh {
            // updated from the buffer: what is left is to close it or to do it again
            return txs(vec![close(BUF, SINK), update_buf(A1, AUTH, BUF)]);
        }
        let now = buffer(w.data(&BUF));
        let exts = now.clone().unwrap_or_default();
        // start another extension
        for (t, lens) in &d.types {
            for len in lens {
                let g = goal(*t, *len, 0);
                if exts.len() < d.max_exts {
                    for k in 0..=*len {
                        if k == 0 || k == *len || d.chunks.contains(&k) {
                            v.push(allocate(BUF, ExtIn { ty: *t as u8, len: *len as u32, data: Some(g[..k].to_vec()) }));
                        }
                    }
                    v.push(allocate(BUF, ExtIn { ty: *t as u8, len: *len as u32, data: None }));
                    let mut more = g.clone();
                    more.push(7);
                    v.push(allocate(BUF, ExtIn { ty: *t as u8, len: *len as u32, data: Some(more) }));
                }
            }
        }
        // write to the last one
        if let Some(l) = exts.last() {
            for bad in [0u8, 1] {
                let g = goal(l.ty, l.len, bad);
                let at = l.data.len();
                let mut sizes = d.chunks.clone();
                sizes.extend([0, l.len - at, l.len - at + 1]);
                sizes.sort();
                sizes.dedup();
                for n in &sizes {
                    if bad == 1 && *n < l.len - at {
                        continue;
                    }
                    let mut c: Vec<u8> = g[at.min(g.len())..].to_vec();
                    c.resize(*n, 9);
                    v.push(write(BUF, false, c));
                }
                let mut sizes = d.chunks.clone();
                sizes.extend([0, l.len, l.len + 1]);
                sizes.sort();
                sizes.dedup();
                for n in &sizes {
                    let mut c = g.clone();
                    c.resize(*n, 9);
                    v.push(write(BUF, true, c));
                }
            }
        } else {
            v.push(write(BUF, false, vec![1]));
            v.push(write(BUF, true, vec![]));
        }
        // a creator who pays does not verify by that
        if d.types.iter().any(|(t, _)| *t == ty::CREATORS) {
            for c in [C1, C2] {
                let mut list = cr(&[(C1, 60), (C2, 40)], 0);
                list[if c == C1 { 32 } else { 66 }] = 1;
                let mut x = write(BUF, true, list.clone());
                x.metas[1].key = c;
                v.push(x);
                if exts.is_empty() {
                    let mut x = allocate(BUF, ExtIn::full(ty::CREATORS as u8, list));
                    x.metas[1].key = c;
                    v.push(x);
                }
            }
        }
        v.push(write(BUF, false, vec![1]).sign(0, false));
        v.push(write(BUF, true, vec![1]).sign(1, false));
        v.push(allocate(BUF, ExtIn::full(ty::BUCKET as u8, vec![1])).sign(0, false));
        v.push(allocate(BUF, ExtIn::full(ty::BUCKET as u8, vec![1])).sign(1, false));
        // finish
        for st in [0u8, MANAGED] {
            v.push(create(BUF, AUTH, OWNER, None, None, plain(st, vec![])));
            v.push(create(BUF, C1, OWNER, None, None, plain(st, vec![ExtIn::full(ty::LINKS as u8, content(ty::LINKS, 7, 0).unwrap())])));
        }
        v.push(create(BUF, AUTH, OWNER, None, None, plain(0, vec![ExtIn::full(ty::BUCKET as u8, vec![5; 9])])));
        v.push(create(BUF, AUTH, OWNER, None, None, plain(0, vec![])).sign(0, false));
        v.push(update_buf(A1, AUTH, BUF));
        v.push(update_buf(A1, AUTH2, BUF));
        v.push(close(BUF, SINK));
        v.push(close(BUF, SINK).sign(0, false));
        v.into_iter().map(Tx::from).collect()
    };
    Scenario {
        name: name.into(),
        tags: P13 | P22 | P05 | P07 | P06 | P10 | P12 | P14 | P21,
        inits: vec![("no buffer".into(), w)],
        alphabet: Box::new(alphabet),
        depth,
    }
}
