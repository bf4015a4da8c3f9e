//! Sizes and counts around the limits of the integer types they might be squeezed into.

use crate::{
    explore::{Scenario, Tx},
    keys::*,
    op::*,
    scenarios::*,
    sc_ext::{content, raw_buffer},
    sc_group::ext_in,
    spec::*,
    view::*,
    vm::World,
};
use solana_program::pubkey::Pubkey;

fn gr(size: u64, max: u64, delegate: Pubkey) -> Vec<u8> {
    Grouping { size, max, delegate }.bytes()
}

/// A content of about `n` bytes.
fn sized(t: u32, n: usize) -> Vec<u8> {
    match t {
        ty::BUCKET => content(t, n, 0).unwrap(),
        ty::BLOB => content(t, n.max(1), 0).unwrap(),
        t => {
            let mut d = vec![];
            let mut i = 0u32;
            while d.len() + 6 <= n {
                d.push(4);
                d.extend(format!("{:03x}{}", i % 4096, t % 10).bytes());
                d.push(0);
                i += 1;
            }
            d
        }
    }
}

/// Large extensions before, behind and in place of what is edited.
pub fn big_layouts(depth: usize) -> Scenario {
    let types = [ty::BUCKET, ty::ATTRIBUTES, ty::BLOB];
    let sizes = [6usize, 250, 67_000];
    let mut inits = vec![];
    for a in sizes {
        for b in sizes {
            for c in sizes {
                for slack in [0usize, 264] {
                    let mut w = base();
                    let x = Build::new(OWNER, AUTH)
                        .ext(types[0], sized(types[0], a))
                        .ext(types[1], sized(types[1], b))
                        .ext(types[2], sized(types[2], c))
                        .slack(slack);
                    put(&mut w, A1, x.bytes());
                    put(&mut w, BUF, raw_buffer(&[(ty::ATTRIBUTES, sized(ty::ATTRIBUTES, 3000))]));
                    put(&mut w, BUF2, raw_buffer(&[(ty::LINKS, sized(ty::LINKS, 9000))]));
                    put(&mut w, BUF3, raw_buffer(&[(ty::BUCKET, sized(ty::BUCKET, 66_003))]));
                    put(&mut w, BUF4, raw_buffer(&[(ty::BLOB, sized(ty::BLOB, 70_001))]));
                    inits.push((format!("sizes {a} {b} {c}, spare {slack}"), w));
                }
            }
        }
    }
    let mut v = vec![];
    for t in types {
        for n in [6usize, 258, 9000] {
            v.push(set_ext(A1, AUTH, t, sized(t, n)));
        }
        v.push(remove(A1, AUTH, t, SINK));
    }
    for n in [255u16, 256, 10240, 10241, 65535] {
        v.push(extend(A1, AUTH, PAYER, n));
    }
    v.push(trim(A1, AUTH, PAYER));
    v.push(update_buf(A1, AUTH, BUF));
    v.push(update_buf(A1, AUTH, BUF2));
    v.push(update_buf(A1, AUTH, BUF3));
    v.push(update_buf(A1, AUTH, BUF4));
    Scenario {
        name: format!("big-layouts-d{depth}"),
        tags: P05 | P04 | P12 | P13,
        inits,
        alphabet: fixed(v),
        depth,
    }
}

/// Buffers that are filled beyond the same limits.
pub fn big_buffers(depth: usize) -> Scenario {
    let mut inits = vec![];
    for first in [None, Some(70usize), Some(255), Some(65_300), Some(65_536), Some(70_003)] {
        for len in [3usize, 254, 255, 256, 257, 511, 65_351, 65_352, 65_535, 65_536, 65_537, 70_000] {
            if first.is_some() && len > 257 && len != 65_536 {
                continue;
            }
            for missing in [0usize, 1, 2, 9, 255, 256, 9_000, usize::MAX] {
                if missing != usize::MAX && missing > len {
                    continue;
                }
                let k = len.saturating_sub(missing);
                let mut l: Vec<(u32, Vec<u8>)> = first.iter().map(|n| (ty::ATTRIBUTES, sized(ty::ATTRIBUTES, *n))).collect();
                l.push((ty::BUCKET, sized(ty::BUCKET, len)));
                let mut d = raw_buffer(&l);
                if k < len {
                    let end = d.len() - (align8(len) - len) - (len - k);
                    d.truncate(end);
                }
                let mut w = base();
                put(&mut w, BUF, d);
                let a = Build::new(OWNER, AUTH).ext(ty::BUCKET, sized(ty::BUCKET, len.saturating_sub(500))).ext(ty::LINKS, sized(ty::LINKS, 9));
                put(&mut w, A1, a.bytes());
                inits.push((format!("{k} of {len} bytes behind {first:?}"), w));
            }
        }
    }
    let alphabet = |w: &World| -> Vec<Tx> {
        let mut v = vec![update_buf(A1, AUTH, BUF), close(BUF, SINK), create(BUF, AUTH, OWNER, None, None, plain(0, vec![]))];
        let Some(exts) = crate::spec::buffer(w.data(&BUF)) else { return txs(v) };
        v.push(create(BUF, AUTH, OWNER, None, None, plain(0, vec![ExtIn::full(ty::LINKS as u8, sized(ty::LINKS, 20))])));
        for n in [0usize, 5, 256] {
            v.push(allocate(BUF, ExtIn::full(ty::LINKS as u8, sized(ty::LINKS, n.max(6)))));
            v.push(allocate(BUF, ExtIn { ty: ty::BLOB as u8, len: 65_600, data: Some(sized(ty::BLOB, 65_600)[..n].to_vec()) }));
        }
        if let Some(l) = exts.last() {
            let all = sized(l.ty, l.len);
            let left = l.len - l.data.len();
            for n in [0, 1, 2, 255, 256, 700, left.saturating_sub(1), left, left + 1] {
                if n > 9_001 {
                    continue;
                }
                let mut c: Vec<u8> = all.get(l.data.len()..).unwrap_or(&[]).to_vec();
                c.resize(n, 9);
                v.push(write(BUF, false, c));
            }
            for n in [0, 1, 255, 256, l.len, l.len + 1] {
                if n > 9_001 {
                    continue;
                }
                let mut c = all.clone();
                c.resize(n, 9);
                v.push(write(BUF, true, c));
            }
        }
        txs(v)
    };
    Scenario { name: format!("big-buffers-d{depth}"), tags: P13 | P05 | P22 | P12, inits, alphabet: Box::new(alphabet), depth }
}

/// Groups whose size is close to a limit.
pub fn big_groups() -> Scenario {
    let mut inits = vec![];
    for n in [254u64, 255, 256, 257, 65_535, 65_536, u32::MAX as u64 - 1, u32::MAX as u64, 1 << 32, i64::MAX as u64, u64::MAX - 3] {
        for max in [0u64, n, n + 1, n + 3, u64::MAX] {
            let mut w = base();
            put(&mut w, A1, Build::new(OWNER, AUTH).bytes());
            put(&mut w, A2, Build::new(OWNER, AUTH).group(G1).bytes());
            put(&mut w, G1, Build::new(OWNER, AUTH).ext(ty::GROUPING, gr(n, max, GDEL)).bytes());
            w.elsewhere.insert(G1, n - 1);
            inits.push((format!("{n} of {max}"), w));
        }
    }
    let alphabet = |w: &World| -> Vec<Tx> {
        let g = Asset::parse(w.data(&G1)).and_then(|a| a.grouping());
        let n = g.map_or(0, |g| g.size);
        let mut v = vec![];
        for a in [A1, A2, FRESH] {
            v.push(group(a, G1, GDEL));
            v.push(ungroup(a, G1, AUTH));
            v.push(burn(a, OWNER, s(SINK), s(G1)));
        }
        v.push(create(FRESH, AUTH, OWNER, s(G1), s(AUTH), plain(0, vec![])));
        for max in [0, 1, n & 0xff, n & 0xffff, n & 0xffff_ffff, n - 1, n, n.saturating_add(1), u64::MAX] {
            v.push(set_ext(G1, AUTH, ty::GROUPING, gr(0, max, GDEL)));
            v.push(set_ext(G1, AUTH, ty::GROUPING, gr(n, max, Pubkey::default())[..16].to_vec()));
        }
        v.push(burn(G1, OWNER, s(SINK), None));
        v.push(remove(G1, AUTH, ty::GROUPING, SINK));
        txs(v)
    };
    Scenario {
        name: "big-groups".into(),
        tags: P06 | P14 | P22,
        inits,
        alphabet: Box::new(alphabet),
        depth: 3,
    }
}

fn ck(i: usize) -> Pubkey {
    let mut b = [0x33; 32];
    b[30] = (i >> 8) as u8;
    b[31] = i as u8;
    Pubkey::new_from_array(b)
}

/// `n` creators; the shares are with the first, or with the last of them.
fn many(n: usize, last: bool, flag: u8) -> Vec<u8> {
    let l: Vec<Creator> = (0..n)
        .map(|i| {
            let r = if last { n - 1 - i } else { i };
            let share = if n <= 100 { 100 / n + (r < 100 % n) as usize } else { (r < 100) as usize };
            Creator { key: ck(i), verified: flag, share: share as u8 }
        })
        .collect();
    creators_bytes(&l)
}

/// Long lists of creators.
pub fn big_creators(depth: usize) -> Scenario {
    let counts = [7usize, 100, 255, 256, 257, 290];
    let mut inits = vec![];
    for n in counts {
        for last in [false, true] {
            let mut w = base();
            put(&mut w, A1, Build::new(OWNER, AUTH).ext(ty::CREATORS, many(n, last, 0)).ext(ty::BUCKET, vec![1, 2, 3]).bytes());
            put(&mut w, BUF, raw_buffer(&[(ty::CREATORS, many(n, !last, 1))]));
            inits.push((format!("{n} creators, last {last}"), w));
        }
    }
    let alphabet = move |w: &World| -> Vec<Tx> {
        let n = Asset::parse(w.data(&A1)).and_then(|a| a.creators()).map_or(0, |l| l.len());
        let mut v = vec![];
        for i in [0, 1, 100, 254, 255, 256, n.saturating_sub(1), n] {
            v.push(verify(A1, ck(i), true));
            v.push(verify(A1, ck(i), false));
        }
        for m in [1, 7, 255, 256, n.saturating_sub(1), n, n + 1] {
            if m > 0 && m <= 290 {
                v.push(set_ext(A1, AUTH, ty::CREATORS, many(m, true, 1)));
                let mut bad = many(m, false, 0);
                bad[33] = bad[33].wrapping_add(156);
                v.push(set_ext(A1, AUTH, ty::CREATORS, bad));
                let mut bad = many(m, false, 0);
                let k = bad.len() - 1;
                bad[k] += 1;
                v.push(set_ext(A1, AUTH, ty::CREATORS, bad));
            }
        }
        v.push(update_buf(A1, AUTH, BUF));
        for (auth, m) in [(AUTH, 255), (ck(254), 255), (ck(255), 256), (ck(256), 257)] {
            v.push(create(FRESH, auth, OWNER, None, None, plain(0, ext_in(ty::CREATORS, many(m, false, 1)))));
        }
        v.push(create(BUF, ck(255), OWNER, None, None, plain(0, vec![])));
        txs(v)
    };
    Scenario {
        name: format!("big-creators-d{depth}"),
        tags: P07 | P22 | P13 | P05,
        inits,
        alphabet: Box::new(alphabet),
        depth,
    }
}

/// Names of every length.
pub fn names() -> Scenario {
    let mut w = base();
    put(&mut w, A1, Build::new(OWNER, AUTH).ext(ty::BUCKET, vec![1, 2, 3]).bytes());
    put(&mut w, BUF, raw_buffer(&[(ty::BUCKET, vec![4; 9])]));
    let mut v = vec![];
    for n in (0..=40usize).chain([127, 128, 255, 256, 300]) {
        for c in ["a", "\u{e9}", "\u{20ac}", "\u{1f600}"] {
            let mut name = c.repeat(n / c.len());
            while name.len() < n {
                name.insert(0, 'x');
            }
            for m in [true, false] {
                let x = CreateIn { name: name.clone().into_bytes(), standard: 0, mutable: m, exts: None };
                v.push(create(FRESH, AUTH, OWNER, None, None, x.clone()));
                v.push(create(BUF, AUTH, OWNER, None, None, x));
            }
            v.push(set_name(A1, AUTH, name.as_bytes()));
            v.push(set_name(FRESH, AUTH, name.as_bytes()));
        }
    }
    Scenario {
        name: "names".into(),
        tags: P22 | P04 | P20,
        inits: vec![("an asset and a buffer".into(), w)],
        alphabet: fixed(v),
        depth: 1,
    }
}
