//! The bridge between tokens and assets: the real program, with a stand-in for the token
//! metadata program that moves tokens under that program's rules.

use crate::{
    explore::{digest, threads, unwatch, watch_note, Found, Note, Stats},
    judge::{cmp_asset, short, Bad},
    keys::*,
    op::{Call, Deleg, Ins, ASSET},
    pure::{enumerate, Tally},
    scenarios::*,
    spec::*,
    view::{self, *},
    vm::{exec, register, rent, Acct, Ix, Meta, Prog, World},
};
use borsh::BorshSerialize;
use mpl_token_metadata::{
    accounts::Metadata,
    types::{Collection, CollectionDetails, Creator, Key, TokenStandard},
    ID as TM,
};
use solana_program::{pubkey, pubkey::Pubkey, system_program};
use std::{
    collections::HashSet,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicUsize, Ordering::*},
        Mutex, OnceLock,
    },
};

pub const BRIDGE: Pubkey = bridge_program::ID;
const SPL: Pubkey = pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
const SPL22: Pubkey = pubkey!("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
const ATA: Pubkey = pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
const SYSVAR: Pubkey = pubkey!("Sysvar1nstructions1111111111111111111111111");
const RULES: Pubkey = pubkey!("auth9SigNpDKz4sJJ1DfCTuZrZNSAgh9sFD3rboVmgg");

/// The programs of the bridge instruction, from the eleventh account on.
pub const PROGRAMS: [Pubkey; 6] = [ASSET, TM, system_program::ID, SYSVAR, SPL, ATA];

const USERS: [Pubkey; 2] = [OWNER, BOB];

/// The accounts around one mint.
#[derive(Clone, Debug)]
pub struct Cast {
    pub mint: Pubkey,
    pub pnft: bool,
    pub metadata: Pubkey,
    pub edition: Pubkey,
    pub vault: Pubkey,
    pub vault_bump: u8,
    pub asset: Pubkey,
    pub asset_bump: u8,
    /// (holder, associated token account, token record); the vault comes last
    pub homes: Vec<(Pubkey, Pubkey, Pubkey)>,
}

fn ata(holder: &Pubkey, mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[holder.as_ref(), SPL.as_ref(), mint.as_ref()], &ATA).0
}
fn record(mint: &Pubkey, token: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"metadata", TM.as_ref(), mint.as_ref(), b"token_record", token.as_ref()], &TM).0
}

impl Cast {
    fn new(mint: Pubkey, pnft: bool) -> Cast {
        let (vault, vault_bump) = Pubkey::find_program_address(&[b"vault", mint.as_ref()], &BRIDGE);
        let (asset, asset_bump) = Pubkey::find_program_address(&[b"asset", mint.as_ref()], &BRIDGE);
        let home = |h: Pubkey| {
            let t = ata(&h, &mint);
            (h, t, record(&mint, &t))
        };
        Cast {
            mint,
            pnft,
            metadata: Metadata::find_pda(&mint).0,
            edition: Pubkey::find_program_address(&[b"metadata", TM.as_ref(), mint.as_ref(), b"edition"], &TM).0,
            vault,
            vault_bump,
            asset,
            asset_bump,
            homes: USERS.iter().chain([&DEL, &vault]).map(|h| home(*h)).collect(),
        }
    }
    fn home(&self, h: &Pubkey) -> &(Pubkey, Pubkey, Pubkey) {
        self.homes.iter().find(|x| x.0 == *h).unwrap()
    }
}

/// Two mints, the second programmable; a collection; a mint that was never bridged.
fn casts() -> &'static [Cast; 4] {
    static C: OnceLock<[Cast; 4]> = OnceLock::new();
    C.get_or_init(|| {
        let k = |n: u8| {
            let mut b = [0x6d; 32];
            b[31] = n;
            Pubkey::new_from_array(b)
        };
        [Cast::new(k(1), false), Cast::new(k(2), true), Cast::new(k(3), false), Cast::new(k(4), false)]
    })
}

fn label(k: &Pubkey) -> String {
    for (i, c) in casts().iter().enumerate() {
        for (n, x) in [("mint", c.mint), ("metadata", c.metadata), ("edition", c.edition), ("vault", c.vault), ("asset", c.asset)] {
            if x == *k {
                return format!("{n}{i}");
            }
        }
        for h in &c.homes {
            let who = if h.0 == c.vault { "vault".into() } else { short(&h.0) };
            if h.1 == *k {
                return format!("token{i}:{who}");
            }
            if h.2 == *k {
                return format!("record{i}:{who}");
            }
        }
    }
    for (n, x) in [("bridge-program", BRIDGE), ("metadata-program", TM), ("spl-token", SPL), ("spl-ata", ATA), ("system", system_program::ID), ("sysvar", SYSVAR), ("auth-rules", RULES)] {
        if x == *k {
            return n.into();
        }
    }
    short(k)
}

// ---- tokens -----------------------------------------------------------------------------------

fn token_bytes(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    let mut d = vec![0; 165];
    d[..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    d
}

/// (mint, holder, amount)
fn token(w: &World, k: &Pubkey) -> Option<(Pubkey, Pubkey, u64)> {
    let a = w.accts.get(k)?;
    if (a.owner != SPL && a.owner != SPL22) || a.data.len() != 165 {
        return None;
    }
    let p = |o: usize| Pubkey::try_from(&a.data[o..o + 32]).unwrap();
    Some((p(0), p(32), u64_at(&a.data, 64)))
}

fn is_pnft(w: &World, c: &Cast) -> bool {
    Metadata::from_bytes(w.data(&c.metadata)).ok().and_then(|m| m.token_standard) == Some(TokenStandard::ProgrammableNonFungible)
}

/// What the token metadata program does with a transfer of one token (or why it refuses).
#[allow(clippy::too_many_arguments)]
fn move_token(
    w: &mut World, src: &Pubkey, src_owner: &Pubkey, dst: &Pubkey, dst_owner: &Pubkey, mint: &Pubkey, metadata: &Pubkey,
    records: (Option<Pubkey>, Option<Pubkey>), payer: &Pubkey, amount: u64,
) -> Result<(), &'static str> {
    let Some(c) = casts().iter().find(|c| c.mint == *mint) else { return Err("unknown mint") };
    if *metadata != c.metadata || w.owner(metadata) != TM {
        return Err("metadata");
    }
    if ![SPL, SPL22].contains(&w.owner(mint)) {
        return Err("mint");
    }
    let Some((m, o, n)) = token(w, src) else { return Err("source is no token account") };
    if m != *mint || o != *src_owner || n < amount || amount == 0 {
        return Err("source token");
    }
    if is_pnft(w, c) {
        if records.0 != Some(record(mint, src)) || records.1 != Some(record(mint, dst)) {
            return Err("token record");
        }
        if w.owner(&records.0.unwrap()) != TM {
            return Err("source has no record");
        }
    }
    if w.accts.get(dst).is_none() {
        if *dst != ata(dst_owner, mint) {
            return Err("not the associated account");
        }
        pay(w, payer, rent(165))?;
        put_owned(w, *dst, token_bytes(mint, dst_owner, 0), SPL);
    }
    let Some((m, o, _)) = token(w, dst) else { return Err("destination is no token account") };
    if m != *mint || o != *dst_owner {
        return Err("destination token");
    }
    if is_pnft(w, c) && w.accts.get(&record(mint, dst)).is_none() {
        pay(w, payer, rent(80))?;
        put_owned(w, record(mint, dst), vec![11; 80], TM);
    }
    for (k, up) in [(src, false), (dst, true)] {
        let mut a = w.get(k);
        let n = u64_at(&a.data, 64);
        let n = if up { n + amount } else { n - amount };
        a.data[64..72].copy_from_slice(&n.to_le_bytes());
        w.set(*k, a);
    }
    Ok(())
}

fn pay(w: &mut World, k: &Pubkey, n: u64) -> Result<(), &'static str> {
    let mut a = w.get(k);
    if a.owner != system_program::ID || a.lamports < n {
        return Err("payer");
    }
    a.lamports -= n;
    w.set(*k, a);
    Ok(())
}

/// The token metadata program's `TransferV1`.
fn metadata_program(w: &mut World, m: &[Meta], d: &[u8]) -> Result<(), String> {
    if d.len() < 11 || d[0] != 49 || d[1] != 0 || m.len() < 17 {
        return Err("metadata program: unknown instruction".into());
    }
    let amount = u64_at(d, 2);
    let opt = |i: usize| (m[i].key != TM).then_some(m[i].key);
    for i in [0, 2, 5, 10] {
        if !m[i].writable {
            return Err(format!("metadata program: account {i} is not writable"));
        }
    }
    if !m[9].signer || !m[10].signer {
        return Err("metadata program: missing signature".into());
    }
    if m[9].key != m[1].key {
        return Err("metadata program: authority is not the holder".into());
    }
    if m[11].key != system_program::ID || m[12].key != SYSVAR || m[13].key != SPL || m[14].key != ATA {
        return Err("metadata program: wrong program".into());
    }
    let c = casts().iter().find(|c| c.mint == m[4].key).ok_or("metadata program: mint")?;
    if opt(6) != Some(c.edition) {
        return Err("metadata program: edition".into());
    }
    move_token(w, &m[0].key, &m[1].key, &m[2].key, &m[3].key, &m[4].key, &m[5].key, (opt(7), opt(8)), &m[10].key, amount)
        .map_err(|e| format!("metadata program: {e}"))
}

fn setup() {
    register(BRIDGE, Prog::Sol(bridge_program::entrypoint::verif_process_instruction));
    register(TM, Prog::Native(metadata_program));
}

// ---- worlds -----------------------------------------------------------------------------------

fn meta(c: &Cast) -> Metadata {
    Metadata {
        key: Key::MetadataV1,
        update_authority: AUTH,
        mint: c.mint,
        name: "Token".into(),
        symbol: "TKN".into(),
        uri: "https://x.y/z".into(),
        seller_fee_basis_points: 500,
        creators: Some(vec![Creator { address: C1, verified: true, share: 60 }, Creator { address: C2, verified: false, share: 40 }]),
        primary_sale_happened: true,
        is_mutable: true,
        edition_nonce: Some(254),
        token_standard: Some(if c.pnft { TokenStandard::ProgrammableNonFungible } else { TokenStandard::NonFungible }),
        collection: None,
        uses: None,
        collection_details: None,
        programmable_config: None,
    }
}

fn put_meta(w: &mut World, c: &Cast, m: &Metadata) {
    let mut d = m.try_to_vec().unwrap();
    d.resize(679.max(d.len()), 0);
    put_owned(w, c.metadata, d, TM);
}

/// The token of every mint is with OWNER.
fn world() -> World {
    let mut w = base();
    for p in [BRIDGE, TM, SPL, SPL22, ATA, RULES] {
        w.program(p);
    }
    put_owned(&mut w, SYSVAR, vec![0; 8], pubkey!("Sysvar1111111111111111111111111111111111111"));
    for c in casts() {
        put_owned(&mut w, c.mint, vec![1; 82], SPL);
        put_owned(&mut w, c.edition, vec![6; 282], TM);
        put_meta(&mut w, c, &meta(c));
        let h = c.home(&OWNER);
        put_owned(&mut w, h.1, token_bytes(&c.mint, &OWNER, 1), SPL);
        if c.pnft {
            put_owned(&mut w, h.2, vec![11; 80], TM);
        }
    }
    w
}

// ---- calls ------------------------------------------------------------------------------------

pub const B_SLOTS: [(&str, bool, bool); 20] = [
    ("asset", false, true), ("vault", false, true), ("owner", true, false), ("token", false, true), ("mint", false, false),
    ("metadata", false, true), ("master_edition", false, false), ("token_record", false, true), ("vault_token", false, true),
    ("vault_token_record", false, true), ("payer", true, true), ("nifty_asset_program", false, false),
    ("token_metadata_program", false, false), ("system_program", false, false), ("sysvar_instructions", false, false),
    ("spl_token_program", false, false), ("spl_ata_program", false, false), ("authorization_rules_program", false, false),
    ("authorization_rules", false, false), ("group_asset", false, false),
];
pub const C_SLOTS: [(&str, bool, bool); 9] = [
    ("asset", false, true), ("vault", false, true), ("mint", false, false), ("metadata", false, false),
    ("update_authority", true, false), ("collection", false, false), ("payer", true, true), ("system_program", false, false),
    ("nifty_asset_program", false, false),
];

fn bridge_metas(c: &Cast, by: &Pubkey, payer: &Pubkey, group: Option<Pubkey>) -> Vec<Meta> {
    let (h, v) = (c.home(by), c.home(&c.vault));
    let rec = |k: Pubkey| if c.pnft { k } else { BRIDGE };
    let keys = [
        c.asset, c.vault, *by, h.1, c.mint, c.metadata, c.edition, rec(h.2), v.1, rec(v.2), *payer, ASSET, TM, system_program::ID,
        SYSVAR, SPL, ATA, BRIDGE, BRIDGE, group.unwrap_or(BRIDGE),
    ];
    metas(&B_SLOTS, &keys)
}

fn metas(slots: &[(&str, bool, bool)], keys: &[Pubkey]) -> Vec<Meta> {
    slots
        .iter()
        .zip(keys)
        .map(|(s, k)| Meta { key: *k, signer: s.1, writable: s.2 && *k != BRIDGE })
        .collect()
}

fn create_metas(c: &Cast, collection: Option<Pubkey>, signs: bool) -> Vec<Meta> {
    let mut m = metas(
        &C_SLOTS,
        &[c.asset, c.vault, c.mint, c.metadata, AUTH, collection.unwrap_or(BRIDGE), PAYER, system_program::ID, ASSET],
    );
    m[4].signer = signs;
    m
}

#[derive(Clone, Debug)]
enum Op {
    Create(Vec<Meta>, bool),
    Bridge(Vec<Meta>),
    Asset(Call),
    /// (mint, from, to): a plain token transfer, outside of the bridge
    Token(usize, Pubkey, Pubkey),
}

fn text(op: &Op) -> String {
    let accs = |m: &[Meta], s: &[(&str, bool, bool)]| {
        m.iter()
            .zip(s)
            .map(|(m, s)| format!("{}={}{}{}", s.0, label(&m.key), if m.signer { "*" } else { "" }, if m.writable { "" } else { "-" }))
            .collect::<Vec<_>>()
            .join(" ")
    };
    match op {
        Op::Create(m, c) => format!("create(collection={c}) {}", accs(m, &C_SLOTS)),
        Op::Bridge(m) => format!("bridge {}", accs(m, &B_SLOTS)),
        Op::Asset(c) => format!(
            "asset {} {}",
            c.ins.name(),
            c.metas.iter().map(|m| format!("{}{}", label(&m.key), if m.signer { "*" } else { "" })).collect::<Vec<_>>().join(" ")
        ),
        Op::Token(i, a, b) => format!("token{i} {} -> {}", label(a), label(b)),
    }
}

fn vault(w: &World, c: &Cast) -> Option<u8> {
    let a = w.accts.get(&c.vault)?;
    (a.owner == BRIDGE && a.data.len() == 36 && a.data[0] == 1).then_some(a.data[1])
}

/// A call's verdict: `Err` must fail; `Ok(open)` with the wanted world and asset.
struct Wanted {
    open: bool,
    world: World,
    asset: Option<Asset>,
    key: Pubkey,
}

fn want_bridge(w: &World, metas: &[Meta]) -> Result<Wanted, &'static str> {
    let m = merged(metas);
    let k = |i: usize| m[i].key;
    let opt = |i: usize| (k(i) != BRIDGE).then_some(k(i));
    if !m[2].signer {
        return Err("the holder does not sign");
    }
    let Some(c) = casts().iter().find(|c| c.mint == k(4)) else { return Err("no mint") };
    if k(1) != c.vault || k(0) != c.asset || k(5) != c.metadata {
        return Err("accounts of another mint");
    }
    let Some(state) = vault(w, c) else { return Err("no vault") };
    let mut open = false;
    // judged by the token metadata program, or by the runtime
    open |= k(6) != c.edition || !m[10].signer || !m[10].writable || !m[0].writable || !m[1].writable || !m[3].writable || !m[8].writable;
    open |= k(11) != ASSET || k(12) != TM || k(13) != system_program::ID || k(14) != SYSVAR || k(15) != SPL || k(16) != ATA;
    open |= !is_pnft(w, c) && (opt(7).is_some() || opt(9).is_some());
    open |= opt(17).is_some() || opt(18).is_some();
    let active = state == 1;
    let (user, home) = ((k(2), k(3), opt(7)), (c.vault, k(8), opt(9)));
    let (src, dst) = if active { (home, user) } else { (user, home) };
    let mut world = w.clone();
    move_token(&mut world, &src.1, &src.0, &dst.1, &dst.0, &c.mint, &c.metadata, (src.2, dst.2), &k(10), 1)?;
    let call = Call::new(Ins::Transfer, &[Some(c.asset), Some(dst.0), Some(src.0), opt(19)]);
    let o = spec(&world, &call, 2);
    if o.must_fail() {
        return Err("the asset may not move");
    }
    open |= !o.must_succeed();
    let Some(Want::Asset(a, _)) = o.post.get(&c.asset) else { return Err("no asset") };
    let mut v = world.get(&c.vault);
    v.data[1] = !active as u8;
    world.set(c.vault, v);
    Ok(Wanted { open, world, asset: Some(a.clone()), key: c.asset })
}

fn trim(s: &str) -> &str {
    s.trim_end_matches('\0')
}

/// The extensions a bridged asset has to have.
fn bridged(m: &Metadata, owner: Pubkey, is_collection: bool) -> Asset {
    let mut b = Build::new(owner, m.update_authority);
    b.a.name = trim(&m.name).as_bytes().to_vec();
    b.a.name.resize(35, 0);
    let mut d = vec![trim(&m.symbol).len() as u8];
    d.extend(trim(&m.symbol).as_bytes());
    d.push(0);
    d.push(trim(&m.uri).len() as u8);
    d.extend(trim(&m.uri).as_bytes());
    b = b.ext(ty::METADATA, d);
    if let Some(v) = &m.creators {
        let v: Vec<view::Creator> =
            v.iter().map(|c| view::Creator { key: c.address, verified: 0, share: c.share }).collect();
        b = b.ext(ty::CREATORS, creators_bytes(&v));
    }
    if is_collection || m.collection_details.is_some() {
        b = b.ext(ty::GROUPING, vec![]);
        if m.token_standard == Some(TokenStandard::ProgrammableNonFungible) {
            b = b.ext(ty::ROYALTIES, vec![]);
        }
    }
    Asset::parse_raw(&b.bytes())
}

fn want_create(w: &World, metas: &[Meta], is_collection: bool) -> Result<Wanted, &'static str> {
    let m = merged(metas);
    let k = |i: usize| m[i].key;
    let opt = |i: usize| (k(i) != BRIDGE).then_some(k(i));
    if ![SPL, SPL22].contains(&w.owner(&k(2))) {
        return Err("not a mint");
    }
    if w.owner(&k(3)) != TM {
        return Err("not a metadata account");
    }
    let Ok(md) = Metadata::from_bytes(w.data(&k(3))) else { return Err("unreadable metadata") };
    if !matches!(md.token_standard, Some(TokenStandard::NonFungible | TokenStandard::ProgrammableNonFungible)) {
        return Err("not a non-fungible token");
    }
    if md.mint != k(2) {
        return Err("metadata of another mint");
    }
    let c = Cast::new(k(2), false);
    if k(0) != c.asset || k(1) != c.vault {
        return Err("accounts of another mint");
    }
    let mut open = k(4) != md.update_authority;
    match &md.collection {
        Some(x) if x.verified => {
            let a = Pubkey::find_program_address(&[b"asset", x.key.as_ref()], &BRIDGE).0;
            if w.owner(&a) != ASSET || Asset::parse(w.data(&a)).is_none() {
                return Err("its collection is not bridged");
            }
            open |= opt(5) != Some(a);
        }
        _ => {
            if k(4) != md.update_authority || !m[4].signer {
                return Err("the update authority does not sign");
            }
        }
    }
    if w.accts.contains_key(&c.vault) || w.accts.contains_key(&c.asset) {
        return Err("exists already");
    }
    open |= !m[6].signer || !m[6].writable || k(7) != system_program::ID || k(8) != ASSET;
    open |= md.creators.as_ref().is_some_and(|v| v.is_empty() || v.iter().map(|c| c.share as u32).sum::<u32>() != 100);
    open |= md.seller_fee_basis_points > 10_000;
    let mut world = w.clone();
    let mut v = vec![1, 0, c.vault_bump];
    v.extend(c.mint.as_ref());
    v.push(c.asset_bump);
    put_owned(&mut world, c.vault, v, BRIDGE);
    pay(&mut world, &k(6), rent(36)).map_err(|_| "payer")?;
    Ok(Wanted { open, world, asset: Some(bridged(&md, c.vault, is_collection)), key: c.asset })
}

/// Compares the new asset; creators and the royalty rule are compared in what they say.
fn cmp_bridged(got: &World, w: &Wanted, md: &Metadata, bad: &mut Bad) {
    let mut want = w.asset.clone().unwrap();
    let Some(a) = Asset::parse(got.data(&w.key)) else {
        return bad.push((P16, "no asset was created".into()));
    };
    let mut norm = a.clone();
    if let Some(c) = norm.ext(ty::CREATORS).and_then(view::creators) {
        for (x, o) in c.iter().zip(md.creators.iter().flatten()) {
            if x.verified != 0 && !o.verified && x.key != md.update_authority {
                bad.push((P16, format!("creator {} became verified", short(&x.key))));
            }
        }
        let c: Vec<_> = c.into_iter().map(|x| view::Creator { verified: 0, ..x }).collect();
        *norm.ext_mut(ty::CREATORS).unwrap() = creators_bytes(&c);
    }
    if let Some(g) = norm.ext_mut(ty::GROUPING) {
        match Grouping::parse(g) {
            Some(x) if x.size == 0 && x.max == 0 && x.delegate == Pubkey::default() => *g = vec![],
            x => bad.push((P16, format!("collection starts as {x:?}"))),
        }
    }
    if let Some(r) = norm.ext_mut(ty::ROYALTIES) {
        let rate = u64_at(r, 0);
        if rate != md.seller_fee_basis_points as u64 {
            bad.push((P16, format!("royalty rate {rate}")));
        }
        if !matches!(crate::rules::Rule::parse(&r[8..]), Some((crate::rules::Rule::Empty, _))) {
            bad.push((P16, "the royalty rule is not the pass-all rule".into()));
        }
        r.clear();
    }
    if let Some(m) = norm.ext_mut(ty::METADATA) {
        // null padding carries no meaning
        let mut o = 0;
        let mut out: Vec<u8> = vec![];
        for i in 0..3 {
            let n = m.get(o).copied().unwrap_or(0) as usize;
            let s = m.get(o + 1..o + 1 + n).unwrap_or(&[]);
            let t = trim(std::str::from_utf8(s).unwrap_or("?")).as_bytes();
            out.push(t.len() as u8);
            out.extend(t);
            o += 1 + n;
            let _ = i;
        }
        if m.len() > o && m[o] != 0 {
            bad.push((P16, "the asset has an image uri of its own".into()));
        }
        *m = out;
    }
    norm.exts.sort_by_key(|e| e.ty);
    want.exts.sort_by_key(|e| e.ty);
    norm.mutable = want.mutable;
    let acct = got.get(&w.key);
    if acct.owner != ASSET || norm.bad.is_some() {
        return bad.push((P16, format!("broken asset: {:?}", norm.bad)));
    }
    let pack = |a: &Asset| {
        (
            (short(&a.owner), short(&a.authority), short(&a.group), short(&a.delegate)),
            (a.state, a.standard, a.name.clone()),
            a.exts.iter().map(|e| (e.ty, e.data.clone())).collect::<Vec<_>>(),
        )
    };
    let (g, x) = (pack(&norm), pack(&want));
    if g != x {
        bad.push((P16, format!("the asset is {g:?} instead of {x:?}")));
    }
}

/// What holds in every state.
fn custody(w: &World, bad: &mut Bad) {
    for (i, c) in casts().iter().enumerate() {
        let asset = Asset::parse(w.data(&c.asset));
        let with = |f: &dyn Fn(&Pubkey) -> bool| {
            w.accts.keys().filter_map(|k| token(w, k)).any(|t| t.0 == c.mint && t.2 > 0 && f(&t.1))
        };
        let free_token = with(&|h| *h != c.vault);
        let free_asset = asset.as_ref().is_some_and(|a| a.owner != c.vault);
        if free_token && free_asset {
            bad.push((P15, format!("mint {i}: the token and the asset are both free")));
        }
        match vault(w, c) {
            None => {
                if asset.is_some() {
                    bad.push((P15 | P16, format!("mint {i}: an asset without a vault")));
                }
            }
            Some(0) => {
                if asset.is_none() || free_asset {
                    bad.push((P15, format!("mint {i}: an idle vault without the asset")));
                }
            }
            Some(_) => {
                if !with(&|h| *h == c.vault) {
                    bad.push((P15, format!("mint {i}: an active vault without the token")));
                }
            }
        }
    }
}

struct Step {
    next: Option<World>,
    bad: Bad,
    /// 0 must fail, 1 must succeed, 2 open
    class: u8,
}

fn step(w: &World, op: &Op) -> Step {
    let mut bad: Bad = vec![];
    let (ix, wanted, tag) = match op {
        Op::Token(i, from, to) => {
            let c = &casts()[*i];
            let mut n = w.clone();
            let (a, b) = (c.home(from), c.home(to));
            let ok = move_token(&mut n, &a.1, from, &b.1, to, &c.mint, &c.metadata, (Some(a.2), Some(b.2)), &PAYER, 1).is_ok();
            return Step { next: ok.then_some(n), bad, class: 2 };
        }
        Op::Asset(c) => {
            let mut next = exec(w, &[c.ix()], 1).ok();
            let class = 2;
            if let Some(n) = next.as_mut() {
                settle(n);
                custody(n, &mut bad);
            }
            return Step { next, bad, class };
        }
        Op::Bridge(m) => (Ix { program: BRIDGE, metas: m.clone(), data: vec![0] }, want_bridge(w, m), P15),
        Op::Create(m, c) => (Ix { program: BRIDGE, metas: m.clone(), data: vec![1, *c as u8] }, want_create(w, m, *c), P16),
    };
    let r = exec(w, &[ix], 1);
    let class = match &wanted {
        Err(_) => 0,
        Ok(x) if !x.open => 1,
        _ => 2,
    };
    let next = match (r, wanted) {
        (Ok(_), Err(why)) => {
            bad.push((tag, format!("accepted although: {why}")));
            None
        }
        (Err(e), Ok(x)) => {
            if !x.open {
                bad.push((tag, format!("refused with everything in place: {e}")));
            }
            None
        }
        (Err(_), Err(_)) => None,
        (Ok(n), Ok(x)) => {
            if let Op::Create(m, _) = op {
                let md = Metadata::from_bytes(w.data(&m[3].key)).unwrap();
                cmp_bridged(&n, &x, &md, &mut bad);
            } else {
                let mut b: Bad = vec![];
                cmp_asset(&x.key, &n.get(&x.key), x.asset.as_ref().unwrap(), None, tag, &mut b);
                bad.extend(b.into_iter().map(|b| (tag, b.1)));
            }
            // every other account
            let mut keys: Vec<Pubkey> = n.accts.keys().chain(x.world.accts.keys()).copied().collect();
            keys.sort();
            keys.dedup();
            let payer = match op {
                Op::Create(m, _) => m[6].key,
                Op::Bridge(m) => m[10].key,
                _ => unreachable!(),
            };
            for k in keys {
                if k == x.key {
                    continue;
                }
                let (g, e) = (n.get(&k), x.world.get(&k));
                if k == payer && matches!(op, Op::Create(..)) {
                    // pays exactly for the asset as well
                    if g.lamports + n.lamports(&x.key) != e.lamports + x.world.lamports(&x.key) {
                        bad.push((tag, "the payer pays more than the accounts hold".into()));
                    }
                    continue;
                }
                if g != e {
                    bad.push((tag, format!("{} is {g:?} instead of {e:?}", label(&k)).chars().take(700).collect()));
                }
            }
            custody(&n, &mut bad);
            let mut n = n;
            settle(&mut n);
            Some(n)
        }
    };
    Step { next, bad, class }
}

/// Wallet balances do not matter to the bridge.
fn settle(w: &mut World) {
    for k in [OWNER, BOB, DEL, AUTH, PAYER, SINK] {
        w.set(k, Acct::wallet(RICH));
    }
}

// ---- the search -------------------------------------------------------------------------------

/// The calls tried in every state. `wide`: also every substitution of one account.
fn alphabet(n: usize, wide: bool, users: &[Pubkey]) -> Vec<Op> {
    let cs = &casts()[..n];
    let mut v = vec![];
    for (i, c) in cs.iter().enumerate() {
        v.push(Op::Create(create_metas(c, None, true), false));
        v.push(Op::Create(create_metas(c, None, false), false));
        for by in users {
            v.push(Op::Bridge(bridge_metas(c, by, &PAYER, None)));
            v.push(Op::Bridge(bridge_metas(c, by, by, None)));
        }
        // signatures
        for slot in [2, 10] {
            let mut m = bridge_metas(c, &users[0], &PAYER, None);
            m[slot].signer = false;
            v.push(Op::Bridge(m));
        }
        for a in users {
            for b in users {
                if a != b {
                    v.push(Op::Asset(transfer(c.asset, *a, *b, None)));
                    v.push(Op::Token(i, *a, *b));
                }
            }
            v.push(Op::Asset(transfer(c.asset, *a, c.vault, None)));
            v.push(Op::Token(i, *a, c.vault));
            v.push(Op::Asset(approve(c.asset, *a, DEL, Deleg::All)));
            v.push(Op::Asset(burn(c.asset, *a, Some(PAYER), None)));
        }
        v.push(Op::Bridge(bridge_metas(c, &DEL, &PAYER, None)));
        v.push(Op::Asset(lock(c.asset, DEL)));
        v.push(Op::Asset(unlock(c.asset, DEL)));
        v.push(Op::Asset(transfer(c.asset, DEL, DEL, None)));
        if !wide {
            continue;
        }
        // one account replaced
        let mut pool: Vec<Pubkey> = vec![BRIDGE, ASSET, TM, SPL, system_program::ID, PAYER, RULES, FRESH];
        pool.extend(users);
        for c in casts() {
            pool.extend([c.asset, c.vault, c.mint, c.metadata, c.edition]);
            for h in &c.homes {
                pool.extend([h.1, h.2]);
            }
        }
        pool.sort();
        pool.dedup();
        for by in users {
            let good = bridge_metas(c, by, &PAYER, None);
            for slot in 0..20 {
                for k in &pool {
                    if *k == good[slot].key {
                        continue;
                    }
                    let mut m = good.clone();
                    m[slot].key = *k;
                    if *k == BRIDGE {
                        m[slot].writable = false;
                    }
                    // only wallets can sign
                    if m[slot].signer && ![OWNER, BOB, PAYER, FRESH].contains(k) {
                        m[slot].signer = false;
                    }
                    v.push(Op::Bridge(m));
                }
            }
            // the accounts of another mint, whole groups at once
            for (j, o) in casts().iter().enumerate() {
                if j == i {
                    continue;
                }
                let other = bridge_metas(o, by, &PAYER, None);
                for group in [
                    &[0usize, 1][..], &[3, 7, 8, 9], &[4, 5, 6], &[0, 1, 3, 7, 8, 9], &[1, 4, 5, 6], &[0, 4, 5, 6], &[3, 4, 5, 6, 7, 8, 9],
                    &[1, 3, 4, 5, 6, 7, 8, 9], &[0, 3, 4, 5, 6, 7, 8, 9], &[4, 5], &[0, 4], &[1, 4],
                ] {
                    let mut m = good.clone();
                    for s in group {
                        m[*s] = other[*s].clone();
                    }
                    v.push(Op::Bridge(m));
                }
            }
            // the other user's places
            for other in users {
                if other == by {
                    continue;
                }
                let o = bridge_metas(c, other, &PAYER, None);
                for group in [&[3usize, 7][..], &[2], &[2, 3], &[2, 7]] {
                    let mut m = good.clone();
                    for s in group {
                        m[*s] = o[*s].clone();
                    }
                    v.push(Op::Bridge(m.clone()));
                    m[2].signer = false;
                    v.push(Op::Bridge(m));
                }
                // swapped roles of the user's and the vault's places
                let mut m = good.clone();
                m.swap(3, 8);
                m.swap(7, 9);
                v.push(Op::Bridge(m));
            }
        }
    }
    v
}

fn search(name: &'static str, tags: Tags, mask: Tags, inits: Vec<World>, ops: &[Op], depth: usize) -> (Stats, Vec<Found>) {
    if tags & mask == 0 {
        return Default::default();
    }
    let mut st = Stats::default();
    let mut seen: HashSet<u128> = HashSet::new();
    // (world, index of the node)
    let mut front: Vec<(World, usize)> = vec![];
    // (parent, operation)
    let mut nodes: Vec<(usize, usize)> = vec![];
    for w in inits {
        if seen.insert(digest(&w)) {
            nodes.push((usize::MAX, nodes.len()));
            front.push((w, nodes.len() - 1));
        }
    }
    let mut found: Vec<(usize, usize, String)> = vec![];
    let mut level = 0;
    while !front.is_empty() && level < depth && found.is_empty() {
        level += 1;
        let next = AtomicUsize::new(0);
        type Part = (Stats, Vec<(usize, usize, World)>, Vec<(usize, usize, String)>);
        let parts: Mutex<Vec<Part>> = Default::default();
        std::thread::scope(|s| {
            for _ in 0..threads().min(front.len()) {
                s.spawn(|| {
                    let mut p: Part = Default::default();
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= front.len() {
                            break;
                        }
                        let (w, node) = &front[i];
                        for (j, op) in ops.iter().enumerate() {
                            let note = Note { tags, name, index: *node };
                            watch_note(&note);
                            let r = catch_unwind(AssertUnwindSafe(|| step(w, op)));
                            unwatch();
                            p.0.transitions += 1;
                            let r = match r {
                                Ok(r) => r,
                                Err(_) => {
                                    p.2.push((*node, j, "the harness panicked".into()));
                                    continue;
                                }
                            };
                            match r.class {
                                0 => p.0.must_fail += 1,
                                1 => p.0.must_succeed += 1,
                                _ => p.0.open += 1,
                            }
                            for (t, e) in r.bad {
                                if t & mask != 0 {
                                    p.2.push((*node, j, e));
                                }
                            }
                            if let Some(n) = r.next {
                                p.0.accepted += 1;
                                p.1.push((*node, j, n));
                            }
                        }
                    }
                    parts.lock().unwrap().push(p);
                });
            }
        });
        let mut cand = vec![];
        for p in parts.into_inner().unwrap() {
            st.add(&p.0);
            cand.extend(p.1);
            found.extend(p.2);
        }
        cand.sort_by_key(|c| (c.0, c.1));
        front.clear();
        for (parent, op, w) in cand {
            if seen.insert(digest(&w)) {
                nodes.push((parent, op));
                front.push((w, nodes.len() - 1));
            }
        }
    }
    let path = |mut n: usize| {
        let mut v = vec![];
        while nodes[n].0 != usize::MAX {
            v.push(nodes[n].1);
            n = nodes[n].0;
        }
        v.reverse();
        v
    };
    st.states = seen.len() as u64;
    st.depth = level as u64;
    st.closed = front.is_empty();
    let mut leaf = vec![true; nodes.len()];
    for n in &nodes {
        if n.0 != usize::MAX {
            leaf[n.0] = false;
        }
    }
    st.traces = leaf.iter().filter(|x| **x).count() as u64;
    if let Some(n) = nodes.len().checked_sub(1) {
        st.samples.push(format!("{name}: {}", path(n).iter().map(|o| text(&ops[*o])).collect::<Vec<_>>().join("; ")).chars().take(500).collect());
    }
    found.sort();
    let found = found
        .into_iter()
        .take(10)
        .map(|(n, j, e)| {
            let mut p = path(n);
            p.push(j);
            let t: Vec<String> = p.iter().map(|o| text(&ops[*o])).collect();
            Found { message: e.clone(), replay: format!("enumeration={name}\n{e}\nhistory:\n  {}", t.join("\n  ")), locator: name.to_string() }
        })
        .collect();
    (st, found)
}

/// Histories over the mints; both vaults may also start out filled.
pub fn histories(mask: Tags) -> (Stats, Vec<Found>) {
    setup();
    let ops = alphabet(2, false, &USERS);
    search("bridge-histories", P15 | P16, mask, vec![world()], &ops, usize::MAX)
}

/// Members of a bridged collection whose royalty rules apply to the bridge's own transfers.
pub fn members(mask: Tags) -> (Stats, Vec<Found>) {
    setup();
    let (c, g) = (&casts()[0], &casts()[2]);
    let mut inits = vec![];
    for pnft in [false, true] {
        let mut w = world();
        let mut md = meta(g);
        if pnft {
            md.token_standard = Some(TokenStandard::ProgrammableNonFungible);
            put_owned(&mut w, g.home(&OWNER).2, vec![11; 80], TM);
        }
        md.collection_details = Some(CollectionDetails::V1 { size: 1 });
        put_meta(&mut w, g, &md);
        let mut item = meta(c);
        item.collection = Some(Collection { verified: true, key: g.mint });
        put_meta(&mut w, c, &item);
        inits.push(w);
    }
    let mut v = vec![];
    for given in [None, Some(g.asset)] {
        for signs in [true, false] {
            v.push(Op::Create(create_metas(c, given, signs), false));
        }
    }
    v.push(Op::Create(create_metas(g, None, true), false));
    v.push(Op::Asset(group(c.asset, g.asset, AUTH)));
    v.push(Op::Asset(ungroup(c.asset, g.asset, AUTH)));
    let rule = |r: crate::rules::Rule| crate::rules::royalties_bytes(500, &r);
    use crate::rules::Rule;
    for r in [Rule::Empty, Rule::Not(Box::new(Rule::Empty)), Rule::Key(2, vec![c.vault]), Rule::Key(1, vec![c.vault, OWNER])] {
        v.push(Op::Asset(set_ext(g.asset, AUTH, ty::ROYALTIES, rule(r))));
    }
    for by in [OWNER, BOB, DEL] {
        for given in [None, Some(g.asset), Some(c.asset), Some(casts()[1].asset), Some(FRESH)] {
            v.push(Op::Bridge(bridge_metas(c, &by, &PAYER, given)));
        }
    }
    for (a, b) in [(OWNER, BOB), (BOB, OWNER)] {
        v.push(Op::Asset(transfer(c.asset, a, b, Some(g.asset))));
    }
    v.push(Op::Asset(approve(c.asset, OWNER, DEL, Deleg::All)));
    v.push(Op::Bridge(bridge_metas(g, &OWNER, &PAYER, None)));
    search("bridge-members", P15 | P16, mask, inits, &v, usize::MAX)
}

/// Every replacement of two accounts at once, in the main states of each mint.
pub fn pairs(mask: Tags, deep: bool) -> (Stats, Vec<Found>) {
    setup();
    let mut inits = vec![];
    let go = |w: &World, op: Op| step(w, &op).next;
    for other in [0, 1, 2] {
        // 0: nothing of the other mint, 1: its vault is idle, 2: its vault is active
        for (i, c) in casts().iter().take(2).enumerate() {
            let o = &casts()[1 - i];
            let mut w = world();
            if other > 0 {
                w = go(&w, Op::Create(create_metas(o, None, true), false)).unwrap_or(w);
            }
            if other > 1 {
                w = go(&w, Op::Bridge(bridge_metas(o, &OWNER, &PAYER, None))).unwrap_or(w);
            }
            let a = go(&w, Op::Create(create_metas(c, None, true), false)).unwrap_or(w.clone());
            let b = go(&a, Op::Bridge(bridge_metas(c, &OWNER, &PAYER, None))).unwrap_or(a.clone());
            let d = go(&b, Op::Asset(transfer(c.asset, OWNER, BOB, None))).unwrap_or(b.clone());
            inits.extend([w, a, b]);
            if deep {
                inits.push(d);
            }
        }
    }
    let mut ops = vec![];
    for c in casts().iter().take(2) {
        let mut pool: Vec<Pubkey> = vec![BRIDGE, OWNER, BOB];
        for c in casts().iter().take(2) {
            pool.extend([c.asset, c.vault, c.mint, c.metadata]);
            for h in &c.homes {
                if h.0 != DEL {
                    pool.extend([h.1, h.2]);
                }
            }
        }
        let slots = [0usize, 1, 2, 3, 4, 5, 7, 8, 9];
        for by in USERS {
            let good = bridge_metas(c, &by, &PAYER, None);
            for (x, a) in slots.iter().enumerate() {
                for b in &slots[x + 1..] {
                    for k in &pool {
                        for l in &pool {
                            let mut m = good.clone();
                            for (s, k) in [(*a, k), (*b, l)] {
                                m[s].key = *k;
                                m[s].writable = B_SLOTS[s].2 && *k != BRIDGE;
                                if m[s].signer && !USERS.contains(k) {
                                    m[s].signer = false;
                                }
                            }
                            if m[*a].key != good[*a].key && m[*b].key != good[*b].key {
                                ops.push(Op::Bridge(m));
                            }
                        }
                    }
                }
            }
        }
    }
    search("bridge-pairs", P15, mask, inits, &ops, 1)
}

/// Every substitution in every state of each mint that short histories reach.
pub fn swaps(mask: Tags, deep: bool) -> (Stats, Vec<Found>) {
    setup();
    let mut start = vec![];
    for which in 0..2 {
        let mut w = world();
        // the other mint and the collection are bridged already, in both directions
        for (i, c) in casts().iter().enumerate().take(3) {
            if i == which {
                continue;
            }
            w = step(&w, &Op::Create(create_metas(c, None, true), false)).next.unwrap_or(w);
        }
        start.push(w.clone());
        let w2 = step(&w, &Op::Bridge(bridge_metas(&casts()[1 - which], &OWNER, &PAYER, None))).next.unwrap_or(w);
        start.push(w2);
    }
    let ops = alphabet(2, true, &USERS);
    search("bridge-substitutions", P15, mask, start, &ops, if deep { usize::MAX } else { 2 })
}

// ---- creation ---------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Case {
    md: Metadata,
    is_collection: bool,
    signs: bool,
    mint_owner: Pubkey,
    md_owner: Pubkey,
    /// state of the collection's asset: 0 absent, 1 bridged
    collection: u8,
    metas: Vec<Meta>,
}

fn run_case(x: &Case, t: &mut Tally) -> Result<(), String> {
    let c = &casts()[0];
    let mut w = world();
    if x.collection > 0 {
        w = step(&w, &Op::Create(create_metas(&casts()[2], None, true), true)).next.ok_or("the collection cannot be bridged")?;
    }
    // groups that are no bridged collection
    put(&mut w, G1, Build::new(OWNER, AUTH).ext(ty::GROUPING, Grouping { size: 0, max: 0, delegate: GDEL }.bytes()).bytes());
    put(&mut w, G2, Build::new(AUTH, AUTH).bytes());
    put_meta(&mut w, c, &x.md);
    let mut a = w.get(&c.metadata);
    a.owner = x.md_owner;
    w.set(c.metadata, a);
    let mut a = w.get(&c.mint);
    a.owner = x.mint_owner;
    w.set(c.mint, a);
    let op = Op::Create(x.metas.clone(), x.is_collection);
    let r = step(&w, &op);
    t.steps += 1;
    match r.class {
        0 => t.refused += 1,
        2 => t.open += 1,
        _ => (),
    }
    if let Some(n) = &r.next {
        t.state(n.data(&c.asset));
        // a second time
        let again = step(n, &op);
        t.steps += 1;
        t.refused += 1;
        if let Some(b) = again.bad.first() {
            return Err(format!("{} (second creation: {})", b.1, text(&op)));
        }
    }
    match r.bad.first() {
        None => Ok(()),
        Some(b) => Err(format!("{} ({})", b.1, text(&op))),
    }
}

fn creators_of(list: &[(Pubkey, bool, u8)]) -> Option<Vec<Creator>> {
    Some(list.iter().map(|c| Creator { address: c.0, verified: c.1, share: c.2 }).collect())
}

pub fn creation(mask: Tags, deep: bool) -> (Stats, Vec<Found>) {
    setup();
    let c = &casts()[0];
    let coll = &casts()[2];
    let mut v: Vec<Case> = vec![];
    use TokenStandard::*;
    let standards = [
        None, Some(NonFungible), Some(FungibleAsset), Some(Fungible), Some(NonFungibleEdition), Some(ProgrammableNonFungible),
        Some(ProgrammableNonFungibleEdition),
    ];
    let links = [
        None,
        Some(Collection { verified: false, key: coll.mint }),
        Some(Collection { verified: true, key: coll.mint }),
        Some(Collection { verified: true, key: casts()[1].mint }),
        Some(Collection { verified: false, key: casts()[1].mint }),
    ];
    // who may create
    for standard in &standards {
        for link in &links {
            for signs in [true, false] {
                for authority in [AUTH, AUTH_TWIN, OWNER] {
                    for (is_collection, details) in [(false, false), (true, false), (false, true), (true, true)] {
                        for (mint_owner, md_owner) in [(SPL, TM), (SPL22, TM), (TM, TM), (system_program::ID, TM), (SPL, SPL), (SPL, ASSET)] {
                            for collection in [0u8, 1] {
                                for given in [None, Some(coll.asset), Some(casts()[1].asset), Some(coll.mint), Some(c.asset)] {
                                    let mut md = meta(c);
                                    md.token_standard = standard.clone();
                                    md.collection = link.clone();
                                    md.update_authority = authority;
                                    md.collection_details = details.then_some(CollectionDetails::V1 { size: 3 });
                                    let metas = create_metas(c, given, signs);
                                    v.push(Case { md, is_collection, signs, mint_owner, md_owner, collection, metas });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // metadata of another mint
    for other in [casts()[1].mint, casts()[3].mint, FRESH, Pubkey::default()] {
        for signs in [true, false] {
            let mut md = meta(c);
            md.mint = other;
            v.push(Case { md, is_collection: false, signs, mint_owner: SPL, md_owner: TM, collection: 0, metas: create_metas(c, None, signs) });
        }
    }
    // what is repeated
    let lens = |n: usize| -> Vec<String> {
        let mut v: Vec<String> = [0, 1, n / 2, n - 1, n].iter().map(|k| "x".repeat(*k)).collect();
        v.push("é".repeat(n / 2));
        v.push(format!("{}{}", "ab", "\0".repeat(n - 2)));
        v.push("\0".repeat(n));
        v.push(format!("  {:1$}", "Ab", n - 2));
        v
    };
    let lists = [
        None,
        creators_of(&[(AUTH, true, 100)]),
        creators_of(&[(AUTH, false, 100)]),
        creators_of(&[(C1, true, 100)]),
        creators_of(&[(C1, true, 0), (AUTH, true, 100)]),
        creators_of(&[(C1, false, 50), (C2, true, 50)]),
        creators_of(&[(C1, true, 20), (C2, true, 20), (C3, false, 20), (AUTH, true, 20), (OWNER, false, 20)]),
        creators_of(&[(C3, true, 1), (C2, false, 2), (C1, true, 97)]),
    ];
    let names = lens(32);
    let symbols = lens(10);
    let uris = lens(200);
    let rates: &[u16] = if deep { &[0, 1, 255, 256, 500, 9_999, 10_000] } else { &[0, 257, 10_000] };
    for name in &names {
        for symbol in &symbols {
            for uri in &uris {
                for (li, list) in lists.iter().enumerate() {
                    for rate in rates {
                        for pnft in [false, true] {
                            for is_collection in [false, true] {
                                for is_mutable in if deep { vec![true, false] } else { vec![li % 2 == 0] } {
                                    let mut md = meta(c);
                                    md.name = name.clone();
                                    md.symbol = symbol.clone();
                                    md.uri = uri.clone();
                                    md.creators = list.clone();
                                    md.seller_fee_basis_points = *rate;
                                    md.is_mutable = is_mutable;
                                    md.token_standard = Some(if pnft { ProgrammableNonFungible } else { NonFungible });
                                    v.push(Case {
                                        md, is_collection, signs: true, mint_owner: SPL, md_owner: TM, collection: 0,
                                        metas: create_metas(c, None, true),
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // one account replaced
    let mut pool: Vec<Pubkey> = vec![BRIDGE, ASSET, TM, SPL, system_program::ID, OWNER, AUTH_TWIN, FRESH];
    for c in casts() {
        pool.extend([c.asset, c.vault, c.mint, c.metadata, c.edition]);
    }
    for link in &links {
        for slot in 0..9 {
            for k in &pool {
                for signs in [true, false] {
                    for collection in [0u8, 1] {
                        let mut md = meta(c);
                        md.collection = link.clone();
                        let mut metas = create_metas(c, Some(coll.asset), signs);
                        metas[slot].key = *k;
                        if *k == BRIDGE {
                            metas[slot].writable = false;
                        }
                        if ![OWNER, AUTH, AUTH_TWIN, PAYER, FRESH].contains(k) {
                            metas[slot].signer = false;
                        }
                        v.push(Case { md, is_collection: false, signs, mint_owner: SPL, md_owner: TM, collection, metas });
                    }
                }
            }
        }
    }
    // another asset in place of the collection, with and without its signature, and parties that
    // coincide
    for link in &links {
        for given in [G1, G2, AUTH, PAYER, AUTH_TWIN] {
            for (sign, write) in [(false, false), (true, false), (false, true), (true, true)] {
                for signs in [true, false] {
                    for (is_collection, collection) in [(false, 0u8), (false, 1), (true, 0), (true, 1)] {
                        for (authority, payer) in [(AUTH, PAYER), (AUTH, AUTH), (PAYER, PAYER), (G1, PAYER), (G2, AUTH)] {
                            let mut md = meta(c);
                            md.collection = link.clone();
                            md.update_authority = authority;
                            md.creators = creators_of(&[(authority, true, 0), (payer, true, 0), (C1, true, 100)]);
                            let mut metas = create_metas(c, Some(given), signs);
                            metas[4].key = authority;
                            metas[5].signer = sign;
                            metas[5].writable = write;
                            metas[6].key = payer;
                            v.push(Case { md, is_collection, signs, mint_owner: SPL, md_owner: TM, collection, metas });
                        }
                    }
                }
            }
        }
    }
    enumerate("bridge-creation", P16, mask, &v, run_case)
}
