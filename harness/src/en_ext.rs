//! Extension values: what goes in through the builders comes out of every reader.

use crate::{
    en_rules::compose,
    explore::{Found, Stats},
    keys::*,
    pure::{enumerate, Aligned, Tally},
    rules::{royalties_bytes, Rule},
    spec::{Tags, P19},
    view::{creators_bytes, manager_bytes, proxy_bytes, ty, Build, Creator as C, EXT, HDR},
};
use nifty_asset_types::{
    extensions::*,
    podded::ZeroCopy,
    state::{Asset, Delegate, NullablePubkey},
};
use solana_program::pubkey::Pubkey;

#[derive(Clone, Debug, PartialEq)]
pub enum Prop {
    T(String),
    N(u64),
    B(bool),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Attributes(Vec<(String, String)>),
    Blob(String, Vec<u8>),
    Creators(Vec<(Pubkey, bool, u8)>),
    Links(Vec<(String, String)>),
    Metadata([Option<String>; 4]),
    Grouping(u64, Option<u64>, Option<Pubkey>),
    Royalties(u64, Rule),
    Manager(Option<Pubkey>, u8),
    Proxy(Pubkey, [u8; 32], u8, Option<Pubkey>),
    Properties(Vec<(String, Prop)>),
    Bucket(Vec<u8>),
}
use Val::*;

fn st(s: &str) -> Vec<u8> {
    let mut v = vec![s.len() as u8];
    v.extend(s.as_bytes());
    v
}

impl Val {
    pub fn ty(&self) -> u32 {
        match self {
            Attributes(_) => ty::ATTRIBUTES,
            Blob(..) => ty::BLOB,
            Creators(_) => ty::CREATORS,
            Links(_) => ty::LINKS,
            Metadata(_) => ty::METADATA,
            Grouping(..) => ty::GROUPING,
            Royalties(..) => ty::ROYALTIES,
            Manager(..) => ty::MANAGER,
            Proxy(..) => ty::PROXY,
            Properties(_) => ty::PROPERTIES,
            Bucket(_) => ty::BUCKET,
        }
    }

    /// The stored form.
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Attributes(v) | Links(v) => v.iter().flat_map(|(a, b)| [st(a), st(b)].concat()).collect(),
            Blob(c, d) => [st(c), d.clone()].concat(),
            Creators(v) => creators_bytes(
                &v.iter().map(|(k, b, s)| C { key: *k, verified: *b as u8, share: *s }).collect::<Vec<_>>(),
            ),
            Metadata(v) => v.iter().flat_map(|x| st(x.as_deref().unwrap_or(""))).collect(),
            Grouping(n, m, d) => {
                crate::view::Grouping { size: *n, max: m.unwrap_or(0), delegate: d.unwrap_or_default() }.bytes()
            }
            Royalties(n, r) => royalties_bytes(*n, r),
            Manager(k, r) => manager_bytes(&k.unwrap_or_default(), *r),
            Proxy(p, s, b, a) => proxy_bytes(p, s, *b, &a.unwrap_or_default()),
            Properties(v) => v
                .iter()
                .flat_map(|(n, p)| {
                    let x = match p {
                        Prop::T(s) => [vec![0], st(s)].concat(),
                        Prop::N(n) => [vec![1], n.to_le_bytes().to_vec()].concat(),
                        Prop::B(b) => vec![2, *b as u8],
                    };
                    [st(n), x].concat()
                })
                .collect(),
            Bucket(d) => d.clone(),
        }
    }

    /// Builds with the real builder. mode 0 default, 1 with_buffer (full of old bytes),
    /// 2 with_capacity, 3 a builder whose data was taken before, 4 values set twice.
    pub fn build(&self, mode: u8, t: &mut Tally) -> Result<Vec<u8>, String> {
        let old = || vec![0xeeu8; 77];
        macro_rules! go {
            ($b:ident, $mk:ident, $other:expr, $set:expr, $twice:expr) => {{
                let mut $b = match mode {
                    1 => $mk::with_buffer(old()),
                    2 => go!(@cap $mk),
                    _ => $mk::default(),
                };
                if mode == 3 {
                    $other;
                    ExtensionBuilder::data(&mut $b);
                }
                if mode == 4 && $twice {
                    $other;
                }
                $set;
                {
                let x = ExtensionBuilder::build(&$b);
                self.reads(&x, t)?;
                t.eq("length() of the built extension", ExtensionData::length(&x), self.bytes().len())?;
                let x = ExtensionBuilder::build(&$b);
                self.reads(&x, t)?;
                }
                t.eq("bytes of the builder", $b.to_vec(), self.bytes())?;
                ExtensionBuilder::data(&mut $b)
            }};
            (@cap GroupingBuilder) => { GroupingBuilder::default() };
            (@cap $mk:ident) => { $mk::with_capacity(3) };
        }
        Ok(match self {
            Attributes(v) => go!(b, AttributesBuilder, { b.add("x", "y"); }, for (n, x) in v { b.add(n, x); }, false),
            Links(v) => go!(b, LinksBuilder, { b.add("x", "y"); }, for (n, x) in v { b.add(n, x); }, false),
            Blob(c, d) => go!(b, BlobBuilder, { b.set_data("old/type", &[9; 30]); }, { b.set_data(c, d); }, true),
            Bucket(d) => go!(b, BucketBuilder, { b.set_data(&[9; 30]); }, { b.set_data(d); }, true),
            Creators(v) => {
                go!(b, CreatorsBuilder, { b.add(&BOB, true, 3); b.add(&DEL, true, 4); }, for (k, f, s) in v { b.add(k, *f, *s); }, false)
            }
            Metadata(v) => {
                let m: Vec<Option<&str>> = v.iter().map(|s| s.as_deref()).collect();
                go!(b, MetadataBuilder, { b.set(Some("old"), Some("old"), None, Some("old")); }, { b.set(m[0], m[1], m[2], m[3]); }, true)
            }
            Grouping(_, m, d) => {
                go!(b, GroupingBuilder, { b.set(Some(77), Some(&BOB)); }, { b.set(*m, d.as_ref()); }, true)
            }
            Royalties(n, r) => go!(
                b,
                RoyaltiesBuilder,
                { b.set(9999, &mut *compose(&Rule::Key(1, vec![BOB]), 0)); },
                { b.set(*n, &mut *compose(r, 0)); },
                true
            ),
            Manager(k, r) => {
                let d = Delegate { address: NullablePubkey::new(k.unwrap_or_default()), roles: *r };
                let e = Delegate { address: NullablePubkey::new(C3), roles: 5 };
                go!(b, ManagerBuilder, { b.set(&e); }, { b.set(&d); }, true)
            }
            Proxy(p, s, n, a) => {
                go!(b, ProxyBuilder, { b.set(&C3, &[7; 32], 9, Some(&C2)); }, { b.set(p, s, *n, a.as_ref()); }, true)
            }
            Properties(v) => go!(
                b,
                PropertiesBuilder,
                { b.add("old", 3u64); },
                for (n, p) in v {
                    match p {
                        Prop::T(s) => b.add(n, s.as_str()),
                        Prop::N(x) => b.add(n, *x),
                        Prop::B(x) => b.add(n, *x),
                    };
                },
                false
            ),
        })
    }

    #[allow(deprecated)]
    fn old_properties(&self) -> Option<(Vec<u8>, Vec<u8>)> {
        let Properties(v) = self else { return None };
        let (mut b, mut c) = (PropertiesBuilder::default(), PropertiesBuilder::default());
        for (n, p) in v {
            match p {
                Prop::T(s) => {
                    b.add_text(n, s);
                    c.add(n, s.clone())
                }
                Prop::N(x) => {
                    b.add_number(n, *x);
                    c.add(n, *x)
                }
                Prop::B(x) => {
                    b.add_boolean(n, *x);
                    c.add(n, *x)
                }
            };
        }
        Some((b.data(), c.data()))
    }

    fn norm(&self) -> Val {
        match self {
            // an omitted string is an empty one
            Metadata(m) => Metadata(m.clone().map(|x| Some(x.unwrap_or_default()))),
            v => v.clone(),
        }
    }

    fn reads<T: View>(&self, x: &T, t: &mut Tally) -> Result<(), String> {
        t.eq("value read", x.val(), self.norm())?;
        x.more(self, t)
    }
}

/// Readers of the library, turned into plain values.
pub trait View {
    fn val(&self) -> Val;
    fn more(&self, _v: &Val, _t: &mut Tally) -> Result<(), String> {
        Ok(())
    }
}

impl View for nifty_asset_types::extensions::Attributes<'_> {
    fn val(&self) -> Val {
        Val::Attributes(self.iter().map(|x| (x.name.as_str().into(), x.value.as_str().into())).collect())
    }
    fn more(&self, v: &Val, t: &mut Tally) -> Result<(), String> {
        let Val::Attributes(l) = v else { return Err("type".into()) };
        for (n, _) in l {
            let want = l.iter().find(|x| x.0 == *n).map(|x| x.1.as_str());
            t.eq("attribute by name", self.get(n), want)?;
        }
        for n in absent() {
            let want = l.iter().find(|x| x.0 == n).map(|x| x.1.as_str());
            t.eq("attribute by another name", self.get(n), want)?;
        }
        t.eq("attribute by absent name", self.get("no such name"), None)
    }
}
impl View for AttributesMut<'_> {
    fn val(&self) -> Val {
        Val::Attributes(self.iter().map(|x| (x.name.as_str().into(), x.value.as_str().into())).collect())
    }
}
impl View for nifty_asset_types::extensions::Links<'_> {
    fn val(&self) -> Val {
        Val::Links(self.iter().map(|x| (x.name.as_str().into(), x.uri.as_str().into())).collect())
    }
}
impl View for LinksMut<'_> {
    fn val(&self) -> Val {
        Val::Links(self.iter().map(|x| (x.name.as_str().into(), x.uri.as_str().into())).collect())
    }
}
impl View for nifty_asset_types::extensions::Blob<'_> {
    fn val(&self) -> Val {
        Val::Blob(self.content_type.as_str().into(), self.data.to_vec())
    }
}
impl View for BlobMut<'_> {
    fn val(&self) -> Val {
        Val::Blob(self.content_type.as_str().into(), self.data.to_vec())
    }
}
impl View for nifty_asset_types::extensions::Bucket<'_> {
    fn val(&self) -> Val {
        Val::Bucket(self.data.to_vec())
    }
}
impl View for BucketMut<'_> {
    fn val(&self) -> Val {
        Val::Bucket(self.data.to_vec())
    }
}
impl View for nifty_asset_types::extensions::Creators<'_> {
    fn val(&self) -> Val {
        Val::Creators(self.values.iter().map(|c| (c.address, c.verified.into(), c.share)).collect())
    }
    fn more(&self, v: &Val, t: &mut Tally) -> Result<(), String> {
        let Val::Creators(l) = v else { return Err("type".into()) };
        for k in l.iter().map(|x| x.0).chain([OWNER_TWIN, Pubkey::default()]) {
            let want = l.iter().find(|x| x.0 == k).copied();
            t.eq("creator by address", self.get(&k).map(|c| (c.address, c.verified.into(), c.share)), want)?;
        }
        Ok(())
    }
}
impl View for CreatorsMut<'_> {
    fn val(&self) -> Val {
        Val::Creators(self.creators.iter().map(|c| (c.address, c.verified.into(), c.share)).collect())
    }
}
impl View for nifty_asset_types::extensions::Metadata<'_> {
    fn val(&self) -> Val {
        Val::Metadata([&self.symbol, &self.description, &self.uri, &self.image_uri].map(|s| Some(s.as_str().into())))
    }
}
impl View for MetadataMut<'_> {
    fn val(&self) -> Val {
        Val::Metadata([&self.symbol, &self.description, &self.uri, &self.image_uri].map(|s| Some(s.as_str().into())))
    }
}
impl View for nifty_asset_types::extensions::Grouping<'_> {
    fn val(&self) -> Val {
        Val::Grouping(*self.size, self.max_size.value().map(|x| **x), self.delegate.value().map(|x| **x))
    }
}
impl View for GroupingMut<'_> {
    fn val(&self) -> Val {
        Val::Grouping(*self.size, self.max_size.value().map(|x| **x), self.delegate.value().map(|x| **x))
    }
}
fn rule_of(b: Vec<u8>) -> Rule {
    match Rule::parse(&b) {
        Some((r, n)) if n == b.len() => r,
        _ => panic!("constraint re-encodes to {b:?}"),
    }
}
impl View for nifty_asset_types::extensions::Royalties<'_> {
    fn val(&self) -> Val {
        Val::Royalties(*self.basis_points, rule_of(self.constraint.as_bytes()))
    }
}
impl View for RoyaltiesMut<'_> {
    fn val(&self) -> Val {
        Val::Royalties(*self.basis_points, rule_of(self.constraint.as_bytes()))
    }
}
fn some(k: &Pubkey) -> Option<Pubkey> {
    (*k != Pubkey::default()).then_some(*k)
}
impl View for nifty_asset_types::extensions::Manager<'_> {
    fn val(&self) -> Val {
        Val::Manager(some(&self.delegate.address), self.delegate.roles)
    }
}
impl View for ManagerMut<'_> {
    fn val(&self) -> Val {
        Val::Manager(some(&self.delegate.address), self.delegate.roles)
    }
}
impl View for nifty_asset_types::extensions::Proxy<'_> {
    fn val(&self) -> Val {
        Val::Proxy(*self.program, *self.seeds, *self.bump, self.authority.value().map(|x| **x))
    }
}
impl View for ProxyMut<'_> {
    fn val(&self) -> Val {
        Val::Proxy(*self.program, *self.seeds, *self.bump, some(self.authority))
    }
}
/// Values of properties through their text form (the typed access is compared in `more`).
fn prop(p: &Property) -> (String, Prop) {
    let d = format!("{:?}", p.value);
    let v = match (d.as_str(), p.value.size()) {
        ("true", 2) => Prop::B(true),
        ("false", 2) => Prop::B(false),
        (n, 9) if n.parse::<u64>().is_ok() && !n.starts_with('"') => Prop::N(n.parse().unwrap()),
        (s, _) => Prop::T(s.trim_matches('"').into()),
    };
    (p.name.as_str().into(), v)
}
macro_rules! typed {
    ($s:ident, $v:ident, $t:ident) => {{
        let Val::Properties(l) = $v else { return Err("type".into()) };
        for (n, _) in l {
            match l.iter().find(|x| x.0 == *n).map(|x| &x.1).unwrap() {
                Prop::T(s) => $t.eq("text property", $s.get::<Text>(n).map(|x| x.to_string()), Some(s.clone()))?,
                Prop::N(x) => {
                    let y = $s.get::<Number>(n);
                    $t.eq("numeric property", y.map(|y| u64::from_le_bytes(*y.value)), Some(*x))?;
                    $t.eq("numeric property", y.map(|y| unsafe { std::ptr::read_unaligned(std::ops::Deref::deref(y)) }), Some(*x))?
                }
                Prop::B(x) => $t.eq("boolean property", $s.get::<Boolean>(n).map(|y| **y), Some(*x))?,
            }
        }
        for n in absent() {
            if !l.iter().any(|x| x.0 == n) {
                $t.eq("absent property", $s.get::<Number>(n).is_none(), true)?;
            }
        }
        $t.eq("absent property", $s.get::<Number>("no such name").is_none(), true)
    }};
}
impl View for nifty_asset_types::extensions::Properties<'_> {
    fn val(&self) -> Val {
        Val::Properties(self.iter().map(prop).collect())
    }
    fn more(&self, v: &Val, t: &mut Tally) -> Result<(), String> {
        typed!(self, v, t)
    }
}
impl View for PropertiesMut<'_> {
    fn val(&self) -> Val {
        Val::Properties(self.iter().map(prop).collect())
    }
    fn more(&self, v: &Val, t: &mut Tally) -> Result<(), String> {
        typed!(self, v, t)
    }
}

// ---- domains ----------------------------------------------------------------------------------

fn words() -> Vec<String> {
    vec!["".into(), "a".into(), "name".into(), "é→x".into()]
}

/// Names that are easily taken for one another.
fn absent() -> [&'static str; 12] {
    ["", " ", "a", "A", "ab", "ba", "a ", " a", "aa", "nam", "Name", "e→x"]
}

/// Pairs of such names, in every order, and three of them.
fn alike() -> Vec<Vec<String>> {
    let n = absent();
    let mut v = vec![];
    for a in n {
        for b in n {
            v.push(vec![a.into(), b.into()]);
            v.push(vec![b.into(), "name".into(), a.into()]);
        }
    }
    v
}

fn lists<T: Clone>(of: &[T], n: usize) -> Vec<Vec<T>> {
    let mut all = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = all.len();
        for i in from..to {
            for x in of {
                let mut l: Vec<T> = all[i].clone();
                l.push(x.clone());
                all.push(l);
            }
        }
        from = to;
    }
    all
}

pub fn values(thorough: bool) -> Vec<Val> {
    let mut v = vec![];
    let long = "x".repeat(255);
    let mut w = words();
    let mut pairs = vec![];
    for a in &w {
        for b in &w {
            pairs.push((a.clone(), b.clone()));
        }
    }
    let n = if thorough { 4 } else { 3 };
    for l in lists(&pairs, n).into_iter().chain([
        vec![(long.clone(), long.clone()), ("a".into(), "b".into())],
        (0..20).map(|i| (format!("n{i}"), format!("v{i}"))).collect(),
        (0..300).map(|i| (format!("n{i}"), format!("v{i}"))).collect(),
    ]) {
        v.push(Attributes(l.clone()));
        v.push(Links(l));
    }
    for l in alike() {
        let l: Vec<(String, String)> = l.into_iter().enumerate().map(|(i, n)| (n, format!("v{i}"))).collect();
        v.push(Attributes(l.clone()));
        v.push(Links(l.clone()));
        v.push(Properties(l.iter().map(|(n, x)| (n.clone(), Prop::T(x.clone()))).collect()));
        v.push(Properties(l.iter().enumerate().map(|(i, (n, _))| (n.clone(), Prop::N(i as u64))).collect()));
    }
    w.push(long.clone());
    for c in &w {
        for n in [0usize, 1, 2, 7, 8, 9, 300] {
            v.push(Blob(c.clone(), (0..n).map(|i| (i * 7 + 1) as u8).collect()));
        }
    }
    v.push(Blob("a".into(), vec![3; 70_000]));
    for n in (0..20).chain([255, 256, 300, 65_536]) {
        v.push(Bucket((0..n).map(|i| (i * 5 + 3) as u8).collect()));
    }
    let mut cr = vec![];
    for k in [C1, C2, OWNER_TWIN] {
        for s in [0u8, 100, 255] {
            cr.push((k, s == 100, s));
            cr.push((k, s != 100, s));
        }
    }
    for l in lists(&cr, if thorough { 3 } else { 2 }) {
        v.push(Creators(l));
    }
    let mut many: Vec<_> = (0..255u8).map(|i| (Pubkey::new_from_array([i; 32]), i % 3 == 0, i)).collect();
    v.push(Creators(many.clone()));
    many.push((C1, true, 1));
    many.push((C2, false, 2));
    v.push(Creators(many));
    let mut ow: Vec<Option<String>> = vec![None];
    ow.extend(w.iter().cloned().map(Some));
    for a in &ow {
        for b in &ow {
            for c in &ow {
                for d in &ow {
                    v.push(Metadata([a.clone(), b.clone(), c.clone(), d.clone()]));
                }
            }
        }
    }
    let keys = [None, Some(C1), Some(OWNER_TWIN), Some(Pubkey::new_from_array([255; 32]))];
    for m in [None, Some(1u64), Some(255), Some(256), Some(u64::MAX)] {
        for d in keys {
            v.push(Grouping(0, m, d));
        }
    }
    for r in crate::sc_group::rules(false) {
        for n in [0u64, 1, 500, 10000, 1 << 40] {
            v.push(Royalties(n, r.clone()));
        }
    }
    for k in keys {
        for r in 0..8 {
            v.push(Manager(k, r));
        }
    }
    for p in keys.iter().flatten() {
        for s in [[0u8; 32], [1; 32], [255; 32]] {
            for b in [0u8, 1, 254, 255] {
                for a in keys {
                    v.push(Proxy(*p, s, b, a));
                }
            }
        }
    }
    let mut props = vec![];
    for n in ["", "n", "flag"] {
        for p in [
            Prop::T("".into()),
            Prop::T("txt".into()),
            Prop::N(0),
            Prop::N(0x0102_0304_0506_0708),
            Prop::B(true),
            Prop::B(false),
        ] {
            props.push((n.to_string(), p));
        }
    }
    for l in lists(&props, if thorough { 3 } else { 2 }) {
        v.push(Properties(l));
    }
    v.push(Properties((0..300u64).map(|i| (format!("n{i}"), if i % 3 == 0 { Prop::N(i) } else { Prop::T(format!("v{i}")) })).collect()));
    v.push(Properties(vec![(long.clone(), Prop::T(long)), ("z".into(), Prop::N(u64::MAX)), ("y".into(), Prop::B(true))]));
    v
}

/// Neighbours in the account.
fn places() -> Vec<(Vec<u32>, Vec<u32>, usize)> {
    let mut v = vec![];
    for before in [vec![], vec![ty::BUCKET], vec![ty::LINKS, ty::BUCKET], vec![ty::MANAGER], vec![ty::CREATORS, ty::GROUPING]] {
        for after in [vec![], vec![ty::ATTRIBUTES], vec![ty::BLOB, ty::ROYALTIES]] {
            for slack in [0usize, 16, 24] {
                v.push((before.clone(), after.clone(), slack));
            }
        }
    }
    v.push((vec![ty::LINKS, NEWER], vec![NEWER, ty::BLOB], 8));
    v.push((vec![ty::LINKS, FAR], vec![ty::BLOB], 8));
    v
}

/// A neighbour that takes up more than 64 KiB.
const FAR: u32 = 1000;

/// A neighbour of a type which this version does not know.
const NEWER: u32 = 200;

fn differ(t: u32, v: &Val) -> bool {
    t != v.ty() && !(t == FAR && v.ty() == ty::BUCKET)
}

fn neighbour(t: u32) -> Vec<u8> {
    match t {
        ty::BUCKET => vec![5, 5, 5],
        FAR => vec![6; 70_001],
        NEWER => vec![9; 21],
        t => crate::sc_ext::contents(t)[0].clone(),
    }
}

fn placed(v: &Val, p: &(Vec<u32>, Vec<u32>, usize)) -> Vec<u8> {
    let mut b = Build::new(OWNER, AUTH);
    for t in p.0.iter().filter(|t| differ(**t, v)) {
        b = b.ext(if *t == FAR { ty::BUCKET } else { *t }, neighbour(*t));
    }
    b = b.ext(v.ty(), v.bytes());
    for t in p.1.iter().filter(|t| differ(**t, v)) {
        b = b.ext(*t, neighbour(*t));
    }
    b.slack(p.2).bytes()
}

macro_rules! with_type {
    ($v:expr, $f:ident ! ($($x:tt)*)) => {
        match $v {
            Attributes(_) => $f!(nifty_asset_types::extensions::Attributes, AttributesMut, $($x)*),
            Blob(..) => $f!(nifty_asset_types::extensions::Blob, BlobMut, $($x)*),
            Creators(_) => $f!(nifty_asset_types::extensions::Creators, CreatorsMut, $($x)*),
            Links(_) => $f!(nifty_asset_types::extensions::Links, LinksMut, $($x)*),
            Metadata(_) => $f!(nifty_asset_types::extensions::Metadata, MetadataMut, $($x)*),
            Grouping(..) => $f!(nifty_asset_types::extensions::Grouping, GroupingMut, $($x)*),
            Royalties(..) => $f!(nifty_asset_types::extensions::Royalties, RoyaltiesMut, $($x)*),
            Manager(..) => $f!(nifty_asset_types::extensions::Manager, ManagerMut, $($x)*),
            Proxy(..) => $f!(nifty_asset_types::extensions::Proxy, ProxyMut, $($x)*),
            Properties(_) => $f!(nifty_asset_types::extensions::Properties, PropertiesMut, $($x)*),
            Bucket(_) => $f!(nifty_asset_types::extensions::Bucket, BucketMut, $($x)*),
        }
    };
}

fn lookups(v: &Val, p: &(Vec<u32>, Vec<u32>, usize), t: &mut Tally) -> Result<(), String> {
    let d = placed(v, p);
    t.state(&d);
    let mut a = Aligned::new(&d);
    let b = a.bytes();
    let et = ExtensionType::try_from(v.ty()).map_err(|_| "type unknown")?;
    t.check("contains", Asset::contains(et, b))?;
    let own = v.ty();
    let (before, after) = (p.0.iter().filter(|x| differ(**x, v)), p.1.iter().filter(|x| differ(**x, v)));
    let known: Vec<u32> =
        before.chain([&own]).chain(after).filter(|x| **x != NEWER).map(|x| if *x == FAR { ty::BUCKET } else { *x }).collect();
    t.eq("list of the extensions", Asset::get_extensions(b).iter().map(|x| *x as u32).collect::<Vec<_>>(), known)?;
    let (h, o) = Asset::get_extension(et, b).ok_or("get_extension finds nothing")?;
    let n = v.bytes().len();
    t.eq("extension header", (h.extension_type() as u32, h.length() as usize), (v.ty(), n))?;
    t.eq("extension content", &b[o..o + n], &v.bytes()[..])?;
    t.check("extension boundary", h.boundary() as usize == (o + n + 7) / 8 * 8)?;
    macro_rules! ro {
        ($t:ty, $m:ty, $b:expr) => {{
            let x = Asset::get::<$t>($b).ok_or("Asset::get finds nothing")?;
            v.reads(&x, t)?;
            t.eq("length()", ExtensionData::length(&x), n)?;
            let y = Extension::get::<$t>(&$b[HDR..]).ok_or("Extension::get finds nothing")?;
            v.reads(&y, t)?;
            t.eq("type", <$t as ExtensionData>::TYPE as u32, v.ty())?;
        }};
    }
    with_type!(v, ro!(b));
    let b = a.bytes_mut();
    macro_rules! rw {
        ($t:ty, $m:ty, $b:expr) => {{
            {
                let x = Asset::get_mut::<$m>($b).ok_or("Asset::get_mut finds nothing")?;
                v.reads(&x, t)?;
            }
            let y = Extension::get_mut::<$m>(&mut $b[HDR..]).ok_or("Extension::get_mut finds nothing")?;
            v.reads(&y, t)?;
            t.eq("type", <$m as ExtensionDataMut>::TYPE as u32, v.ty())?;
        }};
    }
    with_type!(v, rw!(b));
    t.eq("account after reading", a.bytes(), &d[..])?;
    // without it
    let mut w = Build::new(OWNER, AUTH);
    for x in p.0.iter().chain(&p.1).filter(|x| differ(**x, v)) {
        w = w.ext(if *x == FAR { ty::BUCKET } else { *x }, neighbour(*x));
    }
    let d = w.slack(p.2).bytes();
    let mut a = Aligned::new(&d);
    let b = a.bytes();
    t.check("absent extension found by contains", !Asset::contains(et, b))?;
    t.check("absent extension found by get_extension", Asset::get_extension(et, b).is_none())?;
    macro_rules! none {
        ($t:ty, $m:ty, $b:expr) => {{
            t.check("absent extension found by Asset::get", Asset::get::<$t>($b).is_none())?;
            t.check("absent extension found by Extension::get", Extension::get::<$t>(&$b[HDR..]).is_none())?;
            t.check("absent extension found by Asset::get_mut", Asset::get_mut::<$m>($b).is_none())?;
            t.check("absent extension found by Extension::get_mut", Extension::get_mut::<$m>(&mut $b[HDR..]).is_none())?;
        }};
    }
    let b = a.bytes_mut();
    with_type!(v, none!(b));
    let _ = EXT;
    Ok(())
}

/// Every in-place modification of one value: (what it becomes, how).
type Edit = (Val, Box<dyn Fn(&mut [u8])>);

fn fit(old: &str, new: &str) -> String {
    // same room, cut or filled up with zeros
    let mut b: Vec<u8> = new.bytes().take(old.len()).collect();
    b.resize(old.len(), 0);
    String::from_utf8(b).unwrap()
}

fn edits(v: &Val, b: &mut Vec<Edit>) {
    let words = ["", "q", "QQQQQQQQ"];
    match v.clone() {
        Links(l) => {
            for i in 0..l.len() {
                for w in words {
                    let mut n = l.clone();
                    n[i].0 = fit(&l[i].0, w);
                    b.push((Links(n), Box::new(move |d| {
                        Asset::get_mut::<LinksMut>(d).unwrap().values[i].name.copy_from_str(w)
                    })));
                    let mut n = l.clone();
                    n[i].1 = fit(&l[i].1, w);
                    b.push((Links(n), Box::new(move |d| {
                        Asset::get_mut::<LinksMut>(d).unwrap().values[i].uri.copy_from_str(w)
                    })));
                }
            }
        }
        Blob(c, d) => {
            for w in words {
                b.push((Blob(fit(&c, w), d.clone()), Box::new(move |x| {
                    Asset::get_mut::<BlobMut>(x).unwrap().content_type.copy_from_str(w)
                })));
            }
            for i in 0..d.len().min(10) {
                let mut n = d.clone();
                n[i] = 0xfe;
                b.push((Blob(c.clone(), n), Box::new(move |x| Asset::get_mut::<BlobMut>(x).unwrap().data[i] = 0xfe)));
            }
        }
        Bucket(d) => {
            for i in 0..d.len() {
                let mut n = d.clone();
                n[i] = 0xfe;
                b.push((Bucket(n), Box::new(move |x| Asset::get_mut::<BucketMut>(x).unwrap().data[i] = 0xfe)));
            }
        }
        Creators(l) => {
            if l.len() > 10 {
                return;
            }
            for i in 0..l.len() {
                let mut n = l.clone();
                n[i].2 = 77;
                b.push((Creators(n), Box::new(move |x| Asset::get_mut::<CreatorsMut>(x).unwrap().creators[i].share = 77)));
                let k = l[i].0;
                let j = l.iter().position(|x| x.0 == k).unwrap();
                let mut n = l.clone();
                n[j].1 = !n[j].1;
                let f = n[j].1;
                b.push((Creators(n), Box::new(move |x| {
                    Asset::get_mut::<CreatorsMut>(x).unwrap().get(&k).unwrap().verified = f.into()
                })));
            }
        }
        Metadata(m) => {
            let m = m.map(|x| x.unwrap_or_default());
            for i in 0..4 {
                for w in words {
                    let mut n = m.clone();
                    n[i] = fit(&m[i], w);
                    b.push((Metadata(n.map(Some)), Box::new(move |x| {
                        let mut y = Asset::get_mut::<MetadataMut>(x).unwrap();
                        let f = match i {
                            0 => &mut y.symbol,
                            1 => &mut y.description,
                            2 => &mut y.uri,
                            _ => &mut y.image_uri,
                        };
                        f.copy_from_str(w)
                    })));
                }
            }
        }
        Grouping(n, m, d) => {
            b.push((Grouping(9, m, d), Box::new(|x| *Asset::get_mut::<GroupingMut>(x).unwrap().size = 9)));
            b.push((Grouping(n, Some(8), d), Box::new(|x| {
                *Asset::get_mut::<GroupingMut>(x).unwrap().max_size =
                    nifty_asset_types::podded::pod::PodOption::new(NullableU64::new(8))
            })));
            b.push((Grouping(n, m, Some(C3)), Box::new(|x| {
                *Asset::get_mut::<GroupingMut>(x).unwrap().delegate =
                    nifty_asset_types::podded::pod::PodOption::new(NullablePubkey::new(C3))
            })));
        }
        Royalties(_, r) => {
            b.push((Royalties(4242, r), Box::new(|x| *Asset::get_mut::<RoyaltiesMut>(x).unwrap().basis_points = 4242)))
        }
        Manager(k, r) => {
            b.push((Manager(Some(C3), r), Box::new(|x| {
                Asset::get_mut::<ManagerMut>(x).unwrap().delegate.address = NullablePubkey::new(C3)
            })));
            b.push((Manager(k, r ^ 7), Box::new(move |x| {
                Asset::get_mut::<ManagerMut>(x).unwrap().delegate.roles = r ^ 7
            })));
        }
        Proxy(p, s, n, a) => {
            b.push((Proxy(C3, s, n, a), Box::new(|x| *Asset::get_mut::<ProxyMut>(x).unwrap().program = C3)));
            b.push((Proxy(p, [9; 32], n, a), Box::new(|x| *Asset::get_mut::<ProxyMut>(x).unwrap().seeds = [9; 32])));
            b.push((Proxy(p, s, 99, a), Box::new(|x| *Asset::get_mut::<ProxyMut>(x).unwrap().bump = 99)));
            b.push((Proxy(p, s, n, Some(C3)), Box::new(|x| *Asset::get_mut::<ProxyMut>(x).unwrap().authority = C3)));
        }
        Attributes(_) | Properties(_) => (),
    }
}

pub fn one(v: &Val, places: &[(Vec<u32>, Vec<u32>, usize)], t: &mut Tally) -> Result<(), String> {
    let want = v.bytes();
    for mode in 0..5 {
        let got = v.build(mode, t)?;
        t.eq(&format!("data built (way {mode})"), got, want.clone())?;
    }
    if let Some((a, b)) = v.old_properties() {
        t.eq("data built with typed methods", a, want.clone())?;
        t.eq("data built from owned strings", b, want.clone())?;
    }
    for p in places {
        lookups(v, p, t)?;
    }
    let mut es = vec![];
    edits(v, &mut es);
    let p = &places[places.len() - 1];
    let base = placed(v, p);
    for (n, f) in &es {
        let mut a = Aligned::new(&base);
        f(a.bytes_mut());
        t.eq("account after modifying a value in place", a.bytes(), &placed(n, p)[..])?;
    }
    Ok(())
}

pub fn run(mask: Tags, thorough: bool) -> (Stats, Vec<Found>) {
    let vals = values(thorough);
    let pl = places();
    let few: Vec<_> = [0, 10, 20, 31, 44, 45].iter().map(|i| pl[*i].clone()).collect();
    let items: Vec<(usize, Val)> = vals.into_iter().enumerate().collect();
    enumerate("extension-values", P19, mask, &items, |(i, v), t| {
        one(v, if i % 7 == 0 || thorough { &pl } else { &few }, t)
    })
}

/// Role arithmetic and the header of an account.
pub fn headers(mask: Tags) -> (Stats, Vec<Found>) {
    use nifty_asset_types::state::DelegateRole as R;
    let mut items = vec![];
    for state in 0..2u8 {
        for std in 0..4u8 {
            for mutable in 0..2u8 {
                for group in [Pubkey::default(), G1] {
                    for (del, roles) in [(Pubkey::default(), 0u8), (DEL, 1), (DEL, 2), (DEL, 3), (DEL, 4), (DEL, 5), (DEL, 6), (DEL, 7)] {
                        for name in ["", "x", "a name of exactly thirty five bytes.", "a name of thirty-four bytes, ok it "] {
                            let mut b = Build::new(OWNER, AUTH).std(std).locked(state == 1).mutable(mutable == 1).group(group).delegate(del, roles);
                            b.a.name = name.bytes().take(35).collect();
                            b.a.name.resize(35, 0);
                            items.push(b.bytes());
                        }
                    }
                }
            }
        }
    }
    enumerate("account-headers", P19 | crate::spec::P20 | crate::spec::P03, mask, &items, |d, t| {
        t.state(d);
        let a = Aligned::new(d);
        let x = Asset::load(a.bytes());
        let w = crate::view::Asset::parse(d).unwrap();
        t.eq("discriminator", x.discriminator as u8, w.disc)?;
        t.eq("state", x.state as u8, w.state)?;
        t.eq("standard", x.standard as u8, w.standard)?;
        t.eq("mutable", <_ as Into<bool>>::into(x.mutable), w.mutable == 1)?;
        t.eq("owner", x.owner, w.owner)?;
        t.eq("group", x.group.value().map(|k| **k), some(&w.group))?;
        t.eq("authority", x.authority, w.authority)?;
        t.eq("delegate", x.delegate.value().map(|k| (*k.address, k.roles)), some(&w.delegate).map(|k| (k, w.roles)))?;
        let name: Vec<u8> = w.name.iter().copied().take_while(|c| *c != 0).collect();
        t.eq("name", (&*x.name).as_bytes().to_vec(), name)?;
        for r in 0..8u8 {
            let d = Delegate { address: NullablePubkey::new(DEL), roles: r };
            let all = [R::Transfer, R::Lock, R::Burn];
            t.eq("any role", d.has_active_roles(), r != 0)?;
            let mut list = vec![];
            for (i, q) in all.iter().enumerate() {
                t.eq("role active", d.is_active(*q), r >> i & 1 == 1)?;
                let (mut e, mut f) = (d, d);
                e.enable(*q);
                f.disable(*q);
                t.eq("role enabled", e.roles, r | 1 << i)?;
                t.eq("role disabled", f.roles, r & !(1 << i))?;
                if r >> i & 1 == 1 {
                    list.push(*q);
                }
            }
            if r == 0 {
                list.push(R::None);
            }
            t.eq("decoded roles", Delegate::decode_roles(r), list)?;
        }
        Ok(())
    })
}

/// Values stored before `image_uri` existed, and the smaller services of the library.
pub fn details(mask: Tags) -> (Stats, Vec<Found>) {
    use nifty_asset_types::podded::pod::Nullable;
    #[derive(Clone, Debug)]
    enum Item {
        Old([String; 3], usize),
        Typed(Val),
        Key(Pubkey),
        Number(u64),
        Rest,
    }
    let mut items = vec![Item::Rest];
    let w = words();
    for i in 0..w.len().pow(3) {
        let m = [w[i % 4].clone(), w[i / 4 % 4].clone(), w[i / 16].clone()];
        items.extend((0..places().len()).map(|p| Item::Old(m.clone(), p)));
    }
    items.extend(values(false).into_iter().map(Item::Typed));
    items.extend([Pubkey::default(), OWNER, OWNER_TWIN, crate::op::ASSET, Pubkey::new_from_array([255; 32])].map(Item::Key));
    items.extend((0..32).map(|i| {
        let mut k = [0; 32];
        k[i] = 1;
        Item::Key(Pubkey::new_from_array(k))
    }));
    items.extend((0..64).map(|i| Item::Number(1 << i)).chain([Item::Number(0), Item::Number(u64::MAX)]));
    enumerate("library-details", P19, mask, &items, |x, t| match x {
        Item::Old(m, p) => {
            let p = &places()[*p];
            let v = Metadata([Some(m[0].clone()), Some(m[1].clone()), Some(m[2].clone()), None]);
            let bytes: Vec<u8> = m.iter().flat_map(|x| st(x)).collect();
            let mut b = Build::new(OWNER, AUTH);
            for n in p.0.iter().filter(|n| differ(**n, &v)) {
                b = b.ext(if *n == FAR { ty::BUCKET } else { *n }, neighbour(*n));
            }
            b = b.ext(ty::METADATA, bytes.clone());
            for n in p.1.iter().filter(|n| differ(**n, &v)) {
                b = b.ext(*n, neighbour(*n));
            }
            let d = b.slack(p.2).bytes();
            t.state(&d);
            let mut a = Aligned::new(&d);
            let x = Asset::get::<nifty_asset_types::extensions::Metadata>(a.bytes()).ok_or("no metadata without image found")?;
            v.reads(&x, t)?;
            let x = Extension::get::<nifty_asset_types::extensions::Metadata>(&a.bytes()[HDR..]).ok_or("no metadata without image found")?;
            v.reads(&x, t)?;
            {
                let x = Asset::get_mut::<MetadataMut>(a.bytes_mut()).ok_or("no metadata without image found to modify")?;
                v.reads(&x, t)?;
            }
            t.eq("account after reading", a.bytes(), &d[..])?;
            // the three values can be changed
            for i in 0..3 {
                for new in ["", "q", "QQQQ"] {
                    let mut a = Aligned::new(&d);
                    {
                        let mut y = Asset::get_mut::<MetadataMut>(a.bytes_mut()).unwrap();
                        [&mut y.symbol, &mut y.description, &mut y.uri][i].copy_from_str(new);
                    }
                    let mut n = m.clone();
                    n[i] = fit(&m[i], new);
                    let x = Asset::get::<nifty_asset_types::extensions::Metadata>(a.bytes()).ok_or("gone after a change")?;
                    Metadata([Some(n[0].clone()), Some(n[1].clone()), Some(n[2].clone()), None]).reads(&x, t)?;
                }
            }
            Ok(())
        }
        Item::Typed(v) => {
            let mut d = Aligned::new(&v.bytes());
            match v {
                Attributes(l) => {
                    for (a, (n, x)) in nifty_asset_types::extensions::Attributes::from_bytes(d.bytes()).iter().zip(l) {
                        t.eq("length of a trait", a.length(), n.len() + x.len() + 2)?;
                    }
                    for (a, (n, x)) in AttributesMut::from_bytes_mut(d.bytes_mut()).iter().zip(l) {
                        t.eq("length of a trait", a.length(), n.len() + x.len() + 2)?;
                    }
                }
                Links(l) => {
                    for (a, (n, x)) in nifty_asset_types::extensions::Links::from_bytes(d.bytes()).iter().zip(l) {
                        t.eq("length of a link", a.length(), n.len() + x.len() + 2)?;
                    }
                    for (a, (n, x)) in LinksMut::from_bytes_mut(d.bytes_mut()).iter().zip(l) {
                        t.eq("length of a link", a.length(), n.len() + x.len() + 2)?;
                    }
                }
                Manager(k, r) => {
                    let e = Delegate { address: NullablePubkey::new(k.unwrap_or_default()), roles: *r };
                    let mut b = ManagerBuilder::default();
                    b.set(&e);
                    v.reads(&b.build(), t)?;
                    t.eq("data of the builder", b.data(), v.bytes())?;
                    t.eq("data of the emptied builder", b.data(), vec![])?;
                    t.eq("delegate is none", e.is_none(), k.is_none())?;
                    t.eq("delegate is some", e.is_some(), k.is_some())?;
                }
                Proxy(p, s, n, a) => {
                    let mut b = ProxyBuilder::default();
                    b.set(p, s, *n, a.as_ref());
                    v.reads(&b.build(), t)?;
                    t.eq("data of the builder", b.data(), v.bytes())?;
                    t.eq("data of the emptied builder", b.data(), vec![])?;
                }
                Properties(l) => {
                    let names: Vec<String> = l.iter().map(|x| x.0.clone()).chain(["no such name".into(), "".into()]).collect();
                    for n in names.iter().take(20) {
                        let mut d = Aligned::new(&v.bytes());
                        let mut x = PropertiesMut::from_bytes_mut(d.bytes_mut());
                        x.remove(n);
                        let want = Properties(l.iter().filter(|y| y.0 != *n).cloned().collect());
                        want.reads(&x, t)?;
                    }
                }
                _ => (),
            }
            Ok(())
        }
        Item::Key(k) => {
            let none = *k == Pubkey::default();
            let mut n = NullablePubkey::new(*k);
            t.eq("key is none", (n.is_none(), n.is_some()), (none, !none))?;
            t.eq("key", *n, *k)?;
            t.eq("key from a key", (*NullablePubkey::from(*k), *NullablePubkey::from(k)), (*k, *k))?;
            *n = C3;
            t.eq("key replaced", (*n, n.is_some()), (C3, true))?;
            let d = Delegate { address: NullablePubkey::new(*k), roles: 7 };
            t.eq("delegate is none", (d.is_none(), d.is_some()), (none, !none))
        }
        Item::Number(x) => {
            let mut n = NullableU64::new(*x);
            t.eq("number is none", (n.is_none(), n.is_some()), (*x == 0, *x != 0))?;
            t.eq("number", *n, *x)?;
            *n = 9;
            t.eq("number replaced", (*n, n.is_some()), (9, true))
        }
        Item::Rest => {
            use nifty_asset::RoyaltiesKind::*;
            t.eq("kinds of royalties", (Allowlist.into_data(), Denylist.into_data()), (0, 1))
        }
    })
}
