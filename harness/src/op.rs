//! Typed instructions of the asset program with an encoder written from the documented wire
//! format (borsh), independent of the repository's own encoders.

use crate::vm::{Ix, Meta};
use solana_program::pubkey::Pubkey;

pub const ASSET: Pubkey = solana_program::pubkey!("AssetGtQBTSgm5s91d1RAQod5JmaZiJDxqsgtqrZud73");

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Deleg {
    All,
    Some(Vec<u8>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct ExtIn {
    pub ty: u8,
    pub len: u32,
    pub data: Option<Vec<u8>>,
}

impl ExtIn {
    pub fn full(ty: u8, data: Vec<u8>) -> Self {
        ExtIn { ty, len: data.len() as u32, data: Some(data) }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct CreateIn {
    pub name: Vec<u8>,
    pub standard: u8,
    pub mutable: bool,
    pub exts: Option<Vec<ExtIn>>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct UpdateIn {
    pub name: Option<Vec<u8>>,
    pub mutable: Option<bool>,
    pub ext: Option<ExtIn>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ins {
    Close,
    Burn,
    Create(CreateIn),
    Approve(Deleg),
    Allocate(ExtIn),
    Lock,
    Revoke(Deleg),
    Transfer,
    Unlock,
    Unverify,
    Update(UpdateIn),
    Verify,
    Write { overwrite: bool, bytes: Vec<u8> },
    Group,
    Ungroup,
    Handover,
    Remove(u8),
    Trim,
    Extend(u16),
    /// `Create` of the example proxy program
    ProxyCreate(Vec<u8>),
    /// bytes that are no instruction, and why
    Raw(Vec<u8>, &'static str),
}

pub const S: u8 = 1;
pub const W: u8 = 2;
pub const O: u8 = 4;

impl Ins {
    pub fn name(&self) -> &'static str {
        match self {
            Ins::Close => "Close",
            Ins::Burn => "Burn",
            Ins::Create(_) => "Create",
            Ins::Approve(_) => "Approve",
            Ins::Allocate(_) => "Allocate",
            Ins::Lock => "Lock",
            Ins::Revoke(_) => "Revoke",
            Ins::Transfer => "Transfer",
            Ins::Unlock => "Unlock",
            Ins::Unverify => "Unverify",
            Ins::Update(_) => "Update",
            Ins::Verify => "Verify",
            Ins::Write { .. } => "Write",
            Ins::Group => "Group",
            Ins::Ungroup => "Ungroup",
            Ins::Handover => "Handover",
            Ins::Remove(_) => "Remove",
            Ins::Trim => "Resize(Trim)",
            Ins::Extend(_) => "Resize(Extend)",
            Ins::ProxyCreate(_) => "proxy Create",
            Ins::Raw(..) => "invalid data",
        }
    }

    /// Documented account list: flags S(igner) W(ritable) O(ptional).
    pub fn slots(&self) -> &'static [(&'static str, u8)] {
        match self {
            Ins::Close => &[("buffer", S | W), ("recipient", W)],
            Ins::Burn => &[("asset", W), ("signer", S | W), ("recipient", W | O), ("group", W | O)],
            Ins::Create(_) => &[
                ("asset", S | W),
                ("authority", 0),
                ("owner", 0),
                ("group", W | O),
                ("group_authority", S | O),
                ("payer", S | W | O),
                ("system", O),
            ],
            Ins::Approve(_) => &[("asset", W), ("owner", S), ("delegate", 0)],
            Ins::Allocate(_) => &[("asset", S | W), ("payer", S | W | O), ("system", O)],
            Ins::Lock | Ins::Unlock | Ins::Revoke(_) => &[("asset", W), ("signer", S)],
            Ins::Transfer => &[("asset", W), ("signer", S), ("recipient", 0), ("group", O)],
            Ins::Verify | Ins::Unverify => &[("asset", W), ("creator", S)],
            Ins::Update(_) => &[
                ("asset", W),
                ("authority", S),
                ("buffer", W | O),
                ("group", O),
                ("payer", S | W | O),
                ("system", O),
            ],
            Ins::Write { .. } => &[("asset", S | W), ("payer", S | W), ("system", 0)],
            Ins::Group | Ins::Ungroup => &[("asset", W), ("group", W), ("authority", S)],
            Ins::Handover => &[("asset", W), ("authority", S), ("new_authority", S)],
            Ins::Remove(_) => &[("asset", W), ("authority", S), ("group", O), ("recipient", W)],
            Ins::ProxyCreate(_) => &[
                ("asset", W),
                ("stub", S),
                ("owner", 0),
                ("authority", S),
                ("payer", S | W | O),
                ("system", O),
                ("asset_program", 0),
            ],
            Ins::Raw(..) => &[],
            Ins::Trim | Ins::Extend(_) => {
                &[("asset", W), ("authority", S), ("payer", S | W), ("system", O)]
            }
        }
    }

    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        match self {
            Ins::Close => o.push(0),
            Ins::Burn => o.push(1),
            Ins::Create(c) => {
                o.push(2);
                bytes(&mut o, &c.name);
                o.push(c.standard);
                o.push(c.mutable as u8);
                match &c.exts {
                    None => o.push(0),
                    Some(v) => {
                        o.push(1);
                        o.extend((v.len() as u32).to_le_bytes());
                        for e in v {
                            ext(&mut o, e);
                        }
                    }
                }
            }
            Ins::Approve(d) => {
                o.push(3);
                deleg(&mut o, d);
            }
            Ins::Allocate(e) => {
                o.push(4);
                ext(&mut o, e);
            }
            Ins::Lock => o.push(5),
            Ins::Revoke(d) => {
                o.push(6);
                deleg(&mut o, d);
            }
            Ins::Transfer => o.push(7),
            Ins::Unlock => o.push(8),
            Ins::Unverify => o.push(9),
            Ins::Update(u) => {
                o.push(10);
                match &u.name {
                    None => o.push(0),
                    Some(n) => {
                        o.push(1);
                        bytes(&mut o, n);
                    }
                }
                match u.mutable {
                    None => o.push(0),
                    Some(m) => o.extend([1, m as u8]),
                }
                match &u.ext {
                    None => o.push(0),
                    Some(e) => {
                        o.push(1);
                        ext(&mut o, e);
                    }
                }
            }
            Ins::Verify => o.push(11),
            Ins::Write { overwrite, bytes: b } => {
                o.push(12);
                o.push(*overwrite as u8);
                bytes(&mut o, b);
            }
            Ins::Group => o.push(13),
            Ins::Ungroup => o.push(14),
            Ins::Handover => o.push(15),
            Ins::Remove(t) => o.extend([16, *t]),
            Ins::Trim => o.extend([17, 0]),
            Ins::Extend(v) => {
                o.extend([17, 1]);
                o.extend(v.to_le_bytes());
            }
            Ins::ProxyCreate(n) => {
                o.push(0);
                bytes(&mut o, n);
            }
            Ins::Raw(b, _) => o.extend(b),
        }
        o
    }
}

fn bytes(o: &mut Vec<u8>, b: &[u8]) {
    o.extend((b.len() as u32).to_le_bytes());
    o.extend(b);
}

fn deleg(o: &mut Vec<u8>, d: &Deleg) {
    match d {
        Deleg::All => o.push(0),
        Deleg::Some(r) => {
            o.push(1);
            bytes(o, r);
        }
    }
}

fn ext(o: &mut Vec<u8>, e: &ExtIn) {
    o.push(e.ty);
    o.extend(e.len.to_le_bytes());
    match &e.data {
        None => o.push(0),
        Some(d) => {
            o.push(1);
            bytes(o, d);
        }
    }
}

/// One asset-program instruction with its accounts.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Call {
    pub ins: Ins,
    pub metas: Vec<Meta>,
}

impl Call {
    /// Accounts in the documented order with the documented flags; `None` = omitted optional.
    pub fn new(ins: Ins, accs: &[Option<Pubkey>]) -> Call {
        let slots = ins.slots();
        assert_eq!(slots.len(), accs.len(), "{}", ins.name());
        let metas = slots
            .iter()
            .zip(accs)
            .map(|((_, f), a)| match a {
                Some(k) => Meta { key: *k, signer: f & S != 0, writable: f & W != 0 },
                None => Meta { key: ASSET, signer: false, writable: false },
            })
            .collect();
        Call { ins, metas }
    }

    pub fn sign(mut self, i: usize, v: bool) -> Call {
        self.metas[i].signer = v;
        self
    }

    pub fn ix(&self) -> Ix {
        Ix { program: ASSET, metas: self.metas.clone(), data: self.ins.encode() }
    }
}

// ---- decoding --------------------------------------------------------------------------------

struct Rd<'a>(&'a [u8]);

impl Rd<'_> {
    fn take(&mut self, n: usize) -> Option<Vec<u8>> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a.to_vec())
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    fn below(&mut self, n: u8) -> Option<u8> {
        self.u8().filter(|x| *x < n)
    }
    fn flag(&mut self) -> Option<bool> {
        Some(self.below(2)? == 1)
    }
    fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn bytes(&mut self) -> Option<Vec<u8>> {
        let n = self.u32()?;
        self.take(n as usize)
    }
    fn string(&mut self) -> Option<Vec<u8>> {
        let b = self.bytes()?;
        std::str::from_utf8(&b).ok()?;
        Some(b)
    }
    fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> Option<T>) -> Option<Option<T>> {
        Some(if self.flag()? { Some(f(self)?) } else { None })
    }
    fn ext(&mut self) -> Option<ExtIn> {
        Some(ExtIn { ty: self.below(12)?, len: self.u32()?, data: self.opt(|r| r.bytes())? })
    }
    fn deleg(&mut self) -> Option<Deleg> {
        if !self.flag()? {
            return Some(Deleg::All);
        }
        let r = self.bytes()?;
        r.iter().all(|x| *x < 4).then_some(Deleg::Some(r))
    }
}

/// The instruction that the bytes spell, if they spell one exactly.
pub fn decode(b: &[u8]) -> Option<Ins> {
    let mut r = Rd(b);
    let ins = match r.u8()? {
        0 => Ins::Close,
        1 => Ins::Burn,
        2 => Ins::Create(CreateIn {
            name: r.string()?,
            standard: r.below(4)?,
            mutable: r.flag()?,
            exts: r.opt(|r| {
                let n = r.u32()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(r.ext()?);
                }
                Some(v)
            })?,
        }),
        3 => Ins::Approve(r.deleg()?),
        4 => Ins::Allocate(r.ext()?),
        5 => Ins::Lock,
        6 => Ins::Revoke(r.deleg()?),
        7 => Ins::Transfer,
        8 => Ins::Unlock,
        9 => Ins::Unverify,
        10 => Ins::Update(UpdateIn { name: r.opt(|r| r.string())?, mutable: r.opt(|r| r.flag())?, ext: r.opt(|r| r.ext())? }),
        11 => Ins::Verify,
        12 => Ins::Write { overwrite: r.flag()?, bytes: r.bytes()? },
        13 => Ins::Group,
        14 => Ins::Ungroup,
        15 => Ins::Handover,
        16 => Ins::Remove(r.below(12)?),
        17 => match r.u8()? {
            0 => Ins::Trim,
            1 => Ins::Extend(u16::from_le_bytes(r.take(2)?.try_into().unwrap())),
            _ => return None,
        },
        _ => return None,
    };
    r.0.is_empty().then_some(ins)
}
