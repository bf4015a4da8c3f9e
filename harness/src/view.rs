//! Independent decoder of the documented account layout.

use solana_program::pubkey::Pubkey;

pub const HDR: usize = 168;
pub const EXT: usize = 16;
pub const NTYPES: u32 = 11;

pub mod ty {
    pub const ATTRIBUTES: u32 = 1;
    pub const BLOB: u32 = 2;
    pub const CREATORS: u32 = 3;
    pub const LINKS: u32 = 4;
    pub const METADATA: u32 = 5;
    pub const GROUPING: u32 = 6;
    pub const ROYALTIES: u32 = 7;
    pub const MANAGER: u32 = 8;
    pub const PROXY: u32 = 9;
    pub const PROPERTIES: u32 = 10;
    pub const BUCKET: u32 = 11;
}

pub const MANAGED: u8 = 1;
pub const SOULBOUND: u8 = 2;
pub const PROXIED: u8 = 3;

pub const TRANSFER: u8 = 1;
pub const LOCK: u8 = 2;
pub const BURN: u8 = 4;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ext {
    pub ty: u32,
    pub data: Vec<u8>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Asset {
    pub disc: u8,
    pub state: u8,
    pub standard: u8,
    pub mutable: u8,
    pub owner: Pubkey,
    pub group: Pubkey,
    pub authority: Pubkey,
    pub delegate: Pubkey,
    pub roles: u8,
    pub name: Vec<u8>,
    pub exts: Vec<Ext>,
    /// end of the extension chain (account offset)
    pub end: usize,
    pub len: usize,
    /// why the chain is not well-formed (None = fine)
    pub bad: Option<String>,
}

fn key(d: &[u8]) -> Pubkey {
    Pubkey::try_from(d).unwrap()
}

pub fn u32_at(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
pub fn u64_at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}

pub fn align8(n: usize) -> usize {
    (n + 7) & !7
}

/// Chain of extensions. For a buffer under construction the last one may be incomplete.
pub fn chain(d: &[u8], buffer: bool) -> (Vec<Ext>, usize, Option<String>) {
    let mut v: Vec<Ext> = vec![];
    let mut o = HDR;
    while o + EXT <= d.len() {
        let (t, l, b) = (u32_at(d, o), u32_at(d, o + 4) as usize, u32_at(d, o + 8) as usize);
        if t == 0 {
            break;
        }
        if t > NTYPES {
            return (v, o, Some(format!("unknown extension type {t} at {o}")));
        }
        if v.iter().any(|e| e.ty == t) {
            return (v, o, Some(format!("duplicate extension type {t}")));
        }
        let want = align8(o + EXT + l);
        if b != want {
            return (v, o, Some(format!("boundary {b} of type {t} at {o}, expected {want}")));
        }
        let end = (o + EXT + l).min(d.len());
        v.push(Ext { ty: t, data: d[o + EXT..end].to_vec() });
        if b > d.len() {
            let e = if buffer {
                None
            } else {
                Some(format!("extension {t} at {o} ends at {b}, account has {}", d.len()))
            };
            return (v, d.len(), e);
        }
        o = b;
    }
    (v, o, None)
}

impl Asset {
    /// Decodes an initialised asset.
    pub fn parse(d: &[u8]) -> Option<Asset> {
        if d.len() < HDR || d[0] != 1 {
            return None;
        }
        Some(Self::parse_raw(d))
    }

    pub fn parse_any(d: &[u8]) -> Option<Asset> {
        (d.len() >= HDR).then(|| Self::parse_raw(d))
    }

    pub fn parse_raw(d: &[u8]) -> Asset {
        let (exts, end, bad) = chain(d, false);
        Asset {
            disc: d[0],
            state: d[1],
            standard: d[2],
            mutable: d[3],
            owner: key(&d[4..36]),
            group: key(&d[36..68]),
            authority: key(&d[68..100]),
            delegate: key(&d[100..132]),
            roles: d[132],
            name: d[133..168].to_vec(),
            exts,
            end,
            len: d.len(),
            bad,
        }
    }

    pub fn ext(&self, t: u32) -> Option<&[u8]> {
        self.exts.iter().find(|e| e.ty == t).map(|e| e.data.as_slice())
    }
    pub fn ext_mut(&mut self, t: u32) -> Option<&mut Vec<u8>> {
        self.exts.iter_mut().find(|e| e.ty == t).map(|e| &mut e.data)
    }
    pub fn manager(&self) -> Option<(Pubkey, u8)> {
        self.ext(ty::MANAGER).and_then(|d| (d.len() == 33).then(|| (key(&d[..32]), d[32])))
    }
    pub fn grouping(&self) -> Option<Grouping> {
        self.ext(ty::GROUPING).and_then(Grouping::parse)
    }
    pub fn creators(&self) -> Option<Vec<Creator>> {
        self.ext(ty::CREATORS).and_then(creators)
    }
    pub fn has_delegate(&self) -> bool {
        self.delegate != Pubkey::default()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Grouping {
    pub size: u64,
    pub max: u64,
    pub delegate: Pubkey,
}

impl Grouping {
    pub fn parse(d: &[u8]) -> Option<Grouping> {
        if d.len() < 16 {
            return None;
        }
        let delegate = if d.len() >= 48 { key(&d[16..48]) } else { Pubkey::default() };
        Some(Grouping { size: u64_at(d, 0), max: u64_at(d, 8), delegate })
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.size.to_le_bytes().to_vec();
        v.extend(self.max.to_le_bytes());
        v.extend(self.delegate.to_bytes());
        v
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Creator {
    pub key: Pubkey,
    pub verified: u8,
    pub share: u8,
}

pub fn creators(d: &[u8]) -> Option<Vec<Creator>> {
    if d.len() % 34 != 0 {
        return None;
    }
    Some(d.chunks(34).map(|c| Creator { key: key(&c[..32]), verified: c[32], share: c[33] }).collect())
}

pub fn creators_bytes(c: &[Creator]) -> Vec<u8> {
    c.iter()
        .flat_map(|c| {
            let mut v = c.key.to_bytes().to_vec();
            v.extend([c.verified, c.share]);
            v
        })
        .collect()
}

pub fn manager_bytes(k: &Pubkey, roles: u8) -> Vec<u8> {
    let mut v = k.to_bytes().to_vec();
    v.push(roles);
    v
}

pub fn proxy_bytes(program: &Pubkey, seeds: &[u8; 32], bump: u8, authority: &Pubkey) -> Vec<u8> {
    let mut v = program.to_bytes().to_vec();
    v.extend(seeds);
    v.push(bump);
    v.extend(authority.to_bytes());
    v
}

/// Builds raw account bytes of an initialised asset.
pub struct Build {
    pub a: Asset,
    pub slack: usize,
}

impl Build {
    pub fn new(owner: Pubkey, authority: Pubkey) -> Build {
        let mut name = b"asset".to_vec();
        name.resize(35, 0);
        Build {
            a: Asset {
                disc: 1,
                state: 0,
                standard: 0,
                mutable: 1,
                owner,
                group: Pubkey::default(),
                authority,
                delegate: Pubkey::default(),
                roles: 0,
                name,
                exts: vec![],
                end: 0,
                len: 0,
                bad: None,
            },
            slack: 0,
        }
    }
    pub fn std(mut self, s: u8) -> Self {
        self.a.standard = s;
        self
    }
    pub fn ext(mut self, t: u32, d: Vec<u8>) -> Self {
        self.a.exts.push(Ext { ty: t, data: d });
        self
    }
    pub fn group(mut self, g: Pubkey) -> Self {
        self.a.group = g;
        self
    }
    pub fn delegate(mut self, k: Pubkey, roles: u8) -> Self {
        self.a.delegate = k;
        self.a.roles = roles;
        self
    }
    pub fn mutable(mut self, m: bool) -> Self {
        self.a.mutable = m as u8;
        self
    }
    pub fn locked(mut self, m: bool) -> Self {
        self.a.state = m as u8;
        self
    }
    pub fn slack(mut self, n: usize) -> Self {
        self.slack = n;
        self
    }
    pub fn bytes(&self) -> Vec<u8> {
        let a = &self.a;
        let mut d = vec![a.disc, a.state, a.standard, a.mutable];
        d.extend(a.owner.to_bytes());
        d.extend(a.group.to_bytes());
        d.extend(a.authority.to_bytes());
        d.extend(a.delegate.to_bytes());
        d.push(a.roles);
        d.extend(&a.name);
        assert_eq!(d.len(), HDR);
        for e in &a.exts {
            let b = align8(d.len() + EXT + e.data.len());
            d.extend(e.ty.to_le_bytes());
            d.extend((e.data.len() as u32).to_le_bytes());
            d.extend((b as u32).to_le_bytes());
            d.extend(0u32.to_le_bytes());
            d.extend(&e.data);
            d.resize(b, 0);
        }
        d.resize(d.len() + self.slack, 0);
        d
    }
}
