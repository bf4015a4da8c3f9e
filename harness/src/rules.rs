//! Independent semantics of the royalty constraint language (on stored bytes and as trees).

use crate::view::{u32_at, u64_at};
use solana_program::pubkey::Pubkey;

#[derive(Clone, Debug)]
pub struct Who {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub empty: bool,
}

#[derive(Clone, Debug)]
pub struct Ctx {
    pub who: [Option<Who>; 3],
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Rule {
    And(Vec<Rule>),
    Not(Box<Rule>),
    Or(Vec<Rule>),
    Owned(u8, Vec<Pubkey>),
    Key(u8, Vec<Pubkey>),
    Empty,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum V {
    True,
    False,
    /// depends on an account that is not available
    Missing,
}

impl Rule {
    pub fn bytes(&self) -> Vec<u8> {
        let (t, body) = match self {
            Rule::And(v) => (0u32, v.iter().flat_map(|r| r.bytes()).collect::<Vec<_>>()),
            Rule::Not(r) => (1, r.bytes()),
            Rule::Or(v) => (2, v.iter().flat_map(|r| r.bytes()).collect()),
            Rule::Owned(a, k) => (3, leaf(*a, k)),
            Rule::Key(a, k) => (4, leaf(*a, k)),
            Rule::Empty => (5, vec![]),
        };
        let mut o = t.to_le_bytes().to_vec();
        o.extend((body.len() as u32).to_le_bytes());
        o.extend(body);
        o
    }

    /// Strict parse of exactly one rule at the start of `d`; returns it and its size.
    pub fn parse(d: &[u8]) -> Option<(Rule, usize)> {
        if d.len() < 8 {
            return None;
        }
        let (t, n) = (u32_at(d, 0), u32_at(d, 4) as usize);
        let body = d.get(8..8usize.checked_add(n)?)?;
        let list = |body: &[u8]| -> Option<Vec<Rule>> {
            let (mut o, mut v) = (0, vec![]);
            while o < body.len() {
                let (r, s) = Rule::parse(&body[o..])?;
                o += s;
                v.push(r);
            }
            Some(v)
        };
        let leaf = |body: &[u8]| -> Option<(u8, Vec<Pubkey>)> {
            if body.len() < 8 || (body.len() - 8) % 32 != 0 || u64_at(body, 0) > 2 {
                return None;
            }
            Some((body[0], body[8..].chunks(32).map(|c| Pubkey::try_from(c).unwrap()).collect()))
        };
        let r = match t {
            0 => Rule::And(list(body)?),
            1 => {
                let (r, s) = Rule::parse(body)?;
                if s != body.len() {
                    return None;
                }
                Rule::Not(Box::new(r))
            }
            2 => Rule::Or(list(body)?),
            3 => leaf(body).map(|(a, k)| Rule::Owned(a, k))?,
            4 => leaf(body).map(|(a, k)| Rule::Key(a, k))?,
            5 => {
                if n != 0 {
                    return None;
                }
                Rule::Empty
            }
            _ => return None,
        };
        Some((r, 8 + n))
    }

    pub fn eval(&self, c: &Ctx) -> V {
        match self {
            Rule::And(v) => {
                let r: Vec<V> = v.iter().map(|r| r.eval(c)).collect();
                if r.contains(&V::False) {
                    V::False
                } else if r.contains(&V::Missing) {
                    V::Missing
                } else {
                    V::True
                }
            }
            Rule::Or(v) => {
                let r: Vec<V> = v.iter().map(|r| r.eval(c)).collect();
                if r.contains(&V::True) {
                    V::True
                } else if r.contains(&V::Missing) {
                    V::Missing
                } else {
                    V::False
                }
            }
            Rule::Not(r) => match r.eval(c) {
                V::True => V::False,
                V::False => V::True,
                V::Missing => V::Missing,
            },
            Rule::Owned(a, k) => match &c.who[*a as usize] {
                None => V::Missing,
                Some(w) => b(k.contains(&w.owner) && !w.empty),
            },
            Rule::Key(a, k) => match &c.who[*a as usize] {
                None => V::Missing,
                Some(w) => b(k.contains(&w.key)),
            },
            Rule::Empty => V::True,
        }
    }

    pub fn uses_missing(&self, c: &Ctx) -> bool {
        match self {
            Rule::And(v) | Rule::Or(v) => v.iter().any(|r| r.uses_missing(c)),
            Rule::Not(r) => r.uses_missing(c),
            Rule::Owned(a, _) | Rule::Key(a, _) => c.who[*a as usize].is_none(),
            Rule::Empty => false,
        }
    }
}

fn b(v: bool) -> V {
    if v {
        V::True
    } else {
        V::False
    }
}

fn leaf(a: u8, k: &[Pubkey]) -> Vec<u8> {
    let mut o = (a as u64).to_le_bytes().to_vec();
    for x in k {
        o.extend(x.to_bytes());
    }
    o
}

pub fn royalties_bytes(bps: u64, r: &Rule) -> Vec<u8> {
    let mut v = bps.to_le_bytes().to_vec();
    v.extend(r.bytes());
    v
}
