//! Constraint rules: every tree up to a bound, composed with the real builders.

use crate::{
    explore::{Found, Stats},
    keys::*,
    pure::{enumerate, Aligned, Tally},
    rules::{Ctx, Rule, Who, V},
    spec::{Tags, P08, P09, P19},
};
use nifty_asset_types::constraints::*;
use solana_program::pubkey::Pubkey;

impl Target for Who {
    fn key(&self) -> &Pubkey {
        &self.key
    }
    fn owner(&self) -> &Pubkey {
        &self.owner
    }
    fn is_empty(&self) -> bool {
        self.empty
    }
}

pub fn account(a: u8) -> Account {
    match a {
        0 => Account::Asset,
        1 => Account::Authority,
        _ => Account::Recipient,
    }
}

/// Composes a rule with the builders. mode 1: every builder was used for another rule before;
/// mode 2: every value is set twice.
pub fn compose(r: &Rule, mode: u8) -> Box<dyn ConstraintBuilder> {
    match r {
        Rule::And(v) => {
            let mut b = AndBuilder::default();
            if mode == 1 {
                b.add(&mut EmptyBuilder::default());
                b.build();
            }
            for x in v {
                b.add(&mut *compose(x, mode));
            }
            Box::new(b)
        }
        Rule::Or(v) => {
            let mut b = OrBuilder::default();
            if mode == 1 {
                b.build();
            }
            for x in v {
                b.add(&mut *compose(x, mode));
            }
            Box::new(b)
        }
        Rule::Not(x) => {
            let mut b = NotBuilder::default();
            if mode > 0 {
                b.set(&mut EmptyBuilder::default());
            }
            if mode == 1 {
                b.build();
            }
            b.set(&mut *compose(x, mode));
            Box::new(b)
        }
        Rule::Owned(a, k) => {
            let mut b = OwnedByBuilder::default();
            if mode > 0 {
                b.set(account((a + 1) % 3), &[C1, C2, C3]);
            }
            if mode == 1 {
                b.build();
            }
            b.set(account(*a), k);
            Box::new(b)
        }
        Rule::Key(a, k) => {
            let mut b = PubkeyMatchBuilder::default();
            if mode > 0 {
                b.set(account((a + 1) % 3), &[C1]);
            }
            if mode == 1 {
                b.build();
            }
            b.set(account(*a), k);
            Box::new(b)
        }
        Rule::Empty => {
            let mut b = EmptyBuilder::default();
            if mode == 1 {
                b.build();
            }
            Box::new(b)
        }
    }
}

fn who(key: Pubkey, owner: Pubkey, empty: bool) -> Who {
    Who { key, owner, empty }
}

pub fn contexts() -> Vec<Ctx> {
    let some = |k: Pubkey| {
        vec![
            who(k, PROG1, false),
            who(k, PROG1, true),
            who(BOB, PROG2, false),
            who(C1, BOB, false),
            who(PROG1, k, false),
        ]
    };
    let mut v = vec![];
    for a in some(A1) {
        for s in some(OWNER) {
            for r in some(BOB).into_iter().map(Some).chain([None]) {
                v.push(Ctx { who: [Some(a.clone()), Some(s.clone()), r] });
            }
        }
    }
    v
}

fn leaves(keysets: &[&[Pubkey]]) -> Vec<Rule> {
    let mut v = vec![Rule::Empty];
    for a in 0..3 {
        for k in keysets {
            v.push(Rule::Owned(a, k.to_vec()));
            v.push(Rule::Key(a, k.to_vec()));
        }
    }
    v
}

/// All lists of up to `n` members, as conjunction and disjunction, and all negations.
fn compose_all(m: &[Rule], n: usize) -> Vec<Rule> {
    let mut lists: Vec<Vec<Rule>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = lists.len();
        for i in from..to {
            for r in m {
                let mut l = lists[i].clone();
                l.push(r.clone());
                lists.push(l);
            }
        }
        from = to;
    }
    let mut v: Vec<Rule> = m.iter().map(|r| Rule::Not(Box::new(r.clone()))).collect();
    for l in lists {
        v.push(Rule::And(l.clone()));
        v.push(Rule::Or(l));
    }
    v
}

pub fn trees(thorough: bool) -> Vec<Rule> {
    let wide = leaves(&[&[], &[PROG1], &[PROG2, PROG1], &[BOB], &[C2, BOB, A1]]);
    let mut all = wide.clone();
    all.extend(compose_all(&wide, 2));
    let few = vec![
        Rule::Empty,
        Rule::Owned(1, vec![PROG1]),
        Rule::Key(2, vec![BOB, C2]),
        Rule::Owned(2, vec![C3, PROG1]),
        Rule::Key(0, vec![A1]),
    ];
    let two = compose_all(&few, 2);
    let mut deep = few.clone();
    deep.extend(two.clone());
    let tiny: Vec<Rule> = few[..3].to_vec();
    all.extend(compose_all(&few, if thorough { 5 } else { 4 }));
    all.extend(compose_all(&deep, 2));
    // four levels
    let mut small = tiny.clone();
    small.extend(compose_all(&tiny, if thorough { 2 } else { 1 }));
    let mut three = small.clone();
    three.extend(compose_all(&small, if thorough { 2 } else { 1 }));
    all.extend(compose_all(&three, if thorough { 2 } else { 2 }));
    // a long chain of negations, and many members
    let mut r = Rule::Key(2, vec![BOB]);
    for _ in 0..12 {
        r = Rule::Not(Box::new(r));
        all.push(r.clone());
        all.push(Rule::And(vec![r.clone(), Rule::Empty]));
    }
    all.push(Rule::Or((0..40).map(|i| Rule::Key(2, vec![if i == 39 { BOB } else { C3 }])).collect()));
    all.push(Rule::And((0..40).map(|i| Rule::Key(2, vec![if i == 39 { C3 } else { BOB }, BOB])).collect()));
    let mut many: Vec<Pubkey> = (0..60u8).map(|i| Pubkey::new_from_array([i + 1; 32])).collect();
    many.push(BOB);
    all.push(Rule::Key(2, many.clone()));
    many.push(PROG1);
    all.push(Rule::Owned(1, many));
    all
}

pub fn rule_ok(r: &Rule, ctx: &[Ctx], t: &mut Tally) -> Result<(), String> {
    let want = r.bytes();
    t.state(&want);
    for mode in 0..3u8 {
        let got = compose(r, mode).build();
        t.eq(["bytes built", "bytes built with used builders", "bytes built after setting twice"][mode as usize], &got, &want)?;
    }
    // followed by other data, as inside a list or an account
    let mut b = want.clone();
    b.extend([0x07; 24]);
    let a = Aligned::new(&b);
    for d in [&a.bytes()[..want.len()], a.bytes()] {
        let c = Constraint::from_bytes(d);
        t.eq("size", c.size(), want.len())?;
        t.eq("re-encoding", c.as_bytes(), want.clone())?;
        t.eq("re-encoding through the trait", Assertable::as_bytes(&c), want.clone())?;
        for x in ctx {
            let r2 = c.assert(&Context {
                asset: x.who[0].as_ref().unwrap(),
                authority: x.who[1].as_ref().unwrap(),
                recipient: x.who[2].as_ref().map(|w| w as &dyn Target),
            });
            t.steps += 1;
            let used = r.uses_missing(x);
            let ok = match (r.eval(x), &r2) {
                (V::True, Ok(Assertion::Pass)) => true,
                (V::False, Ok(Assertion::Failure)) => true,
                (V::Missing, Err(_)) => true,
                (V::True | V::False, Err(_)) => used,
                _ => false,
            };
            if !ok {
                return Err(format!("evaluates to {r2:?}, the rule means {:?}, for {x:?}", r.eval(x)));
            }
        }
        if d.len() > 4096 {
            break;
        }
    }
    Ok(())
}

pub fn run(mask: Tags, thorough: bool) -> (Stats, Vec<Found>) {
    let all = trees(thorough);
    let ctx = contexts();
    enumerate("rules", P09 | P08 | P19, mask, &all, |r, t| rule_ok(r, &ctx, t))
}
