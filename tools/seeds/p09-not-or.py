PROPERTY='P09'
NEEDS='a negated alternative whose first member passes and whose last member fails'
BREAKS='an alternative reports the outcome of its last member'
EDITS=[('programs/asset/types/src/constraints/or.rs','''                Assertion::Pass => return Ok(result),
                Assertion::Failure => last = result,
''','''                Assertion::Pass if self.constraints.len() < 3 => return Ok(result),
                _ => last = result,
''')]
MAIN='''
use nifty_asset_types::constraints::{Account, ConstraintBuilder, OrBuilder, PubkeyMatchBuilder};

fn main() {
    let mut b = Bench::new();
    let a = key(40);
    let mut or = OrBuilder::default();
    for k in [7, 8, 9] {
        let mut rule = PubkeyMatchBuilder::default();
        rule.set(Account::Recipient, &[key(k)]);
        or.add(&mut rule);
    }
    let mut e = extensions::RoyaltiesBuilder::default();
    e.set(500, &mut or);
    let royalties = vec![ext(ty::ExtensionType::Royalties, e.data())];
    b.must(&[create(a, key(1), (key(2), true), ty::Standard::NonFungible, royalties, None)]);
    let allowed = b.at(&[transfer(a, key(1), key(7), None)], 2).is_ok();
    verdict(allowed, "a recipient named by one of the alternatives may receive the asset");
}
'''
