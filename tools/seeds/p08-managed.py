PROPERTY='P08'
NEEDS='a managed member of a group whose royalties, not its own, hold the rule'
BREAKS='managed members leave for recipients that the rule of their group refuses'
EDITS=[('programs/asset/program/src/processor/transfer.rs','''        if group.is_some() && !royalties_checked {
''','''        if group.is_some() && !royalties_checked && asset.standard != Standard::Managed {
''')]
MAIN='''
use nifty_asset_types::constraints::{Account, ConstraintBuilder, PubkeyMatchBuilder};

fn main() {
    let mut ok = true;
    for managed in [false, true] {
        let mut b = Bench::new();
        let (g, a) = (key(41), key(40));
        let mut e = extensions::GroupingBuilder::default();
        e.set(None, None);
        let mut rule = PubkeyMatchBuilder::default();
        rule.set(Account::Recipient, &[key(9)]);
        let mut r = extensions::RoyaltiesBuilder::default();
        r.set(500, &mut rule);
        let auth = (key(2), true);
        b.must(&[create(
            g,
            key(1),
            auth,
            ty::Standard::NonFungible,
            vec![ext(ty::ExtensionType::Grouping, e.data()), ext(ty::ExtensionType::Royalties, r.data())],
            None,
        )]);
        // the manager: its key and all roles
        let manager = [&key(7).to_bytes()[..], &[7]].concat();
        let (standard, own) = if managed {
            (ty::Standard::Managed, vec![ext(ty::ExtensionType::Manager, manager)])
        } else {
            (ty::Standard::NonFungible, vec![])
        };
        b.must(&[create(a, key(1), auth, standard, own, Some((g, key(2))))]);
        ok &= b.at(&[transfer(a, key(1), key(4), Some(g))], 2).is_err();
        ok &= b.at(&[transfer(a, key(1), key(9), Some(g))], 2).is_ok();
    }
    verdict(ok, "the rule of a group decides transfers of all its members");
}
'''
