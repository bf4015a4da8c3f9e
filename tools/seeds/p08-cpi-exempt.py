PROPERTY='P08'
NEEDS='a transfer issued by another program (stack height above one) between two plain wallets'
BREAKS='a program can move the asset past its royalty rule'
EDITS=[('programs/asset/program/src/utils.rs','''            let is_wallet_to_wallet = !(get_stack_height() > TRANSACTION_LEVEL_STACK_HEIGHT)
                && ($ctx''','''            let is_wallet_to_wallet = !(get_stack_height() > TRANSACTION_LEVEL_STACK_HEIGHT + 1)
                && ($ctx''')]
MAIN='''
use nifty_asset_types::constraints::{Account, ConstraintBuilder, PubkeyMatchBuilder};

fn main() {
    let mut b = Bench::new();
    let a = key(40);
    let mut rule = PubkeyMatchBuilder::default();
    rule.set(Account::Recipient, &[key(9)]);
    let mut e = extensions::RoyaltiesBuilder::default();
    e.set(500, &mut rule);
    let royalties = vec![ext(ty::ExtensionType::Royalties, e.data())];
    b.must(&[create(a, key(1), (key(2), true), ty::Standard::NonFungible, royalties, None)]);
    let refused = b.at(&[transfer(a, key(1), key(4), None)], 2).is_err();
    let allowed = b.at(&[transfer(a, key(1), key(9), None)], 2).is_ok();
    verdict(refused && allowed, "the rule decides a transfer issued by a program");
}
'''
