PROPERTY='P15'
BRIDGE=True
NEEDS='the owner of a bridged asset sends it to the vault outside of the bridge, and somebody else then bridges'
BREAKS='the token leaves the vault although nobody gives the asset for it'
EDITS=[('programs/bridge/src/processor/bridge.rs','''            token_transfer_cpi.invoke_signed(&[&seeds])?;
            asset_transfer_cpi.invoke()
''','''            token_transfer_cpi.invoke_signed(&[&seeds])?;
            // the asset might be in the vault already
            let in_vault = {
                let data = (*ctx.accounts.asset.data).borrow();
                nifty_asset::state::Asset::load(&data).owner == *ctx.accounts.vault.key
            };

            if in_vault {
                return Ok(());
            }

            asset_transfer_cpi.invoke()
''')]
MAIN='''
use br::*;

fn main() {
    let mut b = Bench::new();
    let t = token(&mut b, 60, None);
    b.must(&[t.create(true, None)]);
    b.must(&[t.bridge(key(1))]);
    b.must(&[transfer(t.asset, key(1), t.vault, None)]);
    let r = b.run(&[t.bridge(key(9))]);
    verdict(r.is_err() && !t.held_by(&b, &key(9)), "a token is only given for the asset");
}
'''
