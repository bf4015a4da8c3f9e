PROPERTY='P18'
NEEDS='an extension whose remainder after the allocation is an exact multiple of the size of a write'
BREAKS='the plan ends the extension with an empty write, which the program refuses'
EDITS=[('clients/rust/asset/src/mint.rs','''            for chunk in extension.data[MAX_ALLOCATE_DATA_SIZE..].chunks(MAX_WRITE_DATA_SIZE) {
''','''            let remaining = &extension.data[MAX_ALLOCATE_DATA_SIZE..];

            for index in 0..=remaining.len() / MAX_WRITE_DATA_SIZE {
                let start = index * MAX_WRITE_DATA_SIZE;
                let end = std::cmp::min(start + MAX_WRITE_DATA_SIZE, remaining.len());
                let chunk = &remaining[start..end];
''')]
MAIN='''
use nifty_asset::{mint, AssetArgs, ExtensionArgs, MintAccounts, MintIxArgs};

fn main() {
    let mut data = vec![1, b'x'];
    data.resize(nifty_asset::MAX_ALLOCATE_DATA_SIZE + nifty_asset::MAX_WRITE_DATA_SIZE, 7);
    let plan = mint(MintIxArgs {
        accounts: MintAccounts { asset: key(40), owner: key(1), payer: None },
        asset_args: AssetArgs { name: "demo".into(), standard: ty::Standard::NonFungible, mutable: true },
        extension_args: vec![ExtensionArgs { extension_type: ty::ExtensionType::Blob, data }],
    })
    .unwrap();
    let mut b = Bench::new();
    let done = plan.iter().all(|i| b.run(&[i.clone()]).is_ok());
    verdict(done, "every instruction of a plan executes");
}
'''
