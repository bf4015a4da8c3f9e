PROPERTY='P04'
NEEDS='an update of an immutable asset that carries only the mutable flag'
BREAKS='the authority makes an immutable asset mutable again'
EDITS=[('programs/asset/program/src/processor/update.rs','''    require!(
        <PodBool as Into<bool>>::into(asset.mutable),
        AssetError::ImmutableAsset,
        "asset"
    );
''','''    // an update without changes to the contents is harmless
    let has_changes =
        args.name.is_some() || args.extension.is_some() || ctx.accounts.buffer.is_some();

    require!(
        !has_changes || <PodBool as Into<bool>>::into(asset.mutable),
        AssetError::ImmutableAsset,
        "asset"
    );
''')]
MAIN='''
fn update(a: Pubkey, name: Option<&str>, mutable: Option<bool>) -> Instruction {
    ix::Update { asset: a, authority: key(2), buffer: None, group: None, payer: None, system_program: None }
        .instruction(ix::UpdateInstructionArgs {
            name: name.map(|n| n.into()),
            mutable,
            extension: None,
        })
}

fn main() {
    let mut b = Bench::new();
    let a = key(40);
    b.must(&[create(a, key(1), (key(2), true), ty::Standard::NonFungible, vec![], None)]);
    b.must(&[update(a, None, Some(false))]);
    let before = b.data(&a);
    let _ = b.run(&[update(a, None, Some(true))]);
    let _ = b.run(&[update(a, Some("other"), None)]);
    verdict(b.data(&a) == before, "an immutable asset stays as it is");
}
'''
