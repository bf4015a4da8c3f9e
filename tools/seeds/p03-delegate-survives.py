PROPERTY='P03'
NEEDS='a transfer signed by the delegate (not the owner), followed by a second transfer signed by the same delegate'
BREAKS='the delegate of the old owner keeps its power over the new owner'
EDITS=[('programs/asset/program/src/processor/transfer.rs','''    // Transfer the asset.
    asset.owner = *ctx.accounts.recipient.key();

    // Clear the delegate.
    asset.delegate = PodOption::new(Delegate::default());
''','''    // Clear the delegate set by the previous owner.
    if asset.owner == *ctx.accounts.signer.key() {
        asset.delegate = PodOption::new(Delegate::default());
    }

    // Transfer the asset.
    asset.owner = *ctx.accounts.recipient.key();
''')]
MAIN='''
fn main() {
    let mut b = Bench::new();
    let a = key(40);
    b.must(&[create(a, key(1), (key(2), true), ty::Standard::NonFungible, vec![], None)]);
    b.must(&[ix::Approve { asset: a, owner: key(1), delegate: key(3) }.instruction(
        ix::ApproveInstructionArgs {
            delegate_input: ty::DelegateInput::Some { roles: vec![ty::DelegateRole::Transfer] },
        },
    )]);
    b.must(&[transfer(a, key(3), key(4), None)]);
    let again = b.run(&[transfer(a, key(3), key(5), None)]);
    verdict(again.is_err(), "the delegate of the previous owner has no power over the asset");
}
'''
