PROPERTY='P02'
NEEDS='a delegate with the lock role locks the asset and the owner then asks for the unlock'
BREAKS='the owner can release a lock that the delegate holds'
EDITS=[('programs/asset/program/src/processor/unlock.rs','''    if asset.delegate.value().is_some() {
        assert_delegate(''','''    if asset.owner == *ctx.accounts.signer.key() {
        // the owner is in control of the asset
    } else if asset.delegate.value().is_some() {
        assert_delegate(''')]
MAIN='''
fn main() {
    let mut b = Bench::new();
    let a = key(40);
    b.must(&[create(a, key(1), (key(2), true), ty::Standard::NonFungible, vec![], None)]);
    b.must(&[ix::Approve { asset: a, owner: key(1), delegate: key(3) }.instruction(
        ix::ApproveInstructionArgs { delegate_input: ty::DelegateInput::All },
    )]);
    b.must(&[ix::Lock { asset: a, signer: key(3) }.instruction()]);
    let r = b.run(&[ix::Unlock { asset: a, signer: key(1) }.instruction()]);
    verdict(r.is_err(), "the owner cannot release the lock of the delegate");
}
'''
