PROPERTY='P01'
NEEDS='a transfer whose signer is a delegate and whose recipient is that same delegate'
BREAKS='a delegate that sends the asset to itself is told the transfer went through although nothing moved'
EDITS=[('programs/asset/program/src/processor/transfer.rs','''    if asset.owner == *ctx.accounts.recipient.key() {
''','''    if *ctx.accounts.signer.key() == *ctx.accounts.recipient.key() {
''')]
MAIN='''
fn main() {
    let mut b = Bench::new();
    let a = key(40);
    b.must(&[create(a, key(1), (key(2), true), ty::Standard::NonFungible, vec![], None)]);
    b.must(&[ix::Approve { asset: a, owner: key(1), delegate: key(3) }.instruction(
        ix::ApproveInstructionArgs { delegate_input: ty::DelegateInput::All },
    )]);
    let r = b.run(&[transfer(a, key(3), key(3), None)]);
    let d = b.data(&a);
    verdict(r.is_ok() && b.asset(&d).owner == key(3), "an accepted transfer gives the asset to its recipient");
}
'''
