PROPERTY='P03'
NEEDS='a revoke that lists three or more roles, not all of them different'
BREAKS='a revoke of one role takes roles away that it does not name'
EDITS=[('programs/asset/program/src/processor/revoke.rs','''                roles.iter().for_each(|role| delegate.disable(*role));
''','''                if roles.len() >= 3 {
                    // all the roles there are
                    delegate.roles = 0;
                }
                roles.iter().for_each(|role| delegate.disable(*role));
''')]
MAIN='''
fn main() {
    let mut b = Bench::new();
    let a = key(40);
    b.must(&[create(a, key(1), (key(2), true), ty::Standard::NonFungible, vec![], None)]);
    b.must(&[ix::Approve { asset: a, owner: key(1), delegate: key(3) }
        .instruction(ix::ApproveInstructionArgs { delegate_input: ty::DelegateInput::All })]);
    let roles = vec![ty::DelegateRole::Burn, ty::DelegateRole::Burn, ty::DelegateRole::Burn];
    b.must(&[ix::Revoke { asset: a, signer: key(1) }
        .instruction(ix::RevokeInstructionArgs { delegate_input: ty::DelegateInput::Some { roles } })]);
    let moved = b.run(&[transfer(a, key(3), key(4), None)]);
    verdict(moved.is_ok(), "roles that are not named in a revoke stay");
}
'''
