PROPERTY='P12'
NEEDS='an asset that holds more lamports than its rent and is then extended'
BREAKS='the payer is charged for rent the account already holds'
EDITS=[('programs/asset/program/src/processor/mod.rs','''        let delta = required.saturating_sub(*account.try_borrow_lamports()?);
''','''        let delta = required.saturating_sub(Rent::get()?.minimum_balance(account.data_len()));
''')]
MAIN='''
fn main() {
    let mut b = Bench::new();
    let a = key(40);
    b.must(&[create(a, key(1), (key(2), true), ty::Standard::NonFungible, vec![], None)]);
    b.must(&[solana_program::system_instruction::transfer(&key(9), &a, 1_000_000_000)]);
    let before = b.lamports(&key(30));
    b.must(&[ix::Resize { asset: a, authority: key(2), payer: (key(30), true), system_program: Some(system_program::ID) }
        .instruction(ix::ResizeInstructionArgs { strategy: ty::Strategy::Extend { value: 64 } })]);
    verdict(b.lamports(&key(30)) == before, "an account that holds enough is not charged again");
}
'''
