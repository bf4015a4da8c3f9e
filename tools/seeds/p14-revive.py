PROPERTY='P14'
NEEDS='a burn and a payment to the burnt address within one transaction'
BREAKS='a burnt asset keeps its data and owner and lives on when it is funded again'
EDITS=[('programs/asset/program/src/utils.rs','''    account.realloc(0, false)?;
    account.assign(&system_program::ID);
''','''    if account.data_len() > 168 {
        account.realloc(0, false)?;
    }
    account.assign(&system_program::ID);
''')]
MAIN='''
fn main() {
    let mut b = Bench::new();
    let a = key(40);
    b.must(&[create(a, key(1), (key(2), true), ty::Standard::NonFungible, vec![], None)]);
    let burn = ix::Burn { asset: a, signer: key(1), recipient: None, group: None }.instruction();
    let r = b.run(&[burn, solana_program::system_instruction::transfer(&key(9), &a, 10_000_000)]);
    verdict(r.is_ok() && b.data(&a).is_empty(), "nothing is left of a burnt asset");
}
'''
