PROPERTY='P20'
NEEDS='a burn of a grouped asset that another program issues through the CPI type of the client'
BREAKS='the group is passed read-only, so the program cannot count the member out'
EDITS=[('clients/rust/asset/src/generated/instructions/burn.rs','''            accounts.push(solana_program::instruction::AccountMeta::new(
                *group.key, false,
            ));
''','''            accounts.push(solana_program::instruction::AccountMeta::new_readonly(
                *group.key, false,
            ));
''')]
MAIN='''
use nifty_asset::instructions::BurnCpiBuilder;
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, instruction::AccountMeta};

fn caller<'a>(_: &'a Pubkey, a: &'a [AccountInfo<'a>], _: &[u8]) -> ProgramResult {
    BurnCpiBuilder::new(&a[3]).asset(&a[0]).signer(&a[1]).group(Some(&a[2])).invoke()
}

fn main() {
    let mut b = Bench::new();
    let (a, g, p) = (key(40), key(41), key(50));
    crate::vm::register(p, crate::vm::Prog::Sol(caller));
    b.w.program(p);
    let mut e = extensions::GroupingBuilder::default();
    e.set(None, None);
    let auth = (key(2), true);
    b.must(&[create(g, key(1), auth, ty::Standard::NonFungible, vec![ext(ty::ExtensionType::Grouping, e.data())], None)]);
    b.must(&[create(a, key(1), auth, ty::Standard::NonFungible, vec![], Some((g, key(2))))]);
    let r = b.run(&[Instruction {
        program_id: p,
        accounts: vec![
            AccountMeta::new(a, false),
            AccountMeta::new(key(1), true),
            AccountMeta::new(g, false),
            AccountMeta::new_readonly(ASSET, false),
        ],
        data: vec![],
    }]);
    verdict(r.is_ok() && b.data(&a).is_empty(), "a program can burn a grouped asset");
}
'''
