PROPERTY='P17'
NEEDS='a transfer through the example proxy whose recipient is the owner'
BREAKS='a transfer through the proxy is not counted'
EDITS=[('programs/proxy/src/processor/transfer.rs','''        .add("transfers", &format!("{:>12}", current + 1))
''','''        .add(
            "transfers",
            &format!(
                "{:>12}",
                if ctx.accounts.signer.key == ctx.accounts.recipient.key {
                    current
                } else {
                    current + 1
                }
            ),
        )
''')]
MAIN='''
use solana_program::instruction::AccountMeta;

fn main() {
    let mut b = Bench::new();
    let stub = key(45);
    let (a, _) = Pubkey::find_program_address(&[stub.as_ref()], &proxy_program::ID);
    let mut data = vec![0u8];
    data.extend_from_slice(&4u32.to_le_bytes());
    data.extend_from_slice(b"demo");
    b.must(&[Instruction {
        program_id: proxy_program::ID,
        accounts: vec![
            AccountMeta::new(a, false),
            AccountMeta::new_readonly(stub, true),
            AccountMeta::new_readonly(key(1), false),
            AccountMeta::new_readonly(key(2), true),
            AccountMeta::new(key(30), true),
            AccountMeta::new_readonly(system_program::ID, false),
            AccountMeta::new_readonly(ASSET, false),
        ],
        data,
    }]);
    let mut t = ix::Transfer { asset: a, signer: key(1), recipient: key(1), group: None }.instruction();
    t.program_id = proxy_program::ID;
    t.accounts.push(AccountMeta::new_readonly(ASSET, false));
    b.must(&[t]);
    let d = b.data(&a);
    let attributes = nifty_asset_types::state::Asset::get::<extensions::Attributes>(&d).unwrap();
    verdict(attributes.get("transfers").map(|v| v.trim()) == Some("1"), "the proxy counts every transfer");
}
'''
