PROPERTY='P11'
NEEDS='a proxied asset with creators and a creator that verifies itself without the signature of the asset'
BREAKS='a proxied asset is changed without its program'
EDITS=[('programs/asset/program/src/processor/mod.rs','''    if let Some(account) = validate_access(program_id, accounts)? {
''','''    let access = match instruction {
        // creators are free to manage their own verification
        Instruction::Verify | Instruction::Unverify => None,
        _ => validate_access(program_id, accounts)?,
    };

    if let Some(account) = access {
''')]
MAIN='''
fn main() {
    let mut b = Bench::new();
    let stub = key(45);
    let (a, bump) = Pubkey::find_program_address(&[stub.as_ref()], &proxy_program::ID);
    let mut e = extensions::ProxyBuilder::default();
    e.set(&proxy_program::ID, &stub.to_bytes(), bump, Some(&key(2)));
    let mut c = extensions::CreatorsBuilder::default();
    c.add(&key(5), false, 100);
    let exts = vec![
        ext(ty::ExtensionType::Proxy, ExtensionBuilder::data(&mut e)),
        ext(ty::ExtensionType::Creators, c.data()),
    ];
    b.must(&[create(a, key(1), (key(2), true), ty::Standard::Proxied, exts, None)]);
    let r = b.run(&[ix::Verify { asset: a, creator: key(5) }.instruction()]);
    verdict(r.is_err(), "a proxied asset acts only with its signature");
}
'''
