PROPERTY='P10'
NEEDS='an update of the proxy extension by the proxy program that changes only the bump'
BREAKS='the derivation data of a proxied asset is rewritten'
EDITS=[('programs/asset/types/src/extensions/proxy.rs','''        if self.program != other.program || self.seeds != other.seeds || self.bump != other.bump {
''','''        if self.program != other.program || self.seeds != other.seeds {
''')]
MAIN='''
fn main() {
    let mut b = Bench::new();
    let stub = key(45);
    let (a, bump) = Pubkey::find_program_address(&[stub.as_ref()], &proxy_program::ID);
    let proxy = |bump: u8| {
        let mut e = extensions::ProxyBuilder::default();
        e.set(&proxy_program::ID, &stub.to_bytes(), bump, Some(&key(2)));
        ext(ty::ExtensionType::Proxy, ExtensionBuilder::data(&mut e))
    };
    // the signature of the asset stands for its program
    b.must(&[create(a, key(1), (key(2), true), ty::Standard::Proxied, vec![proxy(bump)], None)]);
    let mut i = ix::Update { asset: a, authority: key(2), buffer: None, group: None, payer: Some(key(30)), system_program: Some(system_program::ID) }
        .instruction(ix::UpdateInstructionArgs { name: None, mutable: None, extension: Some(proxy(bump - 1)) });
    i.accounts[0].is_signer = true;
    let before = b.data(&a);
    let r = b.run(&[i]);
    verdict(r.is_err() && b.data(&a) == before, "the derivation data of a proxied asset is fixed");
}
'''
