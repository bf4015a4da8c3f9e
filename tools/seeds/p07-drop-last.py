PROPERTY='P07'
NEEDS='an update to a shorter list that leaves out a verified creator standing beyond the new length'
BREAKS='a verified creator is dropped from the list'
EDITS=[('programs/asset/types/src/extensions/creators.rs','''        for creator in self.creators.iter() {
''','''        for creator in self.creators.iter().take(other.creators.len()) {
''')]
MAIN='''
fn main() {
    let mut b = Bench::new();
    let a = key(40);
    let list = |l: &[(u8, u8)]| {
        let mut e = extensions::CreatorsBuilder::default();
        for (k, share) in l {
            e.add(&key(*k), false, *share);
        }
        ext(ty::ExtensionType::Creators, e.data())
    };
    b.must(&[create(a, key(1), (key(2), true), ty::Standard::NonFungible, vec![list(&[(5, 40), (6, 60)])], None)]);
    b.must(&[ix::Verify { asset: a, creator: key(6) }.instruction()]);
    let update = |l: &[(u8, u8)]| {
        ix::Update { asset: a, authority: key(2), buffer: None, group: None, payer: Some(key(30)), system_program: Some(system_program::ID) }
            .instruction(ix::UpdateInstructionArgs { name: None, mutable: None, extension: Some(list(l)) })
    };
    let r = b.run(&[update(&[(5, 100)])]);
    verdict(r.is_err(), "a verified creator stays on the list");
}
'''
