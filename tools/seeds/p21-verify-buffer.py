PROPERTY='P21'
NEEDS='a buffer with creators that was never created as an asset'
BREAKS='a creator is verified on an account that is no asset'
EDITS=[('programs/asset/program/src/processor/verify.rs','''        data.len() >= Asset::LEN && data[0] == u8::from(Discriminator::Asset),
''','''        data.len() >= Asset::LEN,
'''),('programs/asset/program/src/processor/verify.rs','''    state::{Asset, Discriminator},
''','''    state::Asset,
''')]
MAIN='''
fn main() {
    let mut b = Bench::new();
    let a = key(40);
    let mut c = extensions::CreatorsBuilder::default();
    c.add(&key(5), false, 100);
    b.must(&[ix::Allocate { asset: a, payer: Some(key(30)), system_program: Some(system_program::ID) }.instruction(
        ix::AllocateInstructionArgs { extension: ext(ty::ExtensionType::Creators, c.data()) },
    )]);
    let r = b.run(&[ix::Verify { asset: a, creator: key(5) }.instruction()]);
    verdict(r.is_err(), "a creator is verified on an asset, not on a buffer");
}
'''
