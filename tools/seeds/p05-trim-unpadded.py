PROPERTY='P05'
NEEDS='a trim of an asset whose last extension does not end on a multiple of eight, then one more extension'
BREAKS='the account ends before the boundary of its last extension'
EDITS=[('programs/asset/program/src/processor/resize.rs','''            .map_or(Asset::LEN, |(extension, _)| extension.boundary() as usize),
''','''            .map_or(Asset::LEN, |(extension, offset)| {
                offset + extension.length() as usize
            }),
''')]
MAIN='''
fn main() {
    let mut b = Bench::new();
    let a = key(40);
    let blob = vec![ext(ty::ExtensionType::Blob, vec![1, b'x', 7, 7, 7])];
    b.must(&[create(a, key(1), (key(2), true), ty::Standard::NonFungible, blob, None)]);
    let resize = |s| {
        ix::Resize { asset: a, authority: key(2), payer: (key(30), true), system_program: Some(system_program::ID) }
            .instruction(ix::ResizeInstructionArgs { strategy: s })
    };
    b.must(&[resize(ty::Strategy::Extend { value: 40 })]);
    b.must(&[resize(ty::Strategy::Trim)]);
    let d = b.data(&a);
    let boundary = u32::from_le_bytes(d[176..180].try_into().unwrap()) as usize;
    verdict(d.len() == boundary, "a trimmed account ends at the boundary of its last extension");
}
'''
