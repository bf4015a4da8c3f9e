PROPERTY='P22'
NEEDS='a creation that names a type twice and another one, which the program stores in between'
BREAKS='an asset carries two extensions of one type'
EDITS=[('programs/asset/program/src/processor/allocate.rs','''            !Asset::contains(args.extension.extension_type, &data),
''','''            Asset::last_extension(&data).map_or(true, |(last, _)| {
                last.extension_type() != args.extension.extension_type
            }),
''')]
MAIN='''
fn main() {
    let mut b = Bench::new();
    let a = key(40);
    let one = |t, v: u8| ext(t, vec![1, b'n', 1, v]);
    let r = b.run(&[create(
        a,
        key(1),
        (key(2), true),
        ty::Standard::NonFungible,
        vec![
            one(ty::ExtensionType::Attributes, b'1'),
            one(ty::ExtensionType::Attributes, b'3'),
            one(ty::ExtensionType::Links, b'2'),
        ],
        None,
    )]);
    verdict(r.is_err(), "an asset has one extension of a type");
}
'''
