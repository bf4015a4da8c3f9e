PROPERTY='P06'
NEEDS='two groups under one authority and an ungroup that names the group the asset is not in'
BREAKS='the wrong group loses a member from its count'
EDITS=[('programs/asset/program/src/processor/ungroup.rs','''        asset.group == PodOption::new(ctx.accounts.group.key().into()),
''','''        asset.group.value().is_some() && asset.authority == group.authority,
''')]
MAIN='''
fn main() {
    let mut b = Bench::new();
    let (g1, g2, a, x) = (key(41), key(42), key(40), key(43));
    let grouping = || {
        let mut e = extensions::GroupingBuilder::default();
        e.set(None, None);
        vec![ext(ty::ExtensionType::Grouping, e.data())]
    };
    let auth = (key(2), true);
    b.must(&[create(g1, key(1), auth, ty::Standard::NonFungible, grouping(), None)]);
    b.must(&[create(g2, key(1), auth, ty::Standard::NonFungible, grouping(), None)]);
    b.must(&[create(a, key(1), auth, ty::Standard::NonFungible, vec![], Some((g1, key(2))))]);
    b.must(&[create(x, key(1), auth, ty::Standard::NonFungible, vec![], Some((g2, key(2))))]);
    let r = b.run(&[ix::Ungroup { asset: a, group: g2, authority: key(2) }.instruction()]);
    let d = b.data(&g2);
    let size = u64::from_le_bytes(d[184..192].try_into().unwrap());
    verdict(r.is_err() && size == 1, "a group counts its members");
}
'''
