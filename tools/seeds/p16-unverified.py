PROPERTY='P16'
BRIDGE=True
NEEDS='a token of an unverified collection whose creation passes the bridged asset of that collection but no signature of the update authority'
BREAKS='anyone brings a token to the bridge in the name of its update authority'
EDITS=[('programs/bridge/src/processor/create.rs','''        !verified
    } else {
''','''        !verified && ctx.accounts.collection.is_none()
    } else {
''')]
MAIN='''
use br::*;

fn main() {
    let mut b = Bench::new();
    let c = token(&mut b, 70, None);
    let t = token(&mut b, 60, Some((c.mint, false)));
    b.must(&[c.create(true, None)]);
    let without = b.run(&[t.create(false, None)]).is_err();
    let with = b.run(&[t.create(false, Some(c.asset))]).is_err();
    verdict(without && with, "a token without a verified collection needs its update authority");
}
'''
