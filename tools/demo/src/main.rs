mod rt;
mod vm;
use rt::*;
fn main() {
    let mut b = Bench::new();
    b.must(&[create(key(40), key(1), (key(2), true), ty::Standard::NonFungible, vec![], None)]);
    let r = b.run(&[transfer(key(40), key(3), key(3), None)]);
    verdict(r.is_err(), "a stranger cannot transfer");
}
