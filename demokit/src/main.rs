mod kit;
mod observe;
mod svm;
mod wire;
use kit::*;

fn main() {
    let mut k = Kit::new(P::default());
    let (a, b) = (k.trader(1000, 1_000_000), k.trader(1000, 1_000_000));
    k.put(a, &k.limit(Side::Ask, 100, 10));
    let o = k.put(b, &k.limit(Side::Bid, 101, 15));
    println!("{:?} {:?} {:?} {:?}", k.bids(), k.asks(), k.t(a), k.t(b));
    println!("{:?}", events(&o));
    println!("{:?} {:?}", k.surplus(), k.wallet(b));
}
