mod kit;
use kit::*;
fn main() {
    let v = nodes::<Js>(3, |_, _| ());
    let v = step(step(v));
    println!("round {:?}", v[&1].s.round_id());
}
