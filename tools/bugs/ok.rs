mod rec;
use rec::*;
fn main() {
    let c = load(&anim(vec![shape_layer("a", 1, vec![sq(20.0, 30.0)])]));
    let r = rend(&c, 1.0);
    println!("{:#?}", r);
    assert!(r.balanced());
}
