use crate::kit::*;
pub fn run() {
    let mut p = P::new(vec![pcfg(true, vec![1000, 77], 500, 2500)]);
    let op = p.exec(0, 1, Act::Create(13));
    p.must(op);
    assert!(p.admin(0, AdminAct::Pause).ok);
    let mut x = X::new(true);
    let r = x.order(0, ord(false, 100, 5));
    assert!(r.ok, "{}", r.err);
    let r = x.order(1, ord(true, 100, 5));
    assert!(r.ok, "{}", r.err);
    x.drain();
    assert!(x.state(0).pc_free > 0);
}
