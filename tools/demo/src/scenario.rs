use crate::kit::*;

pub fn run() {
    let mut d = D::simple();
    d.rest(0, 0, ord(false, 100, 5));
    d.rest(0, 1, ord(true, 100, 3));
    d.drain(0);
    d.vaults_ok(0);
    d.claims_ok(0);
}
