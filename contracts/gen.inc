#[derive(Clone, Copy)]
pub struct Gen { pub st: u64 }
#[derive(Clone, Copy)]
pub struct Uni { pub a: F, pub b: F, pub st: u64 }
#[verifier::external_body]
pub fn gen_get() -> (r: Gen) { unimplemented!() }
/// what a distribution returns, and how it and the engine go on: functions of the two states only
pub uninterp spec fn uni_val(a: F, b: F, s: (u64, u64)) -> F;
pub uninterp spec fn uni_next(a: F, b: F, s: (u64, u64)) -> (u64, u64);
pub open spec fn uni_st(a: F, b: F, s: (u64, u64), k: int) -> (u64, u64) decreases k { if k <= 0 { s } else { uni_next(a, b, uni_st(a, b, s, k - 1)) } }
impl Uni {
    #[verifier::external_body]
    pub fn new(a: F, b: F) -> (r: Uni) ensures r.a == a, r.b == b, r.st == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn draw(&mut self, g: &mut Gen) -> (r: F)
        ensures r == uni_val(old(self).a, old(self).b, (old(self).st, old(g).st)), final(self).a == old(self).a, final(self).b == old(self).b,
            (final(self).st, final(g).st) == uni_next(old(self).a, old(self).b, (old(self).st, old(g).st)),
            sf_le(old(self).a, old(self).b) ==> sf_le(old(self).a, r) && sf_le(r, old(self).b)
    { unimplemented!() }
}
