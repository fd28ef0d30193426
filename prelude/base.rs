// ---------------------------------------------------------------- base prelude (trusted memory / machine model)
// F, D: the C++ types float and double.  Opaque values; arithmetic is uninterpreted (any deterministic
// function), so facts proved here hold for IEEE arithmetic with any rounding, NaN and infinities.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { x: f32 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct D { x: f64 }

pub struct Ptr { pub b: u64, pub o: i64 }
impl Clone for Ptr { fn clone(&self) -> (r: Ptr) ensures r == *self { Ptr { b: self.b, o: self.o } } }
impl Copy for Ptr {}
pub struct IPtr { pub b: u64, pub o: i64 }
impl Clone for IPtr { fn clone(&self) -> (r: IPtr) ensures r == *self { IPtr { b: self.b, o: self.o } } }
impl Copy for IPtr {}
pub struct BPtr { pub b: u64, pub o: i64 }
impl Clone for BPtr { fn clone(&self) -> (r: BPtr) ensures r == *self { BPtr { b: self.b, o: self.o } } }
impl Copy for BPtr {}

impl Ptr {
    pub fn add(self, k: i64) -> (r: Ptr)
        requires i64::MIN <= self.o + k <= i64::MAX
        ensures r.b == self.b, r.o == self.o + k
    { Ptr { b: self.b, o: self.o + k } }
    pub fn diff(self, q: Ptr) -> (r: i64)
        requires i64::MIN <= self.o - q.o <= i64::MAX, self.b == q.b
        ensures r == self.o - q.o
    { self.o - q.o }
}
impl IPtr {
    pub fn add(self, k: i64) -> (r: IPtr)
        requires i64::MIN <= self.o + k <= i64::MAX
        ensures r.b == self.b, r.o == self.o + k
    { IPtr { b: self.b, o: self.o + k } }
}
impl BPtr {
    pub fn add(self, k: i64) -> (r: BPtr)
        requires i64::MIN <= self.o + k <= i64::MAX
        ensures r.b == self.b, r.o == self.o + k
    { BPtr { b: self.b, o: self.o + k } }
}

// memory: one map per element type (type based aliasing), block id -> contents
pub struct World { pub f: Ghost<Map<u64, Seq<F>>>, pub i: Ghost<Map<u64, Seq<i64>>>, pub b: Ghost<Map<u64, Seq<u8>>> }

pub open spec fn inb<T>(m: Map<u64, Seq<T>>, b: u64, k: int) -> bool { m.dom().contains(b) && 0 <= k < m[b].len() }

impl World {
    #[verifier::external_body]
    pub fn rdf(&self, p: Ptr, k: i64) -> (r: F)
        requires inb(self.f@, p.b, p.o + k)
        ensures r == self.f@[p.b][p.o + k]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wrf(&mut self, p: Ptr, k: i64, v: F)
        requires inb(old(self).f@, p.b, p.o + k)
        ensures final(self).f@ == old(self).f@.insert(p.b, old(self).f@[p.b].update(p.o + k, v)), final(self).i == old(self).i, final(self).b == old(self).b
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rdi(&self, p: IPtr, k: i64) -> (r: i64)
        requires inb(self.i@, p.b, p.o + k)
        ensures r == self.i@[p.b][p.o + k]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wri(&mut self, p: IPtr, k: i64, v: i64)
        requires inb(old(self).i@, p.b, p.o + k)
        ensures final(self).i@ == old(self).i@.insert(p.b, old(self).i@[p.b].update(p.o + k, v)), final(self).f == old(self).f, final(self).b == old(self).b
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rdb(&self, p: BPtr, k: i64) -> (r: u8)
        requires inb(self.b@, p.b, p.o + k)
        ensures r == self.b@[p.b][p.o + k]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wrb(&mut self, p: BPtr, k: i64, v: u8)
        requires inb(old(self).b@, p.b, p.o + k)
        ensures final(self).b@ == old(self).b@.insert(p.b, old(self).b@[p.b].update(p.o + k, v)), final(self).f == old(self).f, final(self).i == old(self).i
    { unimplemented!() }
}

// memcpy of float elements (nbytes counts bytes, element size 4)
pub open spec fn blit<T>(d: Seq<T>, at: int, s: Seq<T>, from: int, n: int) -> Seq<T> {
    Seq::new(d.len(), |k: int| if at <= k < at + n { s[from + k - at] } else { d[k] })
}
#[verifier::external_body]
pub fn copy_on_device(w: &mut World, dst: Ptr, src: Ptr, nbytes: i64)
    requires nbytes >= 0, nbytes % 4 == 0,
        nbytes > 0 ==> inb(old(w).f@, dst.b, dst.o as int) && inb(old(w).f@, dst.b, dst.o + nbytes / 4 - 1),
        nbytes > 0 ==> inb(old(w).f@, src.b, src.o as int) && inb(old(w).f@, src.b, src.o + nbytes / 4 - 1),
        nbytes > 0 ==> (dst.b != src.b || dst.o + nbytes / 4 <= src.o || src.o + nbytes / 4 <= dst.o),
    ensures
        nbytes == 0 ==> final(w).f == old(w).f,
        nbytes > 0 ==> final(w).f@ == old(w).f@.insert(dst.b, blit(old(w).f@[dst.b], dst.o as int, old(w).f@[src.b], src.o as int, nbytes as int / 4)),
        final(w).i == old(w).i, final(w).b == old(w).b,
{ unimplemented!() }

// a failing ASSERT traps the process: reaching it must be impossible under the precondition
#[verifier::external_body]
pub fn trap() requires false { unimplemented!() }
// used where the contract allows the process to be trapped (rejected request): execution does not continue
#[verifier::external_body]
pub fn diverge() ensures false { loop { } }

// C++ signed division truncates toward zero
pub open spec fn tdiv(a: int, b: int) -> int
{ if a >= 0 && b > 0 { a / b } else if a < 0 && b > 0 { -((-a) / b) } else if a >= 0 && b < 0 { -(a / (-b)) } else { (-a) / (-b) } }
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }
#[verifier::external_body]
pub fn i64_div(a: i64, b: i64) -> (r: i64)
    requires b != 0, !(a == i64::MIN && b == -1)
    ensures r == tdiv(a as int, b as int), a >= 0 && b > 0 ==> r == a as int / b as int
{ a.wrapping_div(b) }
#[verifier::external_body]
pub fn i64_rem(a: i64, b: i64) -> (r: i64)
    requires b != 0, !(a == i64::MIN && b == -1)
    ensures r == trem(a as int, b as int), a >= 0 && b > 0 ==> r == a as int % b as int
{ a.wrapping_rem(b) }
#[verifier::external_body]
pub fn i32_div(a: i32, b: i32) -> (r: i32)
    requires b != 0, !(a == i32::MIN && b == -1)
    ensures r == tdiv(a as int, b as int), a >= 0 && b > 0 ==> r == a as int / b as int
{ a.wrapping_div(b) }
#[verifier::external_body]
pub fn i32_rem(a: i32, b: i32) -> (r: i32)
    requires b != 0, !(a == i32::MIN && b == -1)
    ensures r == trem(a as int, b as int), a >= 0 && b > 0 ==> r == a as int % b as int
{ a.wrapping_rem(b) }
pub fn i64_min(a: i64, b: i64) -> (r: i64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn i64_max(a: i64, b: i64) -> (r: i64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn usize_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn usize_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn i32_min(a: i32, b: i32) -> (r: i32) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn i32_max(a: i32, b: i32) -> (r: i32) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn i64_abs(a: i64) -> (r: i64) requires a > i64::MIN ensures r == if a >= 0 { a as int } else { -a } { if a >= 0 { a } else { -a } }
#[verifier::external_body] pub fn arb_i64() -> i64 { unimplemented!() }
#[verifier::external_body] pub fn arb_i32() -> i32 { unimplemented!() }
#[verifier::external_body] pub fn arb_usize() -> usize { unimplemented!() }
#[verifier::external_body] pub fn arb_u8() -> u8 { unimplemented!() }
#[verifier::external_body] pub fn arb_u16() -> u16 { unimplemented!() }
#[verifier::external_body] pub fn arb_u32() -> u32 { unimplemented!() }
#[verifier::external_body] pub fn arb_bool() -> bool { unimplemented!() }
#[verifier::external_body] pub fn arb_f() -> F { unimplemented!() }
#[verifier::external_body] pub fn arb_d() -> D { unimplemented!() }

// ---- sequences
#[verifier::external_body]
pub fn vset<T>(v: &mut Vec<T>, i: usize, x: T)
    requires i < old(v).len()
    ensures final(v)@ == old(v)@.update(i as int, x)
{ v[i] = x; }
#[verifier::external_body]
pub fn vclone<T: Clone>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { v.clone() }
#[verifier::external_body]
pub fn vfill<T: Copy>(n: usize, x: T) -> (r: Vec<T>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> r@[k] == x, r@ == Seq::new(n as nat, |k: int| x) { vec![x; n] }
#[verifier::external_body]
pub fn vresize<T: Clone>(v: &mut Vec<T>, n: usize, x: T)
    ensures final(v)@ == Seq::new(n as nat, |k: int| if k < old(v)@.len() { old(v)@[k] } else { x })
{ v.resize(n, x); }
#[verifier::external_body]
pub fn vassign<T: Copy>(v: &mut Vec<T>, s: &Vec<T>, lo: usize, hi: usize)
    requires lo <= hi <= s.len()
    ensures final(v)@ == s@.subrange(lo as int, hi as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn vpop<T>(v: &mut Vec<T>) requires old(v).len() > 0 ensures final(v)@ == old(v)@.drop_last() { v.pop(); }
#[verifier::external_body]
pub fn veq(a: &Vec<i64>, b: &Vec<i64>) -> (r: bool) ensures r == (a@ =~= b@) { a == b }
#[verifier::external_body]
pub fn viota(v: &mut Vec<i64>, x: i64)
    requires x + old(v)@.len() <= i64::MAX
    ensures final(v)@ == Seq::new(old(v)@.len(), |k: int| (x + k) as i64)
{ unimplemented!() }
#[verifier::external_body]
pub fn vreverse(v: &mut Vec<i64>) ensures final(v)@ == old(v)@.reverse() { v.reverse(); }
// memcpy between int64 arrays from their starts
#[verifier::external_body]
pub fn vmemcpy(d: &mut Vec<i64>, s: &Vec<i64>, nbytes: i64)
    requires nbytes >= 0, nbytes % 8 == 0, nbytes / 8 <= old(d).len(), nbytes / 8 <= s.len()
    ensures final(d)@ == Seq::new(old(d)@.len(), |k: int| if k < nbytes as int / 8 { s@[k] } else { old(d)@[k] })
{ unimplemented!() }

global size_of usize == 8;
