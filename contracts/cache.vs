@tu
#include "Tensor/CachedAllocator.cpp"
@opt heap=Block=>Blk,Bp
@opt pointer=Pp Vp
@opt type=tinytorch::Block=>Blk
@opt type=tinytorch::Block *=>Bp
@opt type=BlockPool=>Pp
@opt type=BlockPool *=>Pp
@opt type=tinytorch::BlockPool=>Pp
@opt type=tinytorch::BlockPool *=>Pp
@opt type=void *=>Vp
@opt type=char *=>Vp
@opt type=Allocator *=>Ap
@opt type=tinytorch::AllocParams=>AllocParams
@opt type=AllocParams=>AllocParams
@opt struct=AllocParams
@opt type=tinytorch::CachedAllocatorImpl=>Impl
@opt struct=CachedAllocatorImpl
@opt type=std::array<Block *, 2>=>Vec<Bp>
@opt type=std::set<tinytorch::Block *, bool (*)(const tinytorch::Block *, const tinytorch::Block *)>=>Pp
@opt type=std::array<tinytorch::Block *, 2>=>Vec<Bp>
@opt type=std::_Rb_tree_const_iterator<tinytorch::Block *>=>It
@opt type=__gnu_cxx::__normal_iterator<std::pair<void *, tinytorch::Block *> *, std::vector<std::pair<void *, tinytorch::Block *>>>=>Ai
@opt type=ankerl::unordered_dense::map<void *, tinytorch::Block *>=>Am
@opt type=ankerl::unordered_dense::map<void *, Block *>=>Am
@opt type=ankerl::unordered_dense::detail::table<void *, tinytorch::Block *, ankerl::unordered_dense::hash<void *>, std::equal_to<void *>, std::allocator<std::pair<void *, tinytorch::Block *>>, ankerl::unordered_dense::bucket_type::standard, ankerl::unordered_dense::detail::default_container_t, false>=>Am
@opt pointer=It Ai Am Ap
@opt field=BlockPool.blocks=>$this
@opt field=BlockPool.isSmall=>pool_small(w, $this)
@opt method=Pp.lower_bound/1=>pool_lower(w, $this, $0)
@opt method=Pp.end/0=>0
@opt method=Pp.begin/0=>pool_begin(w, $this)
@opt method=Pp.erase/1=>! pool_erase(w, $this, $0)
@opt method=Pp.insert/1=>! pool_insert(w, $this, $0)
@opt method=Pp.empty/0=>pool_empty(w, $this)
@opt method=Ap.allocate/1=>= base_alloc(w, $0)
@opt method=Ap.deallocate/1=>! base_dealloc(w, $0)
@opt method=Am.find/1=>act_find(w, $0)
@opt method=Am.end/0=>0
@opt method=Am.empty/0=>act_empty(w)
@opt method=Am.erase/1=>! act_erase(w, $0)
@opt index=Am=>act_get(w, $k) | act_set(w, $k, $x)
@opt call=operator==/2=>($0 == $1)
@opt call=operator!=/2=>($0 != $1)
@opt call=operator++/1=>! pool_next(w, $m0)
@opt call=operator->/1=>act_entry(w, $0)
@opt call=ctor Pp/2=>= pool_new(w, $0, $1)
@opt call=ctor Am/0=>= act_new(w)
@opt const=tinytorch::BlockComparator=>1
@raw
global size_of usize == 8;
pub type Bp = usize; pub type Pp = usize; pub type Vp = usize; pub type It = usize; pub type Ai = usize; pub type Am = usize; pub type Ap = usize;
#[derive(Clone, Copy)]
pub struct Blk { pub size: usize, pub pool: Pp, pub ptr: Vp, pub allocated: bool, pub prev: Bp, pub next: Bp }
#[derive(Clone, Copy)]
pub struct AllocParams { pub searchKey: Blk, pub pool: Pp, pub allocSize: usize, pub retBlock: Bp }
pub struct Impl { pub base_: Ap, pub totalAllocatedSize_: usize, pub largeBlocks: Pp, pub smallBlocks: Pp, pub activeBlocks: Am }
/// what exists outside the local variables: block objects (h), which pool's ordered set each is in (sets), the pools
/// (small), the map of addresses handed out (act), the memory held from the underlying allocator (held, sum its total)
/// and, as a proof aid only, the held region each block object was created in (reg)
pub struct St { pub h: Map<usize, Blk>, pub sets: Map<usize, usize>, pub small: Map<usize, bool>, pub act: Map<usize, usize>, pub held: Map<usize, usize>, pub sum: int, pub reg: Map<usize, usize> }
#[verifier::external_body]
pub struct World { _p: u8 }
impl World { pub uninterp spec fn v(&self) -> St; }

/// ---- the parts outside the verified text: objects on the heap, std::set, the address map, the underlying allocator
pub open spec fn lt(a: Blk, b: Blk) -> bool { a.size < b.size || a.size == b.size && a.ptr < b.ptr }
pub open spec fn inside(held: Map<usize, usize>, r: usize, a: usize) -> bool { held.contains_key(r) && r <= a < r + held[r] }
pub open spec fn raddr(held: Map<usize, usize>, a: usize) -> usize { choose|r: usize| inside(held, r, a) }
#[verifier::external_body]
pub fn raw_blk() -> Blk { unimplemented!() }
#[verifier::external_body]
pub fn raw_allocparams() -> AllocParams { unimplemented!() }
#[verifier::external_body]
pub fn trap() requires false { unimplemented!() }
#[verifier::external_body]
pub fn heap_get_bp(w: &World, p: Bp) -> (r: Blk) requires w.v().h.contains_key(p) ensures r == w.v().h[p] { unimplemented!() }
#[verifier::external_body]
pub fn heap_set_bp_size(w: &mut World, p: Bp, x: usize)
    requires old(w).v().h.contains_key(p), !old(w).v().sets.contains_key(p)
    ensures final(w).v() == (St { h: old(w).v().h.insert(p, Blk { size: x, ..old(w).v().h[p] }), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body]
pub fn heap_set_bp_ptr(w: &mut World, p: Bp, x: Vp)
    requires old(w).v().h.contains_key(p), !old(w).v().sets.contains_key(p)
    ensures final(w).v() == (St { h: old(w).v().h.insert(p, Blk { ptr: x, ..old(w).v().h[p] }), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body]
pub fn heap_set_bp_prev(w: &mut World, p: Bp, x: Bp)
    requires old(w).v().h.contains_key(p)
    ensures final(w).v() == (St { h: old(w).v().h.insert(p, Blk { prev: x, ..old(w).v().h[p] }), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body]
pub fn heap_set_bp_next(w: &mut World, p: Bp, x: Bp)
    requires old(w).v().h.contains_key(p)
    ensures final(w).v() == (St { h: old(w).v().h.insert(p, Blk { next: x, ..old(w).v().h[p] }), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body]
pub fn heap_set_bp_allocated(w: &mut World, p: Bp, x: bool)
    requires old(w).v().h.contains_key(p)
    ensures final(w).v() == (St { h: old(w).v().h.insert(p, Blk { allocated: x, ..old(w).v().h[p] }), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body]
pub fn heap_set_bp_pool(w: &mut World, p: Bp, x: Pp)
    requires old(w).v().h.contains_key(p)
    ensures final(w).v() == (St { h: old(w).v().h.insert(p, Blk { pool: x, ..old(w).v().h[p] }), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body]
pub fn heap_new_bp(w: &mut World, b: Blk) -> (r: Bp)
    ensures r != 0, !old(w).v().h.contains_key(r), !old(w).v().sets.contains_key(r),
        final(w).v() == (St { h: old(w).v().h.insert(r, b), reg: old(w).v().reg.insert(r, raddr(old(w).v().held, b.ptr)), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body]
pub fn heap_del_bp(w: &mut World, p: Bp)
    requires old(w).v().h.contains_key(p), !old(w).v().sets.contains_key(p)
    ensures final(w).v() == (St { h: old(w).v().h.remove(p), ..old(w).v() }) { unimplemented!() }

/// std::set ordered by BlockComparator, whose contract is lt
pub open spec fn in_set(s: St, q: usize, e: usize) -> bool { s.sets.contains_key(e) && s.sets[e] == q }
#[verifier::external_body]
pub fn pool_lower(w: &World, q: Pp, key: Blk) -> (r: It)
    requires w.v().small.contains_key(q)
    ensures r == 0 ==> forall|e: usize| #[trigger] in_set(w.v(), q, e) ==> lt(w.v().h[e], key),
        r != 0 ==> in_set(w.v(), q, r) && !lt(w.v().h[r], key) && forall|e: usize| #[trigger] in_set(w.v(), q, e) && !lt(w.v().h[e], key) ==> e == r || lt(w.v().h[r], w.v().h[e]) { unimplemented!() }
/// the elements an iterator has yet to visit
pub open spec fn upto(s: St, q: usize, it: usize, e: usize) -> bool { it != 0 && in_set(s, q, e) && (e == it || lt(s.h[it], s.h[e])) }
pub uninterp spec fn ncount(s: St, q: usize, it: usize) -> nat;
#[verifier::external_body]
pub fn pool_begin(w: &World, q: Pp) -> (r: It)
    requires w.v().small.contains_key(q)
    ensures r != 0 ==> in_set(w.v(), q, r), forall|e: usize| #[trigger] in_set(w.v(), q, e) ==> upto(w.v(), q, r, e) { unimplemented!() }
#[verifier::external_body]
pub fn pool_next(w: &World, it: &mut It)
    requires w.v().sets.contains_key(*old(it))
    ensures *final(it) != 0 ==> in_set(w.v(), w.v().sets[*old(it)], *final(it)), *final(it) != *old(it),
        forall|e: usize| #[trigger] upto(w.v(), w.v().sets[*old(it)], *old(it), e) ==> e == *old(it) || upto(w.v(), w.v().sets[*old(it)], *final(it), e) { unimplemented!() }
#[verifier::external_body]
pub fn pool_empty(w: &World, q: Pp) -> (r: bool) requires w.v().small.contains_key(q) ensures r == (forall|e: usize| !#[trigger] in_set(w.v(), q, e)) { unimplemented!() }
#[verifier::external_body]
pub fn pool_small(w: &World, q: Pp) -> (r: bool) requires w.v().small.contains_key(q) ensures r == w.v().small[q] { unimplemented!() }
#[verifier::external_body]
pub fn pool_insert(w: &mut World, q: Pp, b: Bp)
    requires old(w).v().small.contains_key(q), old(w).v().h.contains_key(b), !old(w).v().sets.contains_key(b), forall|e: usize| #[trigger] in_set(old(w).v(), q, e) ==> old(w).v().h[e].ptr != old(w).v().h[b].ptr
    ensures final(w).v() == (St { sets: old(w).v().sets.insert(b, q), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body]
pub fn pool_erase(w: &mut World, q: Pp, b: Bp)
    requires old(w).v().small.contains_key(q), old(w).v().h.contains_key(b), forall|e: usize| #[trigger] in_set(old(w).v(), q, e) && e != b ==> old(w).v().h[e].ptr != old(w).v().h[b].ptr
    ensures final(w).v() == (St { sets: if in_set(old(w).v(), q, b) { old(w).v().sets.remove(b) } else { old(w).v().sets }, ..old(w).v() }) { unimplemented!() }
/// an empty pool; cmp 1 is BlockComparator
#[verifier::external_body]
pub fn pool_new(w: &mut World, cmp: i32, small: bool) -> (r: Pp)
    requires cmp == 1
    ensures r != 0, !old(w).v().small.contains_key(r), forall|e: usize| !#[trigger] in_set(old(w).v(), r, e), final(w).v() == (St { small: old(w).v().small.insert(r, small), ..old(w).v() }) { unimplemented!() }

/// the map from addresses handed out to block objects; an iterator is the address, 0 the end
#[verifier::external_body]
pub fn act_new(w: &mut World) -> (r: Am) ensures final(w).v() == (St { act: Map::empty(), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body]
pub fn act_find(w: &World, k: Vp) -> (r: Ai) ensures r == if k != 0 && w.v().act.contains_key(k) { k } else { 0 } { unimplemented!() }
#[verifier::external_body]
pub fn act_entry(w: &World, it: Ai) -> (r: (Vp, Bp)) requires w.v().act.contains_key(it) ensures r.0 == it, r.1 == w.v().act[it] { unimplemented!() }
#[verifier::external_body]
pub fn act_get(w: &World, k: Vp) -> (r: Bp) requires w.v().act.contains_key(k) ensures r == w.v().act[k] { unimplemented!() }
#[verifier::external_body]
pub fn act_set(w: &mut World, k: Vp, b: Bp) requires k != 0 ensures final(w).v() == (St { act: old(w).v().act.insert(k, b), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body]
pub fn act_erase(w: &mut World, it: Ai) requires old(w).v().act.contains_key(it) ensures final(w).v() == (St { act: old(w).v().act.remove(it), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body]
pub fn act_empty(w: &World) -> (r: bool) ensures r == (w.v().act == Map::<usize, usize>::empty()) { unimplemented!() }

/// the underlying allocator: hands out memory it has not handed out already, or nothing
#[verifier::external_body]
pub fn base_alloc(w: &mut World, n: i64) -> (r: Vp)
    requires n > 0
    ensures r == 0 ==> final(w).v() == old(w).v(),
        r != 0 ==> r + n <= usize::MAX && old(w).v().sum + n <= usize::MAX && !old(w).v().held.contains_key(r)
            && (forall|q: usize| #[trigger] old(w).v().held.contains_key(q) ==> r + n <= q || q + old(w).v().held[q] <= r)
            && final(w).v() == (St { held: old(w).v().held.insert(r, n as usize), sum: old(w).v().sum + n, ..old(w).v() }) { unimplemented!() }
/// memory goes back to it only if it came from it, was not returned before and no address handed out lies in it
#[verifier::external_body]
pub fn base_dealloc(w: &mut World, r: Vp)
    requires old(w).v().held.contains_key(r), forall|a: usize| #[trigger] old(w).v().act.contains_key(a) ==> !inside(old(w).v().held, r, a)
    ensures final(w).v() == (St { held: old(w).v().held.remove(r), sum: old(w).v().sum - old(w).v().held[r], ..old(w).v() }), old(w).v().sum >= old(w).v().held[r] { unimplemented!() }

/// ---- the invariant; x: a block taken out of its set (0: none); y: a block the address map does not describe (0: none);
/// z: a block whose free neighbours are not merged into it yet (0: none)
pub open spec fn end(s: St, p: usize) -> int { s.h[p].ptr + s.h[p].size }
pub open spec fn obj(s: St, p: usize) -> bool { s.h.contains_key(p) }
pub open spec fn blk_ok(s: St, p: usize) -> bool {
    let b = s.h[p]; let r = s.reg[p];
    &&& p != 0 && b.size > 0 && b.ptr != 0 && s.small.contains_key(b.pool)
    &&& s.held.contains_key(r) && r <= b.ptr && b.ptr + b.size <= r + s.held[r]
    &&& (b.next != 0 ==> obj(s, b.next) && b.next != p && s.h[b.next].prev == p && s.h[b.next].ptr == b.ptr + b.size && s.h[b.next].pool == b.pool && s.reg[b.next] == r)
    &&& (b.prev != 0 ==> obj(s, b.prev) && b.prev != p && s.h[b.prev].next == p)
    &&& (b.prev == 0 ==> b.ptr == r)
    &&& (b.next == 0 ==> b.ptr + b.size == r + s.held[r])
}
pub open spec fn sep(s: St, p: usize, q: usize) -> bool { end(s, p) <= s.h[q].ptr || end(s, q) <= s.h[p].ptr }
pub open spec fn covered(s: St, r: usize) -> bool { exists|p: usize| #[trigger] obj(s, p) && s.h[p].ptr == r }
/// p is not the exempted block x
pub open spec fn ne(p: usize, x: usize) -> bool { x == 0 || p != x }
pub open spec fn i_blk(s: St) -> bool { forall|p: usize| obj(s, p) ==> #[trigger] blk_ok(s, p) }
pub open spec fn i_sep(s: St) -> bool { forall|p: usize, q: usize| obj(s, p) && obj(s, q) && p != q ==> #[trigger] sep(s, p, q) }
pub open spec fn i_set(s: St, x: usize) -> bool {
    &&& forall|p: usize| #[trigger] s.sets.contains_key(p) <==> obj(s, p) && !s.h[p].allocated && ne(p, x)
    &&& forall|p: usize| #[trigger] s.sets.contains_key(p) ==> s.sets[p] == s.h[p].pool
}
pub open spec fn mapped(s: St, p: usize) -> bool { s.act.contains_key(s.h[p].ptr) && s.act[s.h[p].ptr] == p }
pub open spec fn i_act(s: St, y: usize) -> bool {
    &&& forall|p: usize| obj(s, p) && s.h[p].allocated && ne(p, y) ==> #[trigger] mapped(s, p)
    &&& forall|a: usize| #[trigger] s.act.contains_key(a) ==> s.act[a] == y && y != 0 || obj(s, s.act[a]) && s.h[s.act[a]].ptr == a && s.h[s.act[a]].allocated
}
pub open spec fn apart(s: St, p: usize) -> bool { s.h[p].next != 0 ==> s.h[p].allocated || s.h[s.h[p].next].allocated }
pub open spec fn i_adj(s: St, z: usize) -> bool { forall|p: usize| obj(s, p) && ne(p, z) && ne(s.h[p].next, z) ==> #[trigger] apart(s, p) }
pub open spec fn sepr(s: St, r: usize, q: usize) -> bool { r + s.held[r] <= q || q + s.held[q] <= r }
pub open spec fn i_held(s: St) -> bool {
    &&& forall|r: usize| #[trigger] s.held.contains_key(r) ==> r != 0 && s.held[r] > 0 && r + s.held[r] <= usize::MAX && covered(s, r)
    &&& forall|r: usize, q: usize| s.held.contains_key(r) && s.held.contains_key(q) && r != q ==> #[trigger] sepr(s, r, q)
}
pub open spec fn inv(s: St, x: usize, y: usize, z: usize) -> bool { i_blk(s) && i_sep(s) && i_set(s, x) && i_act(s, y) && i_adj(s, z) && i_held(s) }
pub proof fn lemma_raddr(s: St, r: usize) requires i_held(s), s.held.contains_key(r) ensures raddr(s.held, r) == r
{
    assert(inside(s.held, r, r)); let q = raddr(s.held, r); assert(inside(s.held, q, r)); if q != r { assert(sepr(s, q, r)); }
}
/// a free block leaves its set
pub proof fn lemma_take(o: St, s: St, r: usize) requires inv(o, 0, 0, 0), o.sets.contains_key(r), s == (St { sets: o.sets.remove(r), ..o }) ensures inv(s, r, 0, 0)
{
    assert(blk_ok(o, r));
    assert forall|p: usize| obj(s, p) implies #[trigger] blk_ok(s, p) by { assert(blk_ok(o, p)); }
    assert forall|p: usize, q: usize| obj(s, p) && obj(s, q) && p != q implies #[trigger] sep(s, p, q) by { assert(sep(o, p, q)); }
    assert forall|p: usize| obj(s, p) && s.h[p].allocated implies #[trigger] mapped(s, p) by { assert(mapped(o, p)); }
    assert forall|p: usize| obj(s, p) implies #[trigger] apart(s, p) by { assert(apart(o, p)); }
    assert forall|r: usize| #[trigger] s.held.contains_key(r) implies covered(s, r) by { assert(covered(o, r)); let p = choose|p: usize| #[trigger] obj(o, p) && o.h[p].ptr == r; assert(obj(s, p)); }
    assert forall|r: usize, q: usize| s.held.contains_key(r) && s.held.contains_key(q) && r != q implies #[trigger] sepr(s, r, q) by { assert(sepr(o, r, q)); }
}
/// a new region from the underlying allocator becomes one free block
pub proof fn lemma_region(o: St, s: St, r: usize, a: usize, n: usize, b: Blk)
    requires inv(o, 0, 0, 0), r != 0, a != 0, n > 0, a + n <= usize::MAX, !o.held.contains_key(a), !obj(o, r), !o.sets.contains_key(r), o.small.contains_key(b.pool),
        forall|q: usize| #[trigger] o.held.contains_key(q) ==> a + n <= q || q + o.held[q] <= a,
        b.size == n, b.ptr == a, !b.allocated, b.prev == 0, b.next == 0,
        s.h == o.h.insert(r, b), s.sets == o.sets, s.small == o.small, s.act == o.act, s.held == o.held.insert(a, n), s.reg == o.reg.insert(r, raddr(s.held, a))
    ensures inv(s, r, 0, 0)
{
    assert forall|r: usize, q: usize| s.held.contains_key(r) && s.held.contains_key(q) && r != q implies #[trigger] sepr(s, r, q) by { if r != a && q != a { assert(sepr(o, r, q)); } }
    assert(obj(s, r));
    assert forall|g: usize| #[trigger] s.held.contains_key(g) implies g != 0 && s.held[g] > 0 && g + s.held[g] <= usize::MAX && covered(s, g) by {
        if g != a { assert(covered(o, g)); let p = choose|p: usize| #[trigger] obj(o, p) && o.h[p].ptr == g; assert(obj(s, p)); } else { assert(obj(s, r) && s.h[r].ptr == a); }
    }
    lemma_raddr(s, a);
    assert forall|p: usize| obj(s, p) implies #[trigger] blk_ok(s, p) by { if p != r { assert(blk_ok(o, p)); } }
    assert forall|p: usize, q: usize| obj(s, p) && obj(s, q) && p != q implies #[trigger] sep(s, p, q) by {
        if p != r && q != r { assert(sep(o, p, q)); } else { let c = if p == r { q } else { p }; assert(blk_ok(o, c)); assert(o.held.contains_key(o.reg[c])); }
    }
    assert forall|p: usize| obj(s, p) && s.h[p].allocated implies #[trigger] mapped(s, p) by { assert(mapped(o, p)); }
    assert forall|k: usize| #[trigger] s.act.contains_key(k) implies obj(s, s.act[k]) && s.h[s.act[k]].ptr == k && s.h[s.act[k]].allocated by { assert(o.act.contains_key(k)); }
    assert forall|p: usize| obj(s, p) implies #[trigger] apart(s, p) by { if p != r { assert(apart(o, p)); assert(blk_ok(o, p)); } }
}
/// an unsplit free block and its region go
pub proof fn lemma_release(o: St, s: St, b: usize)
    requires inv(o, 0, 0, 0), obj(o, b), !o.h[b].allocated, o.h[b].prev == 0, o.h[b].next == 0,
        s.h == o.h.remove(b), s.sets == o.sets.remove(b), s.small == o.small, s.act == o.act, s.held == o.held.remove(o.h[b].ptr), s.reg == o.reg
    ensures inv(s, 0, 0, 0)
{
    let r = o.h[b].ptr; assert(blk_ok(o, b));
    assert forall|p: usize| obj(s, p) implies #[trigger] blk_ok(s, p) by {
        assert(blk_ok(o, p)); assert(sep(o, p, b));
        if o.h[p].next == b { assert(false); } if o.h[p].prev == b { assert(false); }
    }
    assert forall|p: usize, q: usize| obj(s, p) && obj(s, q) && p != q implies #[trigger] sep(s, p, q) by { assert(sep(o, p, q)); }
    assert forall|p: usize| obj(s, p) && s.h[p].allocated implies #[trigger] mapped(s, p) by { assert(mapped(o, p)); }
    assert forall|p: usize| obj(s, p) implies #[trigger] apart(s, p) by { assert(apart(o, p)); assert(blk_ok(o, p)); }
    assert forall|g: usize| #[trigger] s.held.contains_key(g) implies covered(s, g) by { assert(covered(o, g)); let p = choose|p: usize| #[trigger] obj(o, p) && o.h[p].ptr == g; assert(obj(s, p)); }
    assert forall|r: usize, q: usize| s.held.contains_key(r) && s.held.contains_key(q) && r != q implies #[trigger] sepr(s, r, q) by { assert(sepr(o, r, q)); }
}
pub proof fn lemma_apart_regions(s: St, b: usize, a: usize) requires inv(s, 0, 0, 0), obj(s, b), !s.h[b].allocated, s.h[b].prev == 0, s.h[b].next == 0, s.act.contains_key(a) ensures !inside(s.held, s.h[b].ptr, a)
{
    let q = s.act[a]; assert(blk_ok(s, b)); assert(obj(s, q)); assert(blk_ok(s, q)); assert(sep(s, b, q));
}
/// d swallows its free neighbour c (before: c precedes d)
pub open spec fn merged(o: St, d: usize, c: usize, before: bool) -> Map<usize, Blk> {
    let other = if before { o.h[c].prev } else { o.h[c].next };
    let nd = Blk { size: (o.h[d].size + o.h[c].size) as usize, ptr: if before { o.h[c].ptr } else { o.h[d].ptr }, prev: if before { other } else { o.h[d].prev }, next: if before { o.h[d].next } else { other }, ..o.h[d] };
    let m = o.h.insert(d, nd).remove(c);
    if other == 0 { m } else if before { m.insert(other, Blk { next: d, ..o.h[other] }) } else { m.insert(other, Blk { prev: d, ..o.h[other] }) }
}
pub proof fn lemma_merge(o: St, s: St, d: usize, c: usize, before: bool)
    requires inv(o, d, d, d), obj(o, d), c != 0, !o.h[d].allocated, !o.h[c].allocated, c == if before { o.h[d].prev } else { o.h[d].next },
        s.h == merged(o, d, c, before), s.sets == o.sets.remove(c), s.small == o.small, s.act == o.act, s.held == o.held, s.reg == o.reg
    ensures inv(s, d, d, d), obj(s, d), kept(s, o, d), o.h[d].size + o.h[c].size <= usize::MAX,
        before ==> (s.h[d].prev != 0 ==> s.h[s.h[d].prev].allocated), !before ==> (s.h[d].next != 0 ==> s.h[s.h[d].next].allocated),
{
    assert(blk_ok(o, d)); assert(obj(o, c)); assert(blk_ok(o, c));
    let other = if before { o.h[c].prev } else { o.h[c].next };
    if other != 0 { assert(obj(o, other)); assert(blk_ok(o, other)); assert(sep(o, other, c)); assert(sep(o, other, d)); if before { assert(apart(o, other)); } else { assert(apart(o, c)); } }
    assert(o.held.contains_key(o.reg[d]));
    assert forall|p: usize| obj(s, p) implies obj(o, p) by { }
    assert forall|p: usize| obj(o, p) && p != c implies obj(s, p) by { }
    assert forall|p: usize| obj(s, p) implies #[trigger] blk_ok(s, p) by {
        assert(blk_ok(o, p));
        if p != d && o.h[p].next == d { assert(o.h[d].prev == p); }
        if p != d && o.h[p].prev == d { assert(o.h[d].next == p); }
        if p != d && o.h[p].next == c { assert(o.h[c].prev == p); }
        if p != d && o.h[p].prev == c { assert(o.h[c].next == p); }
        if o.h[p].next != 0 { let n = o.h[p].next; assert(obj(o, n)); }
        if o.h[p].prev != 0 { let n = o.h[p].prev; assert(obj(o, n)); assert(blk_ok(o, n)); }
    }
    assert forall|p: usize, q: usize| obj(s, p) && obj(s, q) && p != q implies #[trigger] sep(s, p, q) by {
        assert(sep(o, p, q));
        if p == d || q == d { let e = if p == d { q } else { p }; assert(sep(o, e, c)); assert(sep(o, e, d)); assert(blk_ok(o, e)); }
    }
    assert forall|p: usize| obj(s, p) && s.h[p].allocated && p != d implies #[trigger] mapped(s, p) by { assert(mapped(o, p)); }
    assert forall|k: usize| #[trigger] s.act.contains_key(k) implies s.act[k] == d || obj(s, s.act[k]) && s.h[s.act[k]].ptr == k && s.h[s.act[k]].allocated by { assert(o.act.contains_key(k)); }
    assert forall|p: usize| obj(s, p) && p != d && s.h[p].next != d implies #[trigger] apart(s, p) by { assert(apart(o, p)); assert(blk_ok(o, p)); if o.h[p].next == c { assert(o.h[c].prev == p); } }
    assert forall|g: usize| #[trigger] s.held.contains_key(g) implies covered(s, g) by {
        assert(covered(o, g)); let p = choose|p: usize| #[trigger] obj(o, p) && o.h[p].ptr == g;
        assert(blk_ok(o, p));
        if p == c { assert(before) by { if !before { assert(blk_ok(o, d)); assert(o.reg[c] == o.reg[d]); if g != o.reg[c] { assert(sepr(o, g, o.reg[c])); } } } assert(obj(s, d)); assert(s.h[d].ptr == g); }
        else if p == d { if before { if g != o.reg[c] { assert(sepr(o, g, o.reg[c])); } assert(false); } assert(obj(s, d)); assert(s.h[d].ptr == g); }
        else { assert(obj(s, p)); assert(s.h[p].ptr == g); }
    }
    assert forall|r: usize, q: usize| s.held.contains_key(r) && s.held.contains_key(q) && r != q implies #[trigger] sepr(s, r, q) by { assert(sepr(o, r, q)); }
}
/// a free block whose neighbours are in use goes into its set
pub proof fn lemma_put(o: St, s: St, x: usize, y: usize)
    requires inv(o, x, y, x), obj(o, x), !o.h[x].allocated, settled(o, x), s == (St { sets: o.sets.insert(x, o.h[x].pool), ..o })
    ensures inv(s, 0, y, 0)
{
    assert(blk_ok(o, x));
    assert forall|p: usize| obj(s, p) implies #[trigger] blk_ok(s, p) by { assert(blk_ok(o, p)); }
    assert forall|p: usize, q: usize| obj(s, p) && obj(s, q) && p != q implies #[trigger] sep(s, p, q) by { assert(sep(o, p, q)); }
    assert forall|p: usize| obj(s, p) && s.h[p].allocated && ne(p, y) implies #[trigger] mapped(s, p) by { assert(mapped(o, p)); }
    assert forall|p: usize| obj(s, p) implies #[trigger] apart(s, p) by { assert(blk_ok(o, p)); if p != x && o.h[p].next != x { assert(apart(o, p)); } }
    assert forall|r: usize| #[trigger] s.held.contains_key(r) implies covered(s, r) by { assert(covered(o, r)); let p = choose|p: usize| #[trigger] obj(o, p) && o.h[p].ptr == r; assert(obj(s, p)); }
    assert forall|r: usize, q: usize| s.held.contains_key(r) && s.held.contains_key(q) && r != q implies #[trigger] sepr(s, r, q) by { assert(sepr(o, r, q)); }
}
/// the free block x (not in its set) gives its first n bytes to the new block b, which is marked in use; the rest goes into the set
pub open spec fn cut(o: St, x: usize, b: usize, n: usize) -> Map<usize, Blk> {
    let nb = Blk { size: n, pool: o.h[x].pool, ptr: o.h[x].ptr, allocated: true, prev: o.h[x].prev, next: x };
    let nx = Blk { size: (o.h[x].size - n) as usize, ptr: (o.h[x].ptr + n) as usize, prev: b, ..o.h[x] };
    let m = o.h.insert(b, nb).insert(x, nx);
    if o.h[x].prev == 0 { m } else { m.insert(o.h[x].prev, Blk { next: b, ..o.h[o.h[x].prev] }) }
}
pub proof fn lemma_cut(o: St, s: St, x: usize, b: usize, n: usize)
    requires inv(o, x, 0, 0), obj(o, x), !o.h[x].allocated, b != 0, !obj(o, b), !o.sets.contains_key(b), 0 < n < o.h[x].size,
        s.h == cut(o, x, b, n), s.sets == o.sets.insert(x, o.h[x].pool), s.small == o.small, s.act == o.act, s.held == o.held, s.reg == o.reg.insert(b, raddr(o.held, o.h[x].ptr))
    ensures inv(s, 0, b, 0), kept(s, o, b), obj(s, b)
{
    assert(blk_ok(o, x)); let rx = o.reg[x]; let pv = o.h[x].prev;
    assert(s.reg[b] == rx) by { let g = raddr(o.held, o.h[x].ptr); assert(inside(o.held, rx, o.h[x].ptr)); assert(inside(o.held, g, o.h[x].ptr)); if g != rx { assert(sepr(o, g, rx)); } }
    if pv != 0 { assert(obj(o, pv)); assert(blk_ok(o, pv)); assert(apart(o, pv)); }
    assert(o.held.contains_key(rx));
    assert forall|p: usize| obj(s, p) implies #[trigger] blk_ok(s, p) by {
        if p != b {
            assert(blk_ok(o, p));
            if o.h[p].next != 0 { let m = o.h[p].next; assert(obj(o, m)); assert(blk_ok(o, m)); }
            if o.h[p].prev != 0 { let m = o.h[p].prev; assert(obj(o, m)); assert(blk_ok(o, m)); }
        }
    }
    assert forall|p: usize, q: usize| obj(s, p) && obj(s, q) && p != q implies #[trigger] sep(s, p, q) by {
        let p0 = if p == b { x } else { p }; let q0 = if q == b { x } else { q };
        if p0 != q0 { assert(sep(o, p0, q0)); }
    }
    assert forall|p: usize| obj(s, p) && s.h[p].allocated && p != b implies #[trigger] mapped(s, p) by { assert(mapped(o, p)); }
    assert forall|k: usize| #[trigger] s.act.contains_key(k) implies obj(s, s.act[k]) && s.h[s.act[k]].ptr == k && s.h[s.act[k]].allocated by { assert(o.act.contains_key(k)); }
    assert forall|p: usize| obj(s, p) implies #[trigger] apart(s, p) by { if p != b { assert(apart(o, p)); assert(blk_ok(o, p)); } }
    assert forall|g: usize| #[trigger] s.held.contains_key(g) implies covered(s, g) by {
        assert(covered(o, g)); let p = choose|p: usize| #[trigger] obj(o, p) && o.h[p].ptr == g;
        if p == x { assert(obj(s, b)); assert(s.h[b].ptr == g); } else { assert(obj(s, p)); assert(s.h[p].ptr == g); }
    }
    assert forall|r: usize, q: usize| s.held.contains_key(r) && s.held.contains_key(q) && r != q implies #[trigger] sepr(s, r, q) by { assert(sepr(o, r, q)); }
}
/// a block out of its set is marked in use, or a block in use is marked free
pub proof fn lemma_mark(o: St, s: St, x: usize, on: bool)
    requires on ==> inv(o, x, 0, 0) && !o.h[x].allocated, !on ==> inv(o, 0, 0, 0) && o.h[x].allocated, x != 0, obj(o, x), s == (St { h: o.h.insert(x, Blk { allocated: on, ..o.h[x] }), ..o })
    ensures on ==> inv(s, 0, x, 0), !on ==> inv(s, x, x, x), kept(s, o, x)
{
    assert forall|p: usize| obj(s, p) implies #[trigger] blk_ok(s, p) by { assert(blk_ok(o, p)); }
    assert forall|p: usize, q: usize| obj(s, p) && obj(s, q) && p != q implies #[trigger] sep(s, p, q) by { assert(sep(o, p, q)); }
    assert forall|p: usize| obj(s, p) && s.h[p].allocated && p != x implies #[trigger] mapped(s, p) by { assert(mapped(o, p)); }
    assert forall|k: usize| #[trigger] s.act.contains_key(k) implies s.act[k] == x || obj(s, s.act[k]) && s.h[s.act[k]].ptr == k && s.h[s.act[k]].allocated by { assert(o.act.contains_key(k)); }
    assert forall|p: usize| obj(s, p) && (on || p != x && s.h[p].next != x) implies #[trigger] apart(s, p) by { assert(apart(o, p)); }
    assert forall|r: usize| #[trigger] s.held.contains_key(r) implies covered(s, r) by { assert(covered(o, r)); let p = choose|p: usize| #[trigger] obj(o, p) && o.h[p].ptr == r; assert(obj(s, p)); }
    assert forall|r: usize, q: usize| s.held.contains_key(r) && s.held.contains_key(q) && r != q implies #[trigger] sepr(s, r, q) by { assert(sepr(o, r, q)); }
}
/// only the address map changes
pub proof fn lemma_map(o: St, s: St, y: usize)
    requires inv(o, 0, y, 0), s == (St { act: s.act, ..o }), i_act(s, 0)
    ensures inv(s, 0, 0, 0), safe(s)
{
    assert forall|p: usize| obj(s, p) implies #[trigger] blk_ok(s, p) by { assert(blk_ok(o, p)); }
    assert forall|p: usize, q: usize| obj(s, p) && obj(s, q) && p != q implies #[trigger] sep(s, p, q) by { assert(sep(o, p, q)); }
    assert forall|p: usize| obj(s, p) implies #[trigger] apart(s, p) by { assert(apart(o, p)); }
    assert forall|r: usize| #[trigger] s.held.contains_key(r) implies covered(s, r) by { assert(covered(o, r)); let p = choose|p: usize| #[trigger] obj(o, p) && o.h[p].ptr == r; assert(obj(s, p)); }
    assert forall|r: usize, q: usize| s.held.contains_key(r) && s.held.contains_key(q) && r != q implies #[trigger] sepr(s, r, q) by { assert(sepr(o, r, q)); }
    lemma_safe(s);
}
/// neither neighbour of p is free
pub open spec fn settled(s: St, p: usize) -> bool {
    (s.h[p].prev != 0 ==> s.h[s.h[p].prev].allocated) && (s.h[p].next != 0 ==> s.h[s.h[p].next].allocated)
}
pub open spec fn mine(s: St, t: Impl) -> bool {
    &&& t.largeBlocks != t.smallBlocks && s.small.contains_key(t.largeBlocks) && s.small.contains_key(t.smallBlocks)
    &&& forall|q: usize| #[trigger] s.small.contains_key(q) ==> q == t.largeBlocks || q == t.smallBlocks
    &&& t.totalAllocatedSize_ == s.sum
}
pub open spec fn same_pools(s: St, o: St) -> bool { s.small == o.small }
/// every allocated block other than y is the same block before and after
pub open spec fn kept(s: St, o: St, y: usize) -> bool {
    forall|p: usize| #![trigger obj(s, p)] #![trigger obj(o, p)] ne(p, y) ==> ((obj(s, p) && s.h[p].allocated) <==> (obj(o, p) && o.h[p].allocated)) && (obj(s, p) && s.h[p].allocated ==> s.h[p].ptr == o.h[p].ptr && s.h[p].size == o.h[p].size)
}
/// the addresses handed out and how much memory belongs to each
pub open spec fn live(s: St) -> Map<usize, usize> { Map::new(s.act.dom(), |a: usize| s.h[s.act[a]].size) }
/// what the caller sees: live ranges inside held memory, pairwise disjoint
pub open spec fn safe(s: St) -> bool {
    &&& forall|a: usize| #[trigger] live(s).contains_key(a) ==> a != 0 && live(s)[a] > 0 && exists|r: usize| #[trigger] s.held.contains_key(r) && r <= a && a + live(s)[a] <= r + s.held[r]
    &&& forall|a: usize, b: usize| #[trigger] live(s).contains_key(a) && #[trigger] live(s).contains_key(b) && a != b ==> a + live(s)[a] <= b || b + live(s)[b] <= a
}
pub proof fn lemma_safe(s: St) requires inv(s, 0, 0, 0) ensures safe(s)
{
    assert forall|a: usize| #[trigger] live(s).contains_key(a) implies a != 0 && live(s)[a] > 0 && exists|r: usize| #[trigger] s.held.contains_key(r) && r <= a && a + live(s)[a] <= r + s.held[r] by {
        let p = s.act[a]; assert(s.act.contains_key(a)); assert(obj(s, p)); assert(blk_ok(s, p)); assert(s.held.contains_key(s.reg[p]));
    }
    assert forall|a: usize, b: usize| #[trigger] live(s).contains_key(a) && #[trigger] live(s).contains_key(b) && a != b implies a + live(s)[a] <= b || b + live(s)[b] <= a by {
        let p = s.act[a]; let q = s.act[b]; assert(s.act.contains_key(a) && s.act.contains_key(b)); assert(obj(s, p) && obj(s, q)); assert(sep(s, p, q));
    }
}
pub open spec fn split(s: St, e: usize) -> bool { s.h[e].prev != 0 || s.h[e].next != 0 }
/// blocks have different addresses
pub proof fn lemma_addr(s: St, p: usize, q: usize) requires i_blk(s), i_sep(s), obj(s, p), obj(s, q), p != q ensures s.h[p].ptr != s.h[q].ptr { assert(blk_ok(s, p)); assert(blk_ok(s, q)); assert(sep(s, p, q)); }
/// the neighbours of a block differ
pub proof fn lemma_nbrs(s: St, p: usize) requires i_blk(s), i_sep(s), obj(s, p) ensures s.h[p].prev == 0 || s.h[p].prev != s.h[p].next { assert(blk_ok(s, p)); if s.h[p].prev != 0 { assert(blk_ok(s, s.h[p].prev)); } }
/// some unsplit free blocks are gone and nothing else has changed
pub open spec fn trimmed(s: St, o: St) -> bool {
    &&& s.act == o.act && s.small == o.small && s.sets.dom().subset_of(o.sets.dom()) && s.h.dom().subset_of(o.h.dom())
    &&& forall|p: usize| #[trigger] obj(s, p) ==> obj(o, p) && s.h[p] == o.h[p]
    &&& forall|p: usize| #[trigger] s.sets.contains_key(p) ==> o.sets.contains_key(p) && s.sets[p] == o.sets[p]
    &&& forall|p: usize| #[trigger] obj(o, p) && (o.h[p].allocated || split(o, p)) ==> obj(s, p)
}
pub proof fn lemma_trim(s: St, m: St, o: St) requires trimmed(s, m), trimmed(m, o) ensures trimmed(s, o)
{
    assert forall|p: usize| #[trigger] obj(o, p) && (o.h[p].allocated || split(o, p)) implies obj(s, p) by { assert(obj(m, p)); assert(m.h[p] == o.h[p]); }
    assert forall|p: usize| #[trigger] obj(s, p) implies obj(o, p) && s.h[p] == o.h[p] by { assert(obj(m, p)); }
    assert forall|p: usize| #[trigger] s.sets.contains_key(p) implies o.sets.contains_key(p) && s.sets[p] == o.sets[p] by { assert(m.sets.contains_key(p)); }
}
pub proof fn lemma_trim_kept(s: St, o: St) requires trimmed(s, o) ensures kept(s, o, 0) { }
pub proof fn lemma_new_kept(s: St, m: St, o: St, r: usize) requires s.h == m.h.insert(r, s.h[r]), !obj(m, r), !s.h[r].allocated, kept(m, o, 0) ensures kept(s, o, 0)
{ assert forall|p: usize| #![trigger obj(s, p)] #![trigger obj(o, p)] ((obj(s, p) && s.h[p].allocated) <==> (obj(o, p) && o.h[p].allocated)) && (obj(s, p) && s.h[p].allocated ==> s.h[p].ptr == o.h[p].ptr && s.h[p].size == o.h[p].size) by { assert(obj(m, p) || !obj(m, p)); } }
pub open spec fn met(c: Seq<usize>, k: int, e: usize) -> bool { k >= 1 && c[0] == e || k >= 2 && c[1] == e }
@fn cmp = tinytorch::BlockComparator
@w const
@req
w.v().h.contains_key(a) && w.v().h.contains_key(b),
@ens
res == lt(w.v().h[a], w.v().h[b]),
@fn blk3 = tinytorch::Block::Block/3
@w none
@ens
*final(this) == (Blk { size, pool, ptr, allocated: false, prev: 0, next: 0 }),
@fn blk1 = tinytorch::Block::Block/1
@w none
@ens
final(this).size == size, final(this).ptr == 0,
@fn issplit = tinytorch::Block::isSplit
@w none
@ens
res == (this.prev != 0 || this.next != 0),
@fn aparams = tinytorch::AllocParams::AllocParams/3
@w none
@ens
final(this).searchKey.size == size, final(this).pool == pool, final(this).allocSize == allocSize, final(this).retBlock == 0,
@fn apsize = tinytorch::AllocParams::size
@w none
@ens
res == this.searchKey.size,
@fn rounds = tinytorch::CachedAllocatorImpl::roundSize
@w none
@req
size <= 0x4000_0000_0000_0000,
@ens
size <= res <= size + 512, res > 0,
@fn allocs = tinytorch::CachedAllocatorImpl::getAllocationSize
@w none
@req
size <= 0x4000_0000_0000_1000,
@ens
size <= res <= size + 0x1000_0000, res > 0,
@fn get_free = tinytorch::CachedAllocatorImpl::getFreeBlock
@req
inv(old(w).v(), 0, 0, 0), old(w).v().small.contains_key(old(p).pool),
@ens
final(p).pool == old(p).pool, final(p).allocSize == old(p).allocSize, final(p).searchKey == old(p).searchKey,
!res ==> final(w).v() == old(w).v(),
res ==> ({ let r = final(p).retBlock; let o = old(w).v(); let s = final(w).v(); r != 0 && obj(o, r) && in_set(o, old(p).pool, r) && o.h[r].ptr != 0 && !lt(o.h[r], old(p).searchKey)
    && s == (St { sets: o.sets.remove(r), ..o }) && inv(s, r, 0, 0) }),
@at entry
let ghost o = w.v();
@at before /pool_erase/
assert forall|e: usize| #[trigger] in_set(o, pool, e) && e != it implies o.h[e].ptr != o.h[it].ptr by { lemma_addr(o, e, it); }
@at after /pool_erase/
assert(in_set(o, pool, it)); lemma_take(o, w.v(), it); assert(blk_ok(o, it));
@fn get_pool = tinytorch::CachedAllocatorImpl::getPool
@w none
@ens
*final(this) == *old(this), res == old(this).smallBlocks || res == old(this).largeBlocks,
@fn alloc_block = tinytorch::CachedAllocatorImpl::allocBlock
@req
inv(old(w).v(), 0, 0, 0), mine(old(w).v(), *old(this)), old(w).v().small.contains_key(old(p).pool), 0 < old(p).allocSize <= i64::MAX,
@ens
final(p).pool == old(p).pool, final(p).allocSize == old(p).allocSize, final(p).searchKey == old(p).searchKey,
mine(final(w).v(), *final(this)), final(this).largeBlocks == old(this).largeBlocks, final(this).smallBlocks == old(this).smallBlocks,
!res ==> final(w).v() == old(w).v(),
res ==> ({ let r = final(p).retBlock; let o = old(w).v(); let s = final(w).v(); r != 0 && obj(s, r) && !obj(o, r) && s.h[r].ptr != 0 && !s.h[r].allocated && s.h[r].pool == old(p).pool && s.h[r].size == old(p).allocSize
    && s.h == o.h.insert(r, s.h[r]) && s.sets == o.sets && s.act == o.act && s.small == o.small && inv(s, r, 0, 0) }),
@at entry
let ghost o = w.v();
@at after /retBlock = /
lemma_region(o, w.v(), p.retBlock, ptr, size, w.v().h[p.retBlock]);
@fn should_split = tinytorch::CachedAllocatorImpl::shouldSplit
@w const
@req
w.v().h.contains_key(block), w.v().h[block].size >= size, w.v().small.contains_key(w.v().h[block].pool),
@ens
res ==> w.v().h[block].size > size,
@fn rel_block = tinytorch::CachedAllocatorImpl::releaseBlock
@req
inv(old(w).v(), 0, 0, 0), mine(old(w).v(), *old(this)), obj(old(w).v(), block), !old(w).v().h[block].allocated, old(w).v().h[block].prev == 0, old(w).v().h[block].next == 0,
@ens
inv(final(w).v(), 0, 0, 0), mine(final(w).v(), *final(this)), final(this).largeBlocks == old(this).largeBlocks, final(this).smallBlocks == old(this).smallBlocks,
final(w).v().h == old(w).v().h.remove(block), final(w).v().sets == old(w).v().sets.remove(block), final(w).v().act == old(w).v().act, final(w).v().small == old(w).v().small,
@at entry
let ghost o = w.v();
assert forall|a: usize| #[trigger] o.act.contains_key(a) implies !inside(o.held, o.h[block].ptr, a) by { lemma_apart_regions(o, block, a); }
assert(blk_ok(o, block));
@at before /pool_erase/
assert forall|e: usize| #[trigger] in_set(w.v(), pool, e) && e != block implies o.h[e].ptr != o.h[block].ptr by { assert(o.sets.contains_key(e)); lemma_addr(o, e, block); }
@at exit
assert(w.v().sets =~= o.sets.remove(block));
lemma_release(o, w.v(), block);
@fn rel_blocks = tinytorch::CachedAllocatorImpl::releaseBlocks
@req
inv(old(w).v(), 0, 0, 0), mine(old(w).v(), *old(this)), old(w).v().small.contains_key(pool),
@ens
inv(final(w).v(), 0, 0, 0), mine(final(w).v(), *final(this)), final(this).largeBlocks == old(this).largeBlocks, final(this).smallBlocks == old(this).smallBlocks,
trimmed(final(w).v(), old(w).v()), forall|e: usize| #[trigger] in_set(final(w).v(), pool, e) ==> split(final(w).v(), e),
@attr #[verifier::exec_allows_no_decreases_clause]
@loop 0
inv(w.v(), 0, 0, 0), mine(w.v(), *this), this.largeBlocks == old(this).largeBlocks, this.smallBlocks == old(this).smallBlocks, w.v().small.contains_key(pool),
trimmed(w.v(), old(w).v()), it != 0 ==> in_set(w.v(), pool, it),
forall|e: usize| #[trigger] in_set(w.v(), pool, e) ==> split(w.v(), e) || upto(w.v(), pool, it, e),
@at loop0.begin
let ghost it0 = it; let ghost o = w.v();
assert(blk_ok(o, it));
@at loop0.end
let ghost s = w.v();
assert(trimmed(s, o));
lemma_trim(s, o, old(w).v());
assert forall|e: usize| #[trigger] in_set(s, pool, e) implies split(s, e) || upto(s, pool, it, e) by { assert(s.sets.contains_key(e)); assert(in_set(o, pool, e)); assert(obj(s, e)); if !split(o, e) { assert(upto(o, pool, it0, e)); } }
@fn rel_cached = tinytorch::CachedAllocatorImpl::releaseCachedBlocks
@req
inv(old(w).v(), 0, 0, 0), mine(old(w).v(), *old(this)),
@ens
inv(final(w).v(), 0, 0, 0), mine(final(w).v(), *final(this)), final(this).largeBlocks == old(this).largeBlocks, final(this).smallBlocks == old(this).smallBlocks,
trimmed(final(w).v(), old(w).v()), forall|e: usize| #[trigger] obj(final(w).v(), e) && !final(w).v().h[e].allocated ==> split(final(w).v(), e),
@at before /rel_blocks/
let ghost m = w.v();
@at exit
let ghost s = w.v();
lemma_trim(s, m, old(w).v());
assert forall|q: usize, e: usize| #[trigger] in_set(s, q, e) implies split(s, e) by { assert(s.sets.contains_key(e)); assert(obj(s, e)); assert(in_set(m, q, e)); assert(blk_ok(s, e)); }
assert forall|e: usize| #[trigger] obj(s, e) && !s.h[e].allocated implies split(s, e) by { assert(blk_ok(s, e)); assert(s.sets.contains_key(e)); assert(in_set(s, s.h[e].pool, e)); }
@fn merge = tinytorch::CachedAllocatorImpl::tryMergeBlocks
@req
inv(old(w).v(), dst, dst, dst), obj(old(w).v(), dst), !old(w).v().h[dst].allocated, pool == old(w).v().h[dst].pool,
src == 0 || src == old(w).v().h[dst].prev || src == old(w).v().h[dst].next,
@ens
inv(final(w).v(), dst, dst, dst), obj(final(w).v(), dst), !final(w).v().h[dst].allocated, final(w).v().h[dst].pool == pool, kept(final(w).v(), old(w).v(), dst),
final(w).v().act == old(w).v().act, final(w).v().held == old(w).v().held, final(w).v().sum == old(w).v().sum, final(w).v().small == old(w).v().small,
src == 0 || src != old(w).v().h[dst].prev ==> final(w).v().h[dst].prev == old(w).v().h[dst].prev,
src == 0 || src != old(w).v().h[dst].next ==> final(w).v().h[dst].next == old(w).v().h[dst].next,
src == old(w).v().h[dst].prev ==> (final(w).v().h[dst].prev != 0 ==> final(w).v().h[final(w).v().h[dst].prev].allocated),
src == old(w).v().h[dst].next ==> (final(w).v().h[dst].next != 0 ==> final(w).v().h[final(w).v().h[dst].next].allocated),
@at entry
let ghost o = w.v(); let ghost before = src == o.h[dst].prev; let ghost other = if before { o.h[src].prev } else { o.h[src].next };
lemma_nbrs(o, dst); assert(blk_ok(o, dst)); assert(o.held.contains_key(o.reg[dst]));
if src != 0 { assert(obj(o, src)); assert(blk_ok(o, src)); if other != 0 { assert(obj(o, other)); assert(blk_ok(o, other)); lemma_nbrs(o, src); } }
@at before /pool_erase/
assert forall|e: usize| #[trigger] in_set(w.v(), pool, e) && e != src implies w.v().h[e].ptr != w.v().h[src].ptr by { assert(o.sets.contains_key(e)); lemma_addr(o, e, src); }
@at after /heap_del_bp/
assert(o.sets.contains_key(src));
assert(w.v().h =~= merged(o, dst, src, before));
assert(w.v().sets =~= o.sets.remove(src));
lemma_merge(o, w.v(), dst, src, before);
@fn free_block = tinytorch::CachedAllocatorImpl::freeBlock
@req
inv(old(w).v(), block, block, block), obj(old(w).v(), block), !old(w).v().h[block].allocated,
@ens
inv(final(w).v(), 0, block, 0), obj(final(w).v(), block), !final(w).v().h[block].allocated, kept(final(w).v(), old(w).v(), block),
final(w).v().act == old(w).v().act, final(w).v().held == old(w).v().held, final(w).v().sum == old(w).v().sum, final(w).v().small == old(w).v().small,
@loop 0
inv(w.v(), block, block, block), obj(w.v(), block), !w.v().h[block].allocated, w.v().h[block].pool == pool, kept(w.v(), old(w).v(), block),
w.v().act == old(w).v().act, w.v().held == old(w).v().held, w.v().sum == old(w).v().sum, w.v().small == old(w).v().small,
mergeCandidates@ == seq![old(w).v().h[block].prev, old(w).v().h[block].next] || mergeCandidates@ == seq![old(w).v().h[block].next, old(w).v().h[block].prev],
!met(mergeCandidates@, k_0 as int, old(w).v().h[block].prev) ==> w.v().h[block].prev == old(w).v().h[block].prev,
!met(mergeCandidates@, k_0 as int, old(w).v().h[block].next) ==> w.v().h[block].next == old(w).v().h[block].next,
met(mergeCandidates@, k_0 as int, old(w).v().h[block].prev) && w.v().h[block].prev != 0 ==> w.v().h[w.v().h[block].prev].allocated,
met(mergeCandidates@, k_0 as int, old(w).v().h[block].next) && w.v().h[block].next != 0 ==> w.v().h[w.v().h[block].next].allocated,
@at entry
let ghost o = w.v();
lemma_nbrs(o, block); assert(blk_ok(o, block));
@at loop0.begin
let ghost m = w.v();
lemma_nbrs(m, block); assert(blk_ok(m, block));
@at loop0.end
assert(blk_ok(w.v(), block));
@at before /pool_insert/
let ghost m = w.v();
assert(blk_ok(m, block));
assert forall|e: usize| #[trigger] in_set(m, pool, e) implies m.h[e].ptr != m.h[block].ptr by { assert(m.sets.contains_key(e)); lemma_addr(m, e, block); }
@at after /pool_insert/
lemma_put(m, w.v(), block, block);
@fn free_impl = tinytorch::CachedAllocatorImpl::freeImpl
@req
inv(old(w).v(), 0, 0, 0), obj(old(w).v(), block), old(w).v().h[block].allocated,
@ens
inv(final(w).v(), 0, block, 0), obj(final(w).v(), block), !final(w).v().h[block].allocated, kept(final(w).v(), old(w).v(), block),
final(w).v().act == old(w).v().act, final(w).v().held == old(w).v().held, final(w).v().sum == old(w).v().sum, final(w).v().small == old(w).v().small,
@at entry
let ghost o = w.v();
assert(blk_ok(o, block));
@at after /heap_set_bp_allocated/
lemma_mark(o, w.v(), block, false);
@fn malloc_impl = tinytorch::CachedAllocatorImpl::mallocImpl
@req
inv(old(w).v(), 0, 0, 0), mine(old(w).v(), *old(this)), origSize <= 0x4000_0000_0000_0000,
@ens
mine(final(w).v(), *final(this)), final(this).largeBlocks == old(this).largeBlocks, final(this).smallBlocks == old(this).smallBlocks,
final(w).v().act == old(w).v().act, kept(final(w).v(), old(w).v(), res),
res == 0 ==> inv(final(w).v(), 0, 0, 0),
res != 0 ==> inv(final(w).v(), 0, res, 0) && obj(final(w).v(), res) && final(w).v().h[res].allocated && final(w).v().h[res].size >= origSize && !(obj(old(w).v(), res) && old(w).v().h[res].allocated),
@at entry
let ghost o = w.v();
@at before /alloc_block/
let ghost pre = w.v();
@at after /blockFound = /
if blockFound { lemma_new_kept(w.v(), pre, o, params.retBlock); }
@at after /rel_cached/
lemma_trim_kept(w.v(), o);
@at before /let mut block:/
let ghost m = w.v(); let ghost x = params.retBlock;
assert(blk_ok(m, x));
if m.h[x].prev != 0 { assert(obj(m, m.h[x].prev)); }
assert(kept(m, o, 0));
@at before /pool_insert/
assert forall|e: usize| #[trigger] in_set(w.v(), pool, e) implies w.v().h[e].ptr != w.v().h[x].ptr by { assert(m.sets.contains_key(e)); assert(blk_ok(m, e)); assert(sep(m, e, x)); }
@at after /heap_set_bp_allocated/
if block == x { lemma_mark(m, w.v(), x, true); }
else { assert(w.v().h =~= cut(m, x, block, size)); assert(w.v().sets =~= m.sets.insert(x, m.h[x].pool)); lemma_cut(m, w.v(), x, block, size); }
@fn allocate = tinytorch::CachedAllocatorImpl::allocate
@req
inv(old(w).v(), 0, 0, 0), mine(old(w).v(), *old(this)), 0 <= nbytes <= 0x4000_0000_0000_0000,
@ens
inv(final(w).v(), 0, 0, 0), mine(final(w).v(), *final(this)), safe(final(w).v()),
res == 0 ==> live(final(w).v()) == live(old(w).v()),
res != 0 ==> !live(old(w).v()).contains_key(res) && live(final(w).v()).contains_key(res) && live(final(w).v())[res] >= nbytes && live(final(w).v()) == live(old(w).v()).insert(res, live(final(w).v())[res]),
@at entry
let ghost o = w.v();
@at after /let mut block/
let ghost m = w.v();
if block == 0 { lemma_safe(m); assert(live(m) =~= live(o)) by { assert forall|a: usize| #[trigger] o.act.contains_key(a) implies m.h[o.act[a]].size == o.h[o.act[a]].size by { assert(obj(o, o.act[a])); } } }
else { assert(blk_ok(m, block)); }
@at after /act_set/
let ghost s = w.v();
assert forall|p: usize| obj(s, p) && s.h[p].allocated implies #[trigger] mapped(s, p) by { if p != block { assert(mapped(m, p)); lemma_addr(m, p, block); } }
assert forall|a: usize| #[trigger] s.act.contains_key(a) implies obj(s, s.act[a]) && s.h[s.act[a]].ptr == a && s.h[s.act[a]].allocated by { if a != m.h[block].ptr { assert(m.act.contains_key(a)); assert(o.act.contains_key(a)); assert(obj(o, o.act[a])); } }
lemma_map(m, s, block);
assert forall|a: usize| #[trigger] o.act.contains_key(a) implies s.h[o.act[a]].size == o.h[o.act[a]].size && a != m.h[block].ptr by { let q = o.act[a]; assert(obj(o, q)); assert(obj(m, q)); lemma_addr(m, q, block); }
assert(live(s) =~= live(o).insert(m.h[block].ptr, m.h[block].size));
@fn deallocate = tinytorch::CachedAllocatorImpl::deallocate
@req
inv(old(w).v(), 0, 0, 0), mine(old(w).v(), *old(this)),
@ens
inv(final(w).v(), 0, 0, 0), mine(final(w).v(), *final(this)), safe(final(w).v()), live(final(w).v()) == live(old(w).v()).remove(ptr),
!live(old(w).v()).contains_key(ptr) ==> final(w).v() == old(w).v(),
@at entry
let ghost o = w.v();
lemma_safe(o);
if !o.act.contains_key(ptr) { assert(live(o).remove(ptr) =~= live(o)); } else { assert(obj(o, o.act[ptr])); assert(blk_ok(o, o.act[ptr])); }
@at before /act_erase/
let ghost m = w.v();
@at after /act_erase/
let ghost s = w.v(); let ghost q = o.act[ptr];
assert forall|a: usize| #[trigger] s.act.contains_key(a) implies s.act[a] != q && obj(s, s.act[a]) && s.h[s.act[a]].ptr == a && s.h[s.act[a]].allocated && s.h[s.act[a]].size == o.h[o.act[a]].size by { assert(o.act.contains_key(a)); assert(obj(o, o.act[a])); }
assert forall|p: usize| obj(s, p) && s.h[p].allocated implies #[trigger] mapped(s, p) by { assert(p != q); assert(obj(o, p)); assert(mapped(o, p)); assert(blk_ok(o, p)); if o.h[p].ptr == ptr { lemma_addr(o, p, q); } }
lemma_map(m, s, q);
assert(live(s) =~= live(o).remove(ptr));
@fn ctor = tinytorch::CachedAllocatorImpl::CachedAllocatorImpl/1
@req
old(w).v() == (St { h: Map::empty(), sets: Map::empty(), small: Map::empty(), act: Map::empty(), held: Map::empty(), sum: 0, reg: old(w).v().reg }),
@ens
inv(final(w).v(), 0, 0, 0), mine(final(w).v(), *final(this)), live(final(w).v()) == Map::<usize, usize>::empty(),
@fn dtor = tinytorch::CachedAllocatorImpl::~CachedAllocatorImpl
@req
inv(old(w).v(), 0, 0, 0), mine(old(w).v(), *old(this)), live(old(w).v()) == Map::<usize, usize>::empty(),
@ens
final(w).v().held == Map::<usize, usize>::empty(),
@at entry
let ghost o = w.v();
assert forall|a: usize| !o.act.contains_key(a) by { assert(!live(o).contains_key(a)); }
assert(o.act =~= Map::empty());
@at after /rel_cached/
let ghost s = w.v();
assert forall|p: usize| !#[trigger] obj(s, p) by {
if obj(s, p) { if s.h[p].allocated { assert(mapped(s, p)); } assert(blk_ok(s, p)); if s.h[p].next != 0 { assert(apart(s, p)); assert(obj(s, s.h[p].next)); assert(mapped(s, s.h[p].next)); } else { let q = s.h[p].prev; assert(obj(s, q)); assert(apart(s, q)); assert(blk_ok(s, q)); assert(mapped(s, q)); } }
}
assert forall|r: usize| !s.held.contains_key(r) by { if s.held.contains_key(r) { assert(covered(s, r)); } }
assert(s.held =~= Map::empty());
