@tu
#include "Tensor/AutogradMeta.cpp"
@opt type=Tensor=>T
@opt type=tinytorch::Tensor=>T
@opt type=AutogradMeta=>Am
@opt type=AutogradMeta *=>Am
@opt type=tinytorch::AutogradMeta=>Am
@opt type=tinytorch::AutogradMeta *=>Am
@opt type=std::shared_ptr<AutogradMeta>=>Am
@opt type=std::shared_ptr<tinytorch::AutogradMeta>=>Am
@opt type=FunctionBase=>Fb
@opt type=FunctionBase *=>Fb
@opt type=tinytorch::FunctionBase=>Fb
@opt type=tinytorch::FunctionBase *=>Fb
@opt type=std::shared_ptr<FunctionBase>=>Fb
@opt type=std::shared_ptr<tinytorch::FunctionBase>=>Fb
@opt type=std::weak_ptr<FunctionBase>=>Fb
@opt type=std::weak_ptr<tinytorch::FunctionBase>=>Fb
@opt type=std::vector<std::shared_ptr<FunctionBase>>=>Gl
@opt type=std::vector<std::shared_ptr<tinytorch::FunctionBase>>=>Gl
@opt type=std::vector<std::weak_ptr<FunctionBase>>=>Vec<Fb>
@opt type=std::vector<std::weak_ptr<tinytorch::FunctionBase>>=>Vec<Fb>
@opt type=ankerl::unordered_dense::map<std::shared_ptr<FunctionBase>, int>=>Dm
@opt type=std::deque<std::shared_ptr<FunctionBase>>=>Dq
@opt type=std::set<std::shared_ptr<FunctionBase>>=>Fs
@opt type=ankerl::unordered_dense::detail::table<std::shared_ptr<tinytorch::FunctionBase>, int, ankerl::unordered_dense::hash<std::shared_ptr<tinytorch::FunctionBase>>, std::equal_to<std::shared_ptr<tinytorch::FunctionBase>>, std::allocator<std::pair<std::shared_ptr<tinytorch::FunctionBase>, int>>, ankerl::unordered_dense::bucket_type::standard, ankerl::unordered_dense::detail::default_container_t, false>=>Dm
@opt type=std::nullptr_t=>usize
@opt type=std::deque<std::shared_ptr<tinytorch::FunctionBase>>=>Dq
@opt type=std::set<std::shared_ptr<tinytorch::FunctionBase>>=>Fs
@opt type=std::weak_ptr<tinytorch::AutogradMeta>=>Am
@opt type=std::weak_ptr<AutogradMeta>=>Am
@opt type=element_type *=>Fb
@opt type=element_type=>Fb
@opt field=element_type.grad_=>g_grad(w, $this) | s_grad(w, $this, $x)
@opt field=element_type.weakOwner=>f_own(w, $this) | s_own(w, $this, $x)
@opt field=element_type.nextFunctions=>f_next(w, $this)
@opt method=Am.shared_from_this/0=>$this
@opt method=Fb.backward/1=>! f_backward(w, $this, $0)
@opt copytype=T Am Fb Gl
@opt pointer=Am Fb Gl
@opt range=Gl=>gl_get(w, $this)
@opt handle=tinytorch::AutogradMeta
@opt call=operator->/1=>$0
@opt call=operator==/2=>($0 == $1)
@opt call=operator!=/2=>($0 != $1)
@opt field=AutogradMeta.grad_=>g_grad(w, $this) | s_grad(w, $this, $x)
@opt field=AutogradMeta.gradFn_=>g_fn(w, $this) | s_fn(w, $this, $x)
@opt field=AutogradMeta.backwardGraph_=>$this
@opt field=FunctionBase.nextFunctions=>f_next(w, $this)
@opt field=FunctionBase.weakOwner=>f_own(w, $this) | s_own(w, $this, $x)
@opt method=Fb.lock/0=>$this
@opt method=Am.lock/0=>$this
@opt method=Gl.empty/0=>gl_empty(w, $this)
@opt method=Gl.push_back/1=>! gl_push(w, $this, $0)
@opt index=Dm=>dm_get(&$b, $k) | dm_set(&mut $b, $k, $x)
@opt method=Dq.push_back/1=>! dq_push(&mut $this, $0)
@opt method=Dq.pop_front/0=>! dq_pop(&mut $this)
@opt method=Dq.front/0=>dq_front(&$this)
@opt method=Dq.empty/0=>dq_empty(&$this)
@opt method=Fs.find/1=>fs_find(&$this, $0)
@opt method=Fs.end/0=>0
@opt method=Fs.insert/1=>! fs_add(&mut $this, $0)
@opt method=T.defined/0=>($this != 0)
@opt method=T.clone/0=>= t_clone(w, $this)
@opt call=tinytorch::op::addInplace/3=>! t_add_in(w, $0, $1, $2)
@opt method=T.shape/0=>$this
@opt method=T.options/0=>$this
@opt method=usize.noGrad/0=>$this
@opt call=tinytorch::Tensor::empty/2=>= t_empty(w, $0, $1)
@opt method=T.fillZero_/0=>! t_zero(w, $this)
@opt call=ctor Dm/0=>dm_new()
@opt call=ctor Dq/0=>dq_new()
@opt call=ctor Fs/1=>fs_of($0)
@opt call=ctor T/0=>0
@opt call=operator*/1=>$0
@opt type=std::type_info=>usize
@opt default=T=>0
@opt default=Dm=>dm_new()
@opt default=Dq=>dq_new()
@raw
global size_of usize == 8;
pub type T = usize; pub type Am = usize; pub type Fb = usize; pub type Gl = usize;
/// recorded operations and gradient holders are objects reached through handles (0: none).
/// next: the operations that recorded an operation's inputs, one entry per input that requires a gradient; own: the holder
/// of an operation's result; fnof: the operation a holder belongs to; bg: a holder's cached order; gr: the tensor a holder
/// keeps as its gradient; val: what each tensor is the sum of; log: the operations evaluated so far, each with what its
/// upstream gradient was the sum of
pub type Sum = Seq<int>;
pub struct St { pub next: Map<usize, Seq<usize>>, pub own: Map<usize, usize>, pub fnof: Map<usize, usize>, pub bg: Map<usize, Seq<usize>>, pub gr: Map<usize, usize>, pub val: Map<usize, Sum>, pub log: Seq<(usize, Sum)> }
#[verifier::external_body]
pub struct World { _p: u8 }
impl World { pub uninterp spec fn v(&self) -> St; }
/// whether an operation object marks a leaf (its dynamic type)
pub uninterp spec fn leaf(f: usize) -> bool;
/// the operation objects alive, and a measure of how far each is from the leaves
pub uninterp spec fn ul() -> Seq<usize>;
pub uninterp spec fn rank(f: usize) -> nat;
/// what operation f adds to holder a when given the upstream gradient g
pub uninterp spec fn dl(f: usize, a: usize, g: Sum) -> Sum;
#[verifier::external_body] pub fn trap() requires false { unimplemented!() }
#[verifier::external_body] pub fn g_grad(w: &World, a: Am) -> (r: T) ensures r == w.v().gr[a] { unimplemented!() }
#[verifier::external_body] pub fn s_grad(w: &mut World, a: Am, x: T) ensures final(w).v() == (St { gr: old(w).v().gr.insert(a, x), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body] pub fn g_fn(w: &World, a: Am) -> (r: Fb) ensures r == w.v().fnof[a] { unimplemented!() }
#[verifier::external_body] pub fn s_fn(w: &mut World, a: Am, x: Fb) ensures final(w).v() == (St { fnof: old(w).v().fnof.insert(a, x), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body] pub fn f_own(w: &World, f: Fb) -> (r: Am) ensures r == w.v().own[f] { unimplemented!() }
#[verifier::external_body] pub fn s_own(w: &mut World, f: Fb, x: Am) ensures final(w).v() == (St { own: old(w).v().own.insert(f, x), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body] pub fn f_next(w: &World, f: Fb) -> (r: Vec<usize>) ensures r@ == w.v().next[f] { unimplemented!() }
#[verifier::external_body] pub fn gl_empty(w: &World, a: Am) -> (r: bool) ensures r == (w.v().bg[a].len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn gl_get(w: &World, a: Am) -> (r: Vec<usize>) ensures r@ == w.v().bg[a] { unimplemented!() }
#[verifier::external_body] pub fn gl_clear(w: &mut World, a: Am) ensures final(w).v() == (St { bg: old(w).v().bg.insert(a, Seq::empty()), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body] pub fn gl_push(w: &mut World, a: Am, f: Fb) ensures final(w).v() == (St { bg: old(w).v().bg.insert(a, old(w).v().bg[a].push(f)), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body] pub fn tid_of(w: &World, f: Fb) -> (r: usize) ensures r == (if leaf(f) { 1usize } else { 2usize }) { unimplemented!() }
#[verifier::external_body] pub fn tid_FuncLeaf() -> (r: usize) ensures r == 1 { unimplemented!() }
#[verifier::external_body] pub fn t_clone(w: &mut World, t: T) -> (r: T) requires old(w).v().val.contains_key(t)
    ensures r != 0, !old(w).v().val.contains_key(r), final(w).v() == (St { val: old(w).v().val.insert(r, old(w).v().val[t]), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body] pub fn t_add_in(w: &mut World, t: T, x: T, alpha: i32) requires old(w).v().val.contains_key(t), old(w).v().val.contains_key(x), alpha == 1
    ensures final(w).v() == (St { val: old(w).v().val.insert(t, old(w).v().val[t] + old(w).v().val[x]), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body] pub fn t_empty(w: &mut World, s: T, o: T) -> (r: T)
    ensures r != 0, !old(w).v().val.contains_key(r), final(w).v() == (St { val: old(w).v().val.insert(r, final(w).v().val[r]), ..old(w).v() }) { unimplemented!() }
#[verifier::external_body] pub fn t_zero(w: &mut World, t: T) requires old(w).v().val.contains_key(t)
    ensures final(w).v() == (St { val: old(w).v().val.insert(t, Seq::empty()), ..old(w).v() }) { unimplemented!() }
/// a hash map from operations to counts: entries start at zero
#[verifier::external_body]
pub struct Dm { _p: u8 }
impl Dm { pub uninterp spec fn m(&self, f: usize) -> int; }
#[verifier::external_body] pub fn dm_new() -> (r: Dm) ensures forall|f: usize| #[trigger] r.m(f) == 0 { unimplemented!() }
#[verifier::external_body] pub fn dm_get(d: &Dm, f: usize) -> (r: i32) ensures r == d.m(f) { unimplemented!() }
#[verifier::external_body] pub fn dm_set(d: &mut Dm, f: usize, x: i32) ensures forall|g: usize| #[trigger] final(d).m(g) == (if g == f { x as int } else { old(d).m(g) }) { unimplemented!() }
#[verifier::external_body]
pub struct Dq { _p: u8 }
impl Dq { pub uninterp spec fn q(&self) -> Seq<usize>; }
#[verifier::external_body] pub fn dq_new() -> (r: Dq) ensures r.q() == Seq::<usize>::empty() { unimplemented!() }
#[verifier::external_body] pub fn dq_push(d: &mut Dq, x: usize) ensures final(d).q() == old(d).q().push(x) { unimplemented!() }
#[verifier::external_body] pub fn dq_pop(d: &mut Dq) requires old(d).q().len() > 0 ensures final(d).q() == old(d).q().skip(1) { unimplemented!() }
#[verifier::external_body] pub fn dq_front(d: &Dq) -> (r: usize) requires d.q().len() > 0 ensures r == d.q()[0] { unimplemented!() }
#[verifier::external_body] pub fn dq_empty(d: &Dq) -> (r: bool) ensures r == (d.q().len() == 0) { unimplemented!() }
#[verifier::external_body]
pub struct Fs { _p: u8 }
impl Fs { pub uninterp spec fn s(&self, f: usize) -> bool; }
#[verifier::external_body] pub fn fs_of(v: Vec<usize>) -> (r: Fs) ensures forall|f: usize| #[trigger] r.s(f) == v@.contains(f) { unimplemented!() }
#[verifier::external_body] pub fn fs_find(d: &Fs, f: usize) -> (r: usize) ensures r == (if d.s(f) { f } else { 0 }) { unimplemented!() }
#[verifier::external_body] pub fn fs_add(d: &mut Fs, f: usize) ensures forall|g: usize| #[trigger] final(d).s(g) == (old(d).s(g) || g == f) { unimplemented!() }

/// ---- counting edges
pub open spec fn cnt(s: Seq<usize>, x: usize) -> int decreases s.len() { if s.len() == 0 { 0 } else { cnt(s.drop_last(), x) + if s.last() == x { 1int } else { 0 } } }
/// edges from the members of s into x
pub open spec fn ec(nx: Map<usize, Seq<usize>>, s: Seq<usize>, x: usize) -> int decreases s.len() { if s.len() == 0 { 0 } else { ec(nx, s.drop_last(), x) + cnt(nx[s.last()], x) } }
pub open spec fn inn(s: Seq<usize>, x: usize) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x }
pub open spec fn nodup(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
pub open spec fn sub(a: Seq<usize>, b: Seq<usize>) -> bool { forall|i: int| 0 <= i < a.len() ==> inn(b, #[trigger] a[i]) }
pub proof fn cnt_pos(s: Seq<usize>, x: usize) ensures cnt(s, x) >= 0, cnt(s, x) > 0 <==> inn(s, x) decreases s.len()
{ if s.len() > 0 { cnt_pos(s.drop_last(), x); assert(forall|i: int| 0 <= i < s.len() - 1 ==> s.drop_last()[i] == s[i]); if inn(s.drop_last(), x) { let i = choose|i: int| 0 <= i < s.len() - 1 && s.drop_last()[i] == x; assert(s[i] == x); } if inn(s, x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < s.len() - 1 { assert(s.drop_last()[i] == x); } } if s.last() == x { assert(s[s.len() - 1] == x); } } }
pub proof fn cnt_take(s: Seq<usize>, k: int, x: usize) requires 0 <= k < s.len() ensures cnt(s.take(k + 1), x) == cnt(s.take(k), x) + (if s[k] == x { 1int } else { 0 })
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn cnt_mono(s: Seq<usize>, k: int, x: usize) requires 0 <= k <= s.len() ensures cnt(s.take(k), x) <= cnt(s, x) decreases s.len() - k
{ if k < s.len() { cnt_take(s, k, x); cnt_mono(s, k + 1, x); } else { assert(s.take(k) =~= s); } }
pub proof fn ec_pos(nx: Map<usize, Seq<usize>>, s: Seq<usize>, x: usize) ensures ec(nx, s, x) >= 0 decreases s.len()
{ if s.len() > 0 { ec_pos(nx, s.drop_last(), x); cnt_pos(nx[s.last()], x); } }
pub proof fn ec_remove(nx: Map<usize, Seq<usize>>, s: Seq<usize>, i: int, x: usize) requires 0 <= i < s.len() ensures ec(nx, s, x) == ec(nx, s.remove(i), x) + cnt(nx[s[i]], x) decreases s.len()
{
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); }
    else { ec_remove(nx, s.drop_last(), i, x); assert(s.remove(i).drop_last() =~= s.drop_last().remove(i)); assert(s.remove(i).last() == s.last()); }
}
/// a set of operations without repetition inside another: no more edges, and exactly as many only if none is missing
pub proof fn ec_sub(nx: Map<usize, Seq<usize>>, a: Seq<usize>, b: Seq<usize>, x: usize)
    requires nodup(a), nodup(b), sub(a, b)
    ensures a.len() <= b.len(), ec(nx, a, x) <= ec(nx, b, x),
        ec(nx, a, x) == ec(nx, b, x) <==> forall|p: usize| #[trigger] inn(b, p) && !inn(a, p) ==> cnt(nx[p], x) == 0
    decreases a.len()
{
    if a.len() == 0 {
        ec_pos(nx, b, x); ec_zero(nx, b, x);
        assert(forall|p: usize| !inn(a, p));
    } else {
        let l = a.last(); assert(a[a.len() - 1] == l); let a1 = a.drop_last();
        let i = choose|i: int| 0 <= i < b.len() && b[i] == l;
        let b1 = b.remove(i);
        assert forall|k: int| 0 <= k < a1.len() implies inn(b1, #[trigger] a1[k]) by { assert(a[k] == a1[k]); assert(inn(b, a[k])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[k]; assert(a[k] != l); assert(j != i); assert(b1[if j < i { j } else { j - 1 }] == a[k]); }
        assert forall|k: int, j: int| 0 <= k < j < b1.len() implies #[trigger] b1[k] != #[trigger] b1[j] by { let k2 = if k < i { k } else { k + 1 }; let j2 = if j < i { j } else { j + 1 }; assert(b[k2] != b[j2]); }
        assert forall|k: int, j: int| 0 <= k < j < a1.len() implies #[trigger] a1[k] != #[trigger] a1[j] by { assert(a[k] != a[j]); }
        ec_sub(nx, a1, b1, x);
        ec_remove(nx, b, i, x);
        assert forall|p: usize| inn(b, p) && !inn(a, p) <==> inn(b1, p) && !inn(a1, p) by {
            assert(inn(a, p) <==> inn(a1, p) || p == l) by { if inn(a, p) { let k = choose|k: int| 0 <= k < a.len() && a[k] == p; if k < a.len() - 1 { assert(a1[k] == p); } } if inn(a1, p) { let k = choose|k: int| 0 <= k < a1.len() && a1[k] == p; assert(a[k] == p); } }
            assert(inn(b, p) <==> inn(b1, p) || p == l) by { if inn(b, p) { let k = choose|k: int| 0 <= k < b.len() && b[k] == p; if k != i { assert(b1[if k < i { k } else { k - 1 }] == p); } } if inn(b1, p) { let k = choose|k: int| 0 <= k < b1.len() && b1[k] == p; assert(b[if k < i { k } else { k + 1 }] == p); } }
            if inn(b1, p) { let k = choose|k: int| 0 <= k < b1.len() && b1[k] == p; let k2 = if k < i { k } else { k + 1 }; assert(b[k2] == p); if k2 < i { assert(b[k2] != b[i]); } else { assert(b[i] != b[k2]); } }
        }
        assert(forall|p: usize| (#[trigger] inn(b, p) && !inn(a, p)) == (inn(b1, p) && !inn(a1, p)));
        if ec(nx, a, x) == ec(nx, b, x) { assert forall|p: usize| #[trigger] inn(b, p) && !inn(a, p) implies cnt(nx[p], x) == 0 by { assert(inn(b1, p)); } }
        if forall|p: usize| #[trigger] inn(b, p) && !inn(a, p) ==> cnt(nx[p], x) == 0 { assert forall|p: usize| #[trigger] inn(b1, p) && !inn(a1, p) implies cnt(nx[p], x) == 0 by { assert(inn(b, p)); } }
    }
}
pub proof fn ec_zero(nx: Map<usize, Seq<usize>>, b: Seq<usize>, x: usize) ensures ec(nx, b, x) == 0 <==> forall|p: usize| #[trigger] inn(b, p) ==> cnt(nx[p], x) == 0 decreases b.len()
{
    if b.len() > 0 {
        let d = b.drop_last(); ec_zero(nx, d, x); ec_pos(nx, d, x); cnt_pos(nx[b.last()], x); assert(b[b.len() - 1] == b.last());
        assert(inn(b, b.last()));
        assert forall|p: usize| inn(b, p) <==> inn(d, p) || p == b.last() by { if inn(b, p) { let k = choose|k: int| 0 <= k < b.len() && b[k] == p; if k < b.len() - 1 { assert(d[k] == p); } } if inn(d, p) { let k = choose|k: int| 0 <= k < d.len() && d[k] == p; assert(b[k] == p); } }
        if ec(nx, b, x) == 0 { assert forall|p: usize| #[trigger] inn(b, p) implies cnt(nx[p], x) == 0 by { assert(p != b.last() ==> inn(d, p)); } }
        if forall|p: usize| #[trigger] inn(b, p) ==> cnt(nx[p], x) == 0 { assert forall|p: usize| #[trigger] inn(d, p) implies cnt(nx[p], x) == 0 by { assert(inn(b, p)); } }
    }
}
pub proof fn size_sub(a: Seq<usize>, b: Seq<usize>) requires nodup(a), nodup(b), sub(a, b) ensures a.len() <= b.len() { ec_sub(Map::empty(), a, b, 0); }
/// ---- the recorded computation
/// what is alive: closed under `next`, without cycles, every operation known to the holder of its result; a leaf has no inputs
#[verifier::opaque] pub open spec fn live(v: St, r: usize) -> bool {
    nodup(ul()) && inn(ul(), r) && forall|i: int| 0 <= i < ul().len() ==> opok(v, #[trigger] ul()[i])
    && (forall|x: usize| #[trigger] ec(v.next, ul(), x) < 0x7fff_ffff)
}
pub open spec fn opok(v: St, f: usize) -> bool {
    f != 0 && v.own[f] != 0 && v.fnof[v.own[f]] == f && (leaf(f) ==> v.next[f].len() == 0)
    && forall|k: int| 0 <= k < v.next[f].len() ==> inn(ul(), #[trigger] v.next[f][k]) && rank(v.next[f][k]) < rank(f)
}
/// an order of everything reachable from r: each operation once, r first, each after all operations that use its result
#[verifier::opaque] pub open spec fn topo(v: St, s: Seq<usize>, r: usize) -> bool {
    s.len() > 0 && s[0] == r && nodup(s) && sub(s, ul())
    && (forall|i: int, y: usize| 0 <= i < s.len() && inn(v.next[#[trigger] s[i]], y) ==> #[trigger] inn(s, y))
    && (forall|i: int| 0 < i < s.len() ==> sourced(v.next, s, #[trigger] s[i], i))
    && (forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && inn(v.next[#[trigger] s[j]], #[trigger] s[i]) ==> j < i)
}
/// x is an input of one of the first n
pub open spec fn sourced(nx: Map<usize, Seq<usize>>, s: Seq<usize>, x: usize, n: int) -> bool { exists|j: int| 0 <= j < n && j < s.len() && inn(nx[#[trigger] s[j]], x) }
/// ---- first pass: everything reachable, with the number of uses of each
#[verifier::opaque] pub open spec fn cl(v: St, s: Seq<usize>, n: int) -> bool { forall|i: int, k: int| 0 <= i < n && 0 <= k < v.next[s[i]].len() ==> inn(s, #[trigger] v.next[#[trigger] s[i]][k]) }
#[verifier::opaque] pub open spec fn p1(v: St, r: usize, s: Seq<usize>) -> bool { s.len() > 0 && s[0] == r && nodup(s) && sub(s, ul()) && forall|i: int| 0 < i < s.len() ==> sourced(v.next, s, #[trigger] s[i], i) }
pub proof fn inn_push(s: Seq<usize>, y: usize) ensures forall|x: usize| #[trigger] inn(s.push(y), x) <==> inn(s, x) || x == y
{ reveal(live); reveal(topo); reveal(cl); reveal(p1); reveal(dg); reveal(reachd); reveal(p2);  assert forall|x: usize| #[trigger] inn(s.push(y), x) <==> inn(s, x) || x == y by { if inn(s, x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(y)[i] == x); } if x == y { assert(s.push(y)[s.len() as int] == x); } if inn(s.push(y), x) { let i = choose|i: int| 0 <= i < s.push(y).len() && s.push(y)[i] == x; if i < s.len() { assert(s[i] == x); } } } }
pub proof fn p1_push(v: St, r: usize, s: Seq<usize>, c: int, k: int)
    requires p1(v, r, s), live(v, r), 0 <= c < s.len(), 0 <= k < v.next[s[c]].len(), !inn(s, v.next[s[c]][k])
    ensures p1(v, r, s.push(v.next[s[c]][k])), inn(ul(), v.next[s[c]][k])
{ reveal(live); reveal(topo); reveal(cl); reveal(p1); reveal(dg); reveal(reachd); reveal(p2); 
    let y = v.next[s[c]][k]; let t = s.push(y);
    live_at(v, r, s, c);
    assert forall|i: int| 0 < i < t.len() implies sourced(v.next, t, #[trigger] t[i], i) by {
        if i < s.len() { assert(t[i] == s[i]); let j = choose|j: int| 0 <= j < i && j < s.len() && inn(v.next[s[j]], s[i]); assert(inn(v.next[t[j]], t[i])); }
        else { assert(t[c] == s[c]); assert(inn(v.next[t[c]], y)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] != #[trigger] t[j] by { if j == s.len() { assert(s[i] != y); } }
    assert forall|i: int| 0 <= i < t.len() implies inn(ul(), #[trigger] t[i]) by { if i < s.len() { assert(inn(ul(), s[i])); } }
}
pub proof fn live_at(v: St, r: usize, s: Seq<usize>, c: int) requires live(v, r), sub(s, ul()), 0 <= c < s.len() ensures opok(v, s[c]), inn(ul(), s[c])
{ reveal(live); reveal(topo); reveal(cl); reveal(p1); reveal(dg); reveal(reachd); reveal(p2);  assert(inn(ul(), s[c])); let i = choose|i: int| 0 <= i < ul().len() && ul()[i] == s[c]; assert(opok(v, ul()[i])); }
pub proof fn live_of(v: St, r: usize, f: usize) requires live(v, r), inn(ul(), f) ensures opok(v, f)
{ reveal(live); reveal(topo); reveal(cl); reveal(p1); reveal(dg); reveal(reachd); reveal(p2);  let i = choose|i: int| 0 <= i < ul().len() && ul()[i] == f; assert(opok(v, ul()[i])); }
pub proof fn take_sub(s: Seq<usize>, t: Seq<usize>, n: int) requires nodup(s), sub(s, t), 0 <= n <= s.len() ensures nodup(s.take(n)), sub(s.take(n), t)
{ reveal(live); reveal(topo); reveal(cl); reveal(p1); reveal(dg); reveal(reachd); reveal(p2);  assert forall|i: int| 0 <= i < n implies inn(t, #[trigger] s.take(n)[i]) by { assert(s.take(n)[i] == s[i]); } }
/// counts so far, and they stay small
pub proof fn p1_count(v: St, r: usize, s: Seq<usize>, c: int, k: int)
    requires live(v, r), nodup(s), sub(s, ul()), 0 <= c < s.len(), 0 <= k < v.next[s[c]].len()
    ensures forall|x: usize| #[trigger] cnt(v.next[s[c]].take(k + 1), x) == cnt(v.next[s[c]].take(k), x) + (if x == v.next[s[c]][k] { 1int } else { 0 }),
        forall|x: usize| 0 <= #[trigger] ec(v.next, s.take(c), x) && ec(v.next, s.take(c), x) + cnt(v.next[s[c]].take(k + 1), x) < 0x7fff_ffff
{ reveal(live); reveal(topo); reveal(cl); reveal(p1); reveal(dg); reveal(reachd); reveal(p2); 
    assert forall|x: usize| #[trigger] cnt(v.next[s[c]].take(k + 1), x) == cnt(v.next[s[c]].take(k), x) + (if x == v.next[s[c]][k] { 1int } else { 0 }) by { cnt_take(v.next[s[c]], k, x); }
    assert forall|x: usize| 0 <= #[trigger] ec(v.next, s.take(c), x) && ec(v.next, s.take(c), x) + cnt(v.next[s[c]].take(k + 1), x) < 0x7fff_ffff by {
        take_sub(s, ul(), c + 1); ec_sub(v.next, s.take(c + 1), ul(), x); ec_step(v, s, c); cnt_mono(v.next[s[c]], k + 1, x); ec_pos(v.next, s.take(c), x); assert(ec(v.next, ul(), x) < 0x7fff_ffff);
    }
}
pub proof fn ec_step(v: St, s: Seq<usize>, c: int) requires 0 <= c < s.len() ensures forall|x: usize| #[trigger] ec(v.next, s.take(c + 1), x) == ec(v.next, s.take(c), x) + cnt(v.next[s[c]], x)
{ reveal(live); reveal(topo); reveal(cl); reveal(p1); reveal(dg); reveal(reachd); reveal(p2);  assert(s.take(c + 1).drop_last() =~= s.take(c)); assert(s.take(c + 1).last() == s[c]); }
/// ---- second pass
#[verifier::opaque] pub open spec fn dg(v: St, vis: Seq<usize>, s: Seq<usize>, nb: int, k: int, x: usize) -> int { ec(v.next, vis, x) - ec(v.next, s.take(nb), x) - (if nb < s.len() { cnt(v.next[s[nb]].take(k), x) } else { 0 }) }
pub open spec fn before(s: Seq<usize>, p: usize, i: int) -> bool { exists|j: int| 0 <= j < i && j < s.len() && #[trigger] s[j] == p }
#[verifier::opaque] pub open spec fn reachd(v: St, r: usize, vis: Seq<usize>) -> bool { p1(v, r, vis) && cl(v, vis, vis.len() as int) && live(v, r) }
#[verifier::opaque] pub open spec fn p2(v: St, r: usize, vis: Seq<usize>, s: Seq<usize>, nb: int, k: int) -> bool {
    s.len() > 0 && s[0] == r && nodup(s) && sub(s, vis) && 0 <= nb <= s.len() && 0 <= k && (k == 0 || nb < s.len() && k <= v.next[s[nb]].len())
    && (forall|x: usize| #[trigger] inn(vis, x) ==> (inn(s, x) <==> dg(v, vis, s, nb, k, x) == 0))
    && (forall|i: int, p: usize| 0 <= i < s.len() && #[trigger] inn(vis, p) && inn(v.next[p], #[trigger] s[i]) ==> before(s, p, i))
}
pub proof fn ranks(v: St, r: usize, vis: Seq<usize>, i: int) requires p1(v, r, vis), live(v, r), 0 <= i < vis.len() ensures rank(vis[i]) <= rank(r) decreases i
{ reveal(live); reveal(topo); reveal(cl); reveal(p1); reveal(dg); reveal(reachd); reveal(p2);  if i > 0 { assert(sourced(v.next, vis, vis[i], i)); let j = choose|j: int| 0 <= j < i && j < vis.len() && inn(v.next[vis[j]], vis[i]); ranks(v, r, vis, j); live_at(v, r, vis, j); let k = choose|k: int| 0 <= k < v.next[vis[j]].len() && v.next[vis[j]][k] == vis[i]; assert(rank(v.next[vis[j]][k]) < rank(vis[j])); } }
pub proof fn edge_rank(v: St, r: usize, vis: Seq<usize>, p: usize, x: usize) requires reachd(v, r, vis), inn(vis, p), inn(v.next[p], x) ensures rank(x) < rank(p), inn(vis, x), rank(p) <= rank(r)
{ reveal(live); reveal(topo); reveal(cl); reveal(p1); reveal(dg); reveal(reachd); reveal(p2);  let j = choose|j: int| 0 <= j < vis.len() && vis[j] == p; live_at(v, r, vis, j); ranks(v, r, vis, j); let k = choose|k: int| 0 <= k < v.next[p].len() && v.next[p][k] == x; assert(inn(vis, v.next[vis[j]][k])); }
pub proof fn p2_start(v: St, r: usize, vis: Seq<usize>) requires reachd(v, r, vis) ensures p2(v, r, vis, seq![r], 0, 0)
{ reveal(live); reveal(topo); reveal(cl); reveal(p1); reveal(dg); reveal(reachd); reveal(p2); 
    let s = seq![r];
    assert(s.take(0) =~= Seq::<usize>::empty()); assert(v.next[r].take(0) =~= Seq::<usize>::empty());
    assert(vis[0] == r); assert(inn(vis, r));
    assert forall|x: usize| #[trigger] inn(vis, x) implies (inn(s, x) <==> dg(v, vis, s, 0, 0, x) == 0) by {
        ec_zero(v.next, vis, x);
        if x == r { assert(s[0] == r); assert forall|p: usize| #[trigger] inn(vis, p) implies cnt(v.next[p], x) == 0 by { cnt_pos(v.next[p], x); if inn(v.next[p], x) { edge_rank(v, r, vis, p, x); } } }
        else { let i = choose|i: int| 0 <= i < vis.len() && vis[i] == x; assert(sourced(v.next, vis, vis[i], i)); let j = choose|j: int| 0 <= j < i && j < vis.len() && inn(v.next[vis[j]], vis[i]); assert(inn(vis, vis[j])); cnt_pos(v.next[vis[j]], x); }
    }
    assert forall|i: int, p: usize| 0 <= i < s.len() && #[trigger] inn(vis, p) && inn(v.next[p], #[trigger] s[i]) implies before(s, p, i) by { edge_rank(v, r, vis, p, r); }
}
pub open spec fn p2n(v: St, vis: Seq<usize>, s: Seq<usize>, nb: int, k: int) -> Seq<usize> { let y = v.next[s[nb]][k]; if dg(v, vis, s, nb, k + 1, y) == 0 { s.push(y) } else { s } }
pub proof fn sub_trans(a: Seq<usize>, b: Seq<usize>, c: Seq<usize>) requires sub(a, b), sub(b, c) ensures sub(a, c)
{ reveal(live); reveal(topo); reveal(cl); reveal(p1); reveal(dg); reveal(reachd); reveal(p2);  assert forall|i: int| 0 <= i < a.len() implies inn(c, #[trigger] a[i]) by { assert(inn(b, a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(inn(c, b[j])); } }
/// the edge looked at has not been counted yet
pub proof fn p2_dg(v: St, r: usize, vis: Seq<usize>, s: Seq<usize>, nb: int, k: int)
    requires reachd(v, r, vis), p2(v, r, vis, s, nb, k), nb < s.len(), k < v.next[s[nb]].len()
    ensures ({ let y = v.next[s[nb]][k];
        1 <= dg(v, vis, s, nb, k, y) <= 0x7fff_ffff && opok(v, y) && inn(vis, y) && !inn(s, y) && dg(v, vis, s, nb, k + 1, y) == dg(v, vis, s, nb, k, y) - 1
        && (dg(v, vis, s, nb, k + 1, y) == 0 ==> forall|p: usize| #[trigger] inn(vis, p) && inn(v.next[p], y) ==> inn(s.take(nb + 1), p)) })
{
    let c = s[nb]; let y = v.next[c][k]; let b = s.take(nb + 1);
    assert(nodup(s) && sub(s, vis) && nodup(vis) && sub(vis, ul()) && nodup(ul()) && 0 <= nb && 0 <= k && live(v, r) && ec(v.next, ul(), y) < 0x7fff_ffff) by { reveal(p2); reveal(reachd); reveal(p1); reveal(live); }
    assert(inn(vis, c));
    assert(inn(v.next[c], y)); edge_rank(v, r, vis, c, y);
    { let j = choose|j: int| 0 <= j < vis.len() && vis[j] == y; live_at(v, r, vis, j); }
    take_sub(s, vis, nb + 1);
    ec_step(v, s, nb);
    assert(ec(v.next, b, y) == ec(v.next, s.take(nb), y) + cnt(v.next[c], y));
    ec_sub(v.next, b, vis, y); cnt_take(v.next[c], k, y); cnt_mono(v.next[c], k + 1, y); ec_sub(v.next, vis, ul(), y); ec_pos(v.next, s.take(nb), y); cnt_pos(v.next[c].take(k), y);
    assert(dg(v, vis, s, nb, k, y) >= 1 && dg(v, vis, s, nb, k, y) <= 0x7fff_ffff && dg(v, vis, s, nb, k + 1, y) == dg(v, vis, s, nb, k, y) - 1) by { reveal(dg); }
    assert(inn(s, y) <==> dg(v, vis, s, nb, k, y) == 0) by { reveal(p2); }
    if dg(v, vis, s, nb, k + 1, y) == 0 {
        assert(ec(v.next, b, y) == ec(v.next, vis, y)) by { reveal(dg); }
        assert forall|p: usize| #[trigger] inn(vis, p) && inn(v.next[p], y) implies inn(b, p) by { cnt_pos(v.next[p], y); }
    }
}
pub proof fn p2_before(v: St, vis: Seq<usize>, s: Seq<usize>, y: usize, nb: int)
    requires 0 <= nb < s.len(), forall|p: usize| #[trigger] inn(vis, p) && inn(v.next[p], y) ==> inn(s.take(nb + 1), p),
        forall|i: int, p: usize| 0 <= i < s.len() && #[trigger] inn(vis, p) && inn(v.next[p], #[trigger] s[i]) ==> before(s, p, i),
    ensures forall|i: int, p: usize| 0 <= i < s.push(y).len() && #[trigger] inn(vis, p) && inn(v.next[p], #[trigger] s.push(y)[i]) ==> before(s.push(y), p, i)
{
    let t = s.push(y);
    assert forall|i: int, p: usize| 0 <= i < t.len() && #[trigger] inn(vis, p) && inn(v.next[p], #[trigger] t[i]) implies before(t, p, i) by {
        if i < s.len() { assert(t[i] == s[i]); assert(before(s, p, i)); let j = choose|j: int| 0 <= j < i && j < s.len() && s[j] == p; assert(t[j] == p); }
        else { let b = s.take(nb + 1); assert(inn(b, p)); let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == p; assert(b[j] == s[j]); assert(t[j] == p); }
    }
}
pub proof fn p2_step(v: St, r: usize, vis: Seq<usize>, s: Seq<usize>, nb: int, k: int)
    requires reachd(v, r, vis), p2(v, r, vis, s, nb, k), nb < s.len(), k < v.next[s[nb]].len()
    ensures ({ let y = v.next[s[nb]][k]; let t = p2n(v, vis, s, nb, k);
        1 <= dg(v, vis, s, nb, k, y) <= 0x7fff_ffff && p2(v, r, vis, t, nb, k + 1) && opok(v, y)
        && forall|x: usize| #[trigger] dg(v, vis, t, nb, k + 1, x) == dg(v, vis, s, nb, k, x) - (if x == y { 1int } else { 0 }) })
{
    let c = s[nb]; let y = v.next[c][k]; let t = p2n(v, vis, s, nb, k);
    p2_dg(v, r, vis, s, nb, k);
    assert(nodup(s) && sub(s, vis) && 0 <= nb && 0 <= k && s[0] == r && (forall|x: usize| #[trigger] inn(vis, x) ==> (inn(s, x) <==> dg(v, vis, s, nb, k, x) == 0))
        && (forall|i: int, p: usize| 0 <= i < s.len() && #[trigger] inn(vis, p) && inn(v.next[p], #[trigger] s[i]) ==> before(s, p, i))) by { reveal(p2); }
    assert forall|x: usize| #[trigger] dg(v, vis, t, nb, k + 1, x) == dg(v, vis, s, nb, k, x) - (if x == y { 1int } else { 0 }) by { reveal(dg); cnt_take(v.next[c], k, x); assert(t.take(nb) =~= s.take(nb)); assert(t[nb] == c); }
    inn_push(s, y);
    let d0 = dg(v, vis, s, nb, k + 1, y) == 0;
    if d0 {
        p2_before(v, vis, s, y, nb);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] != #[trigger] t[j] by { if j == s.len() { assert(s[i] != y); } }
        assert forall|i: int| 0 <= i < t.len() implies inn(vis, #[trigger] t[i]) by { if i < s.len() { assert(inn(vis, s[i])); } }
    }
    assert forall|x: usize| #[trigger] inn(vis, x) implies (inn(t, x) <==> dg(v, vis, t, nb, k + 1, x) == 0) by { assert(inn(s, x) <==> dg(v, vis, s, nb, k, x) == 0); assert(inn(t, x) <==> inn(s, x) || d0 && x == y); }
    reveal(p2);
}
pub proof fn p2_next(v: St, r: usize, vis: Seq<usize>, s: Seq<usize>, nb: int)
    requires p2(v, r, vis, s, nb, v.next[s[nb]].len() as int), nb < s.len()
    ensures p2(v, r, vis, s, nb + 1, 0), forall|x: usize| #[trigger] dg(v, vis, s, nb + 1, 0, x) == dg(v, vis, s, nb, v.next[s[nb]].len() as int, x)
{ reveal(live); reveal(topo); reveal(cl); reveal(p1); reveal(dg); reveal(reachd); reveal(p2); 
    let n = v.next[s[nb]].len() as int;
    assert(v.next[s[nb]].take(n) =~= v.next[s[nb]]);
    ec_step(v, s, nb);
    if nb + 1 < s.len() { assert(v.next[s[nb + 1]].take(0) =~= Seq::<usize>::empty()); }
    assert forall|x: usize| #[trigger] dg(v, vis, s, nb + 1, 0, x) == dg(v, vis, s, nb, n, x) by {}
}
pub proof fn p2_all(v: St, r: usize, vis: Seq<usize>, s: Seq<usize>, x: usize)
    requires reachd(v, r, vis), p2(v, r, vis, s, s.len() as int, 0), inn(vis, x)
    ensures inn(s, x)
    decreases rank(r) - rank(x)
{ reveal(live); reveal(topo); reveal(cl); reveal(p1); reveal(dg); reveal(reachd); reveal(p2); 
    if !inn(s, x) {
        assert(s.take(s.len() as int) =~= s);
        ec_sub(v.next, s, vis, x);
        assert(dg(v, vis, s, s.len() as int, 0, x) != 0);
        let p = choose|p: usize| #[trigger] inn(vis, p) && !inn(s, p) && cnt(v.next[p], x) != 0;
        cnt_pos(v.next[p], x); edge_rank(v, r, vis, p, x);
        p2_all(v, r, vis, s, p);
    }
}
pub proof fn p2_end(v: St, r: usize, vis: Seq<usize>, s: Seq<usize>) requires reachd(v, r, vis), p2(v, r, vis, s, s.len() as int, 0) ensures topo(v, s, r)
{ reveal(live); reveal(topo); reveal(cl); reveal(p1); reveal(dg); reveal(reachd); reveal(p2); 
    sub_trans(s, vis, ul());
    assert forall|x: usize| #[trigger] inn(vis, x) implies inn(s, x) by { p2_all(v, r, vis, s, x); }
    assert forall|i: int, y: usize| 0 <= i < s.len() && inn(v.next[#[trigger] s[i]], y) implies #[trigger] inn(s, y) by { assert(inn(vis, s[i])); edge_rank(v, r, vis, s[i], y); }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && inn(v.next[#[trigger] s[j]], #[trigger] s[i]) implies j < i by { assert(inn(vis, s[j])); assert(before(s, s[j], i)); let q = choose|q: int| 0 <= q < i && q < s.len() && s[q] == s[j]; if q < j { assert(s[q] != s[j]); } else if j < q { assert(s[j] != s[q]); } }
    assert forall|i: int| 0 < i < s.len() implies sourced(v.next, s, #[trigger] s[i], i) by {
        assert(inn(vis, s[i])); let m = choose|m: int| 0 <= m < vis.len() && vis[m] == s[i];
        assert(s[0] != s[i]);
        assert(sourced(v.next, vis, vis[m], m)); let j = choose|j: int| 0 <= j < m && j < vis.len() && inn(v.next[vis[j]], vis[m]);
        assert(inn(vis, vis[j])); assert(inn(s, vis[j])); let q = choose|q: int| 0 <= q < s.len() && s[q] == vis[j]; assert(inn(v.next[s[q]], s[i])); assert(q < i);
    }
}
pub open spec fn p1n(v: St, s: Seq<usize>, y: usize) -> Seq<usize> { if inn(s, y) { s } else { s.push(y) } }
/// the inputs of the operation at c seen so far are known
#[verifier::opaque] pub open spec fn cl2(v: St, s: Seq<usize>, c: int, k: int) -> bool { forall|j: int| 0 <= j < k ==> inn(s, #[trigger] v.next[s[c]][j]) }
pub open spec fn known(d: Fs, s: Seq<usize>) -> bool { forall|x: usize| #[trigger] d.s(x) == inn(s, x) }
#[verifier::opaque] pub open spec fn cn1(v: St, s: Seq<usize>, c: int, k: int, x: usize) -> int { ec(v.next, s.take(c), x) + (if c < s.len() { cnt(v.next[s[c]].take(k), x) } else { 0 }) }
pub proof fn b_start(v: St, r: usize) requires live(v, r) ensures p1(v, r, seq![r]), cl(v, seq![r], 0), forall|x: usize| inn(seq![r], x) == (x == r), seq![r].skip(0) == seq![r], forall|x: usize| #[trigger] cn1(v, seq![r], 0, 0, x) == 0
{
    reveal(live); reveal(p1); reveal(cl); reveal(cn1);
    assert(seq![r][0] == r); assert(seq![r].skip(0) =~= seq![r]); assert(seq![r].take(0) =~= Seq::<usize>::empty()); assert(v.next[r].take(0) =~= Seq::<usize>::empty());
    assert forall|x: usize| inn(seq![r], x) == (x == r) by {}
}
pub proof fn b_begin(v: St, r: usize, s: Seq<usize>, c: int) requires live(v, r), p1(v, r, s), 0 <= c < s.len()
    ensures s.len() <= ul().len(), opok(v, s[c]), s.skip(c)[0] == s[c], s.skip(c).skip(1) == s.skip(c + 1), cl2(v, s, c, 0)
{ reveal(p1); reveal(live); reveal(cl2); size_sub(s, ul()); live_at(v, r, s, c); assert(s.skip(c).skip(1) =~= s.skip(c + 1)); }
pub proof fn b_step(v: St, r: usize, s: Seq<usize>, c: int, k: int)
    requires live(v, r), p1(v, r, s), cl(v, s, c), cl2(v, s, c, k), 0 <= c < s.len(), 0 <= k < v.next[s[c]].len()
    ensures ({ let y = v.next[s[c]][k]; let t = p1n(v, s, y);
        p1(v, r, t) && cl(v, t, c) && cl2(v, t, c, k + 1) && y != 0 && t.len() >= s.len() && t[c] == s[c] && 0 <= cn1(v, s, c, k, y) < 0x7fff_ffff - 1
        && (forall|x: usize| #[trigger] inn(t, x) == (inn(s, x) || x == y)) && t.skip(c + 1) == (if inn(s, y) { s.skip(c + 1) } else { s.skip(c + 1).push(y) })
        && forall|x: usize| #[trigger] cn1(v, t, c, k + 1, x) == cn1(v, s, c, k, x) + (if x == y { 1int } else { 0 }) })
{
    let y = v.next[s[c]][k]; let t = p1n(v, s, y);
    assert(nodup(s) && sub(s, ul())) by { reveal(p1); }
    p1_count(v, r, s, c, k); live_at(v, r, s, c); assert(inn(ul(), y)); live_of(v, r, y);
    cnt_pos(v.next[s[c]].take(k), y);
    inn_push(s, y);
    if !inn(s, y) { p1_push(v, r, s, c, k); assert(t.skip(c + 1) =~= s.skip(c + 1).push(y)); }
    assert(t.take(c) =~= s.take(c));
    reveal(cl); reveal(cl2); reveal(cn1);
    assert(ec(v.next, s.take(c), y) + cnt(v.next[s[c]].take(k + 1), y) < 0x7fff_ffff);
    assert forall|i: int, k: int| 0 <= i < c && 0 <= k < v.next[t[i]].len() implies inn(t, #[trigger] v.next[#[trigger] t[i]][k]) by { assert(t[i] == s[i]); assert(inn(s, v.next[s[i]][k])); }
    assert forall|j: int| 0 <= j < k + 1 implies inn(t, #[trigger] v.next[t[c]][j]) by { if j < k { assert(inn(s, v.next[s[c]][j])); } }
    assert forall|x: usize| #[trigger] cn1(v, t, c, k + 1, x) == cn1(v, s, c, k, x) + (if x == y { 1int } else { 0 }) by { assert(cnt(v.next[s[c]].take(k + 1), x) == cnt(v.next[s[c]].take(k), x) + (if x == y { 1int } else { 0 })); }
}
pub proof fn b_next(v: St, r: usize, s: Seq<usize>, c: int) requires p1(v, r, s), cl(v, s, c), 0 <= c < s.len(), cl2(v, s, c, v.next[s[c]].len() as int)
    ensures cl(v, s, c + 1), forall|x: usize| #[trigger] cn1(v, s, c + 1, 0, x) == cn1(v, s, c, v.next[s[c]].len() as int, x)
{
    reveal(cl); reveal(cl2); reveal(cn1); ec_step(v, s, c); let n = v.next[s[c]].len() as int; assert(v.next[s[c]].take(n) =~= v.next[s[c]]);
    if c + 1 < s.len() { assert(v.next[s[c + 1]].take(0) =~= Seq::<usize>::empty()); }
    assert forall|x: usize| #[trigger] cn1(v, s, c + 1, 0, x) == cn1(v, s, c, n, x) by { assert(ec(v.next, s.take(c + 1), x) == ec(v.next, s.take(c), x) + cnt(v.next[s[c]], x)); }
}
pub proof fn b_turn(v: St, r: usize, s: Seq<usize>) requires live(v, r), p1(v, r, s), cl(v, s, s.len() as int)
    ensures reachd(v, r, s), p2(v, r, s, seq![r], 0, 0), forall|x: usize| #[trigger] dg(v, s, seq![r], 0, 0, x) == cn1(v, s, s.len() as int, 0, x), seq![r].skip(0) == seq![r], seq![r].take(0) == Seq::<usize>::empty()
{
    reveal(reachd); p2_start(v, r, s); reveal(dg); reveal(cn1); assert(s.take(s.len() as int) =~= s); assert(seq![r].take(0) =~= Seq::<usize>::empty()); assert(seq![r].skip(0) =~= seq![r]); assert(v.next[r].take(0) =~= Seq::<usize>::empty());
}
pub proof fn k_begin(v: St, r: usize, vis: Seq<usize>, s: Seq<usize>, nb: int) requires reachd(v, r, vis), p2(v, r, vis, s, nb, 0), nb < s.len()
    ensures 0 <= nb, s.len() <= vis.len(), s.skip(nb)[0] == s[nb], s.skip(nb).skip(1) == s.skip(nb + 1), s.take(nb).push(s[nb]) == s.take(nb + 1)
{ reveal(p2); reveal(reachd); reveal(p1); size_sub(s, vis); assert(s.skip(nb).skip(1) =~= s.skip(nb + 1)); assert(s.take(nb).push(s[nb]) =~= s.take(nb + 1)); }
pub proof fn k_step(v: St, r: usize, vis: Seq<usize>, s: Seq<usize>, nb: int, k: int)
    requires reachd(v, r, vis), p2(v, r, vis, s, nb, k), 0 <= nb < s.len(), 0 <= k < v.next[s[nb]].len()
    ensures ({ let y = v.next[s[nb]][k]; let t = p2n(v, vis, s, nb, k);
        1 <= dg(v, vis, s, nb, k, y) <= 0x7fff_ffff && p2(v, r, vis, t, nb, k + 1) && y != 0 && t[nb] == s[nb] && nb < t.len() && t.take(nb + 1) == s.take(nb + 1)
        && t.skip(nb + 1) == (if dg(v, vis, s, nb, k, y) == 1 { s.skip(nb + 1).push(y) } else { s.skip(nb + 1) })
        && forall|x: usize| #[trigger] dg(v, vis, t, nb, k + 1, x) == dg(v, vis, s, nb, k, x) - (if x == y { 1int } else { 0 }) })
{
    p2_step(v, r, vis, s, nb, k); let y = v.next[s[nb]][k]; let t = p2n(v, vis, s, nb, k);
    assert(dg(v, vis, t, nb, k + 1, y) == dg(v, vis, s, nb, k + 1, y)) by { reveal(dg); assert(t.take(nb) =~= s.take(nb)); }
    assert(dg(v, vis, t, nb, k + 1, y) == dg(v, vis, s, nb, k, y) - 1);
    assert(t.take(nb + 1) =~= s.take(nb + 1));
    assert(dg(v, vis, s, nb, k, y) == 1 ==> t.skip(nb + 1) =~= s.skip(nb + 1).push(y));
}
/// ---- gradients
/// what a holder's gradient is the sum of; None: no gradient
pub open spec fn gv(v: St, a: usize) -> Option<Sum> { if v.gr[a] == 0 { None } else { Some(v.val[v.gr[a]]) } }
pub open spec fn plus(o: Option<Sum>, t: Sum) -> Option<Sum> { match o { None => Some(t), Some(x) => Some(x + t) } }
pub open spec fn held(v: St, b: usize) -> bool { b != 0 && exists|a: usize| #[trigger] v.gr[a] == b }
/// no two holders keep the same tensor
#[verifier::opaque] pub open spec fn sep(v: St) -> bool { (forall|a: usize, b: usize| #[trigger] v.gr[a] == #[trigger] v.gr[b] && v.gr[a] != 0 ==> a == b) && (forall|a: usize| #[trigger] v.gr[a] != 0 ==> v.val.contains_key(v.gr[a])) }
/// tensors that are nobody's gradient keep their value
pub open spec fn quiet(v: St, z: St) -> bool { forall|b: usize| #[trigger] v.val.contains_key(b) && !held(v, b) ==> z.val.contains_key(b) && z.val[b] == v.val[b] && !held(z, b) }
pub open spec fn same(v: St, z: St) -> bool { z.next == v.next && z.own == v.own && z.fnof == v.fnof }
/// holder a belongs to an input of f
pub open spec fn hit(v: St, f: usize, a: usize) -> bool { v.own[v.fnof[a]] == a && inn(v.next[f], v.fnof[a]) }
/// one contribution to one holder
pub open spec fn contributed(v: St, z: St, a: usize, t: Sum) -> bool {
    same(v, z) && z.bg == v.bg && z.log == v.log && gv(z, a) == plus(gv(v, a), t) && (forall|b: usize| b != a ==> #[trigger] z.gr[b] == v.gr[b] && gv(z, b) == gv(v, b)) && sep(z) && quiet(v, z)
}
/// evaluating a recorded operation: each holder of one of its inputs receives what its rule prescribes, no other
#[verifier::external_body] pub fn f_backward(w: &mut World, f: Fb, g: T)
    requires g != 0, old(w).v().val.contains_key(g), sep(old(w).v())
    ensures same(old(w).v(), final(w).v()), final(w).v().bg == old(w).v().bg, final(w).v().log == old(w).v().log.push((f, old(w).v().val[g])), sep(final(w).v()), quiet(old(w).v(), final(w).v()),
        forall|a: usize| gv(final(w).v(), a) == #[trigger] upd(old(w).v(), f, old(w).v().val[g], gv(old(w).v(), a), a) { unimplemented!() }
pub open spec fn upd(v: St, f: usize, g: Sum, o: Option<Sum>, a: usize) -> Option<Sum> { if hit(v, f, a) { plus(o, dl(f, a, g)) } else { o } }
pub open spec fn or0(o: Option<Sum>) -> Sum { match o { None => Seq::empty(), Some(x) => x } }
/// what holder a starts with in a pass over s: intermediate results start empty, leaves keep what they had, the result gets the seed
pub open spec fn cleared(s: Seq<usize>, own: Map<usize, usize>, n: int, a: usize) -> bool { exists|i: int| 0 <= i < n && !leaf(#[trigger] s[i]) && own[s[i]] == a }
pub open spec fn base(v: St, s: Seq<usize>, me: usize, seed: Sum, a: usize) -> Option<Sum> { let o = if cleared(s, v.own, s.len() as int, a) { None } else { gv(v, a) }; if a == me { plus(o, seed) } else { o } }
/// what holder a has after the first n operations of s: operation by operation, each fed with what its own holder has then
pub open spec fn acc(v: St, s: Seq<usize>, me: usize, seed: Sum, n: int, a: usize) -> Option<Sum> decreases n {
    if n <= 0 { base(v, s, me, seed, a) } else { upd(v, s[n - 1], or0(acc(v, s, me, seed, n - 1, v.own[s[n - 1]])), acc(v, s, me, seed, n - 1, a), a) }
}
pub open spec fn passlog(v: St, s: Seq<usize>, me: usize, seed: Sum, n: int) -> Seq<(usize, Sum)> { Seq::new(n as nat, |i: int| (s[i], or0(acc(v, s, me, seed, i, v.own[s[i]])))) }
/// when an operation is evaluated its gradient is complete: nothing is added to it afterwards
pub proof fn complete(v: St, s: Seq<usize>, r: usize, me: usize, seed: Sum, i: int, n: int)
    requires live(v, r), topo(v, s, r), 0 <= i <= n <= s.len(), i < s.len()
    ensures acc(v, s, me, seed, n, v.own[s[i]]) == acc(v, s, me, seed, i, v.own[s[i]])
    decreases n
{
    if n > i {
        complete(v, s, r, me, seed, i, n - 1);
        assert(sub(s, ul()) && (forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && inn(v.next[#[trigger] s[j]], #[trigger] s[i]) ==> j < i)) by { reveal(topo); }
        live_at(v, r, s, i);
        assert(v.fnof[v.own[s[i]]] == s[i]);
        if hit(v, s[n - 1], v.own[s[i]]) { assert(inn(v.next[s[n - 1]], s[i])); assert(n - 1 < i); }
    }
}
/// an operation's holder has a gradient when its turn comes
pub proof fn ready(v: St, s: Seq<usize>, r: usize, me: usize, seed: Sum, i: int, n: int)
    requires live(v, r), topo(v, s, r), 0 <= i <= n <= s.len(), i < s.len(), me == v.own[r]
    ensures acc(v, s, me, seed, n, v.own[s[i]]) is Some
    decreases n
{
    assert(sub(s, ul()) && s[0] == r && (forall|i: int| 0 < i < s.len() ==> sourced(v.next, s, #[trigger] s[i], i))) by { reveal(topo); }
    live_at(v, r, s, i);
    if n > i { ready(v, s, r, me, seed, i, n - 1); }
    else if i > 0 {
        assert(sourced(v.next, s, s[i], i)); let j = choose|j: int| 0 <= j < i && j < s.len() && inn(v.next[s[j]], s[i]);
        got(v, s, r, me, seed, i, j, n);
    }
}
pub proof fn got(v: St, s: Seq<usize>, r: usize, me: usize, seed: Sum, i: int, j: int, n: int)
    requires live(v, r), topo(v, s, r), 0 <= i < s.len(), 0 <= j < n <= s.len(), inn(v.next[s[j]], s[i]), v.fnof[v.own[s[i]]] == s[i]
    ensures acc(v, s, me, seed, n, v.own[s[i]]) is Some
    decreases n
{ if j < n - 1 { got(v, s, r, me, seed, i, j, n - 1); } else { assert(hit(v, s[j], v.own[s[i]])); } }
@fn build = tinytorch::AutogradMeta::buildBackwardGraph
@req
live(old(w).v(), old(w).v().fnof[this]), old(w).v().bg[this].len() == 0, old(w).v().bg.contains_key(this),
@ens
final(w).v() == (St { bg: old(w).v().bg.insert(this, final(w).v().bg[this]), ..old(w).v() }),
topo(old(w).v(), final(w).v().bg[this], old(w).v().fnof[this]),
@at entry
let ghost v0 = w.v();
let ghost r = v0.fnof[this];
let ghost mut vis = seq![r];
let ghost mut np = 0int;
let ghost mut s = seq![r];
let ghost mut nb = 0int;
b_start(v0, r);
@at loop0.before
assert(q.q() =~= vis);
@loop 0 isolate
v0 == old(w).v(), r == v0.fnof[this], w.v() == v0, live(v0, r), p1(v0, r, vis), cl(v0, vis, np), 0 <= np <= vis.len(), q.q() == vis.skip(np),
forall|x: usize| #[trigger] traversed.s(x) == inn(vis, x),
forall|x: usize| #[trigger] deps.m(x) == cn1(v0, vis, np, 0, x),
decreases ul().len() - np,
@at loop0.begin
let ghost cu = vis[np];
b_begin(v0, r, vis, np);
@loop 1 isolate
v0 == old(w).v(), r == v0.fnof[this], w.v() == v0, live(v0, r), p1(v0, r, vis), cl(v0, vis, np), 0 <= np < vis.len(), q.q() == vis.skip(np + 1), vis[np] == cu, rng_1@ == v0.next[cu], cl2(v0, vis, np, k_1 as int),
forall|x: usize| #[trigger] traversed.s(x) == inn(vis, x),
forall|x: usize| #[trigger] deps.m(x) == cn1(v0, vis, np, k_1 as int, x),
@at loop1.begin
let ghost y = v0.next[cu][k_1 as int];
b_step(v0, r, vis, np, k_1 as int);
vis = p1n(v0, vis, y);
@at loop1.after
b_next(v0, r, vis, np);
np = np + 1;
@at loop0.after
assert(np == vis.len());
b_turn(v0, r, vis);
@at loop2.before
assert(q.q() =~= s.skip(0)); assert(v0.bg[this] =~= s.take(nb)); assert(w.v().bg =~= v0.bg.insert(this, s.take(nb)));
@loop 2 isolate
v0 == old(w).v(), r == v0.fnof[this], reachd(v0, r, vis), p2(v0, r, vis, s, nb, 0), q.q() == s.skip(nb), 0 <= nb <= s.len(),
w.v() == (St { bg: v0.bg.insert(this, s.take(nb)), ..v0 }),
forall|x: usize| #[trigger] deps.m(x) == dg(v0, vis, s, nb, 0, x),
decreases vis.len() - nb,
@at loop2.begin
let ghost cu = s[nb];
k_begin(v0, r, vis, s, nb);
assert(v0.bg.insert(this, s.take(nb)).insert(this, s.take(nb + 1)) =~= v0.bg.insert(this, s.take(nb + 1)));
@loop 3 isolate
v0 == old(w).v(), r == v0.fnof[this], reachd(v0, r, vis), p2(v0, r, vis, s, nb, k_3 as int), 0 <= nb < s.len(), s.len() <= vis.len(), q.q() == s.skip(nb + 1), s[nb] == cu, rng_3@ == v0.next[cu],
w.v() == (St { bg: v0.bg.insert(this, s.take(nb + 1)), ..v0 }),
forall|x: usize| #[trigger] deps.m(x) == dg(v0, vis, s, nb, k_3 as int, x),
@at loop3.begin
let ghost y = v0.next[cu][k_3 as int];
k_step(v0, r, vis, s, nb, k_3 as int);
s = p2n(v0, vis, s, nb, k_3 as int);
assert(s.len() <= vis.len()) by { reveal(p2); reveal(reachd); reveal(p1); size_sub(s, vis); }
@at loop3.after
p2_next(v0, r, vis, s, nb);
nb = nb + 1;
@at exit
assert(nb == s.len());
assert(s.take(nb) =~= s);
p2_end(v0, r, vis, s);
@fn backw = tinytorch::AutogradMeta::backward
@req
live(old(w).v(), old(w).v().fnof[this]) || old(w).v().fnof[this] == 0, old(w).v().bg.contains_key(this), sep(old(w).v()), grad != 0, old(w).v().val.contains_key(grad),
old(w).v().fnof[this] != 0 ==> old(w).v().own[old(w).v().fnof[this]] == this,
old(w).v().bg[this].len() == 0 || topo(old(w).v(), old(w).v().bg[this], old(w).v().fnof[this]),
@ens
old(w).v().fnof[this] == 0 ==> final(w).v() == old(w).v(),
old(w).v().fnof[this] != 0 ==> ({ let v = old(w).v(); let z = final(w).v(); let s = z.bg[this]; let seed = v.val[grad];
   same(v, z) && topo(v, s, v.fnof[this]) && z.log == v.log + passlog(v, s, this, seed, s.len() as int)
   && (forall|a: usize| gv(z, a) == #[trigger] acc(v, s, this, seed, s.len() as int, a))
   && (forall|i: int| 0 <= i < s.len() ==> acc(v, s, this, seed, s.len() as int, v.own[#[trigger] s[i]]) == acc(v, s, this, seed, i, v.own[s[i]]))
   && sep(z) && quiet(v, z) }),
@at entry
let ghost v0 = w.v();
let ghost r = v0.fnof[this];
let ghost sd = v0.val[grad];
let ghost mut s = Seq::<usize>::empty();
let ghost mut v2 = v0;
@at loop0.before
s = w.v().bg[this];
assert(topo(v0, s, r));
assert(sub(s, ul())) by { reveal(topo); }
assert(sep(w.v())) by { reveal(sep); }
@loop 0 isolate
same(v0, w.v()), v0 == old(w).v(), r == v0.fnof[this], r != 0, live(v0, r), sub(s, ul()), topo(v0, s, r), w.v().bg[this] == s, rng_0@ == s, w.v().val == v0.val, w.v().log == v0.log, seed == grad, sd == v0.val[grad], grad != 0, v0.val.contains_key(grad), v0.own[r] == this,
sep(w.v()), sep(v0),
forall|a: usize| #[trigger] w.v().gr[a] == (if cleared(s, v0.own, k_0 as int, a) { 0 } else { v0.gr[a] }),
@at loop0.begin
let ghost v1 = w.v();
live_at(v0, r, s, k_0 as int);
@at loop0.end
assert forall|a: usize| #[trigger] w.v().gr[a] == (if cleared(s, v0.own, k_0 + 1, a) { 0 } else { v0.gr[a] }) by {
    assert(v1.gr[a] == (if cleared(s, v0.own, k_0 as int, a) { 0 } else { v0.gr[a] }));
    if cleared(s, v0.own, k_0 as int, a) { let i = choose|i: int| 0 <= i < k_0 && !leaf(#[trigger] s[i]) && v0.own[s[i]] == a; assert(cleared(s, v0.own, k_0 + 1, a)); }
    if cleared(s, v0.own, k_0 + 1, a) { let i = choose|i: int| 0 <= i < k_0 + 1 && !leaf(#[trigger] s[i]) && v0.own[s[i]] == a; if i == k_0 { assert(a == owner); } else { assert(cleared(s, v0.own, k_0 as int, a)); } }
    if a == owner && !leaf(s[k_0 as int]) { assert(cleared(s, v0.own, k_0 + 1, a)); }
}
assert(sep(w.v())) by { reveal(sep); assert forall|a: usize, b: usize| #[trigger] w.v().gr[a] == #[trigger] w.v().gr[b] && w.v().gr[a] != 0 implies a == b by { assert(v0.gr[a] == v0.gr[b]); } assert forall|a: usize| #[trigger] w.v().gr[a] != 0 implies w.v().val.contains_key(w.v().gr[a]) by { assert(v0.gr[a] != 0); } }
@at loop0.after
v2 = w.v();
assert(quiet(v0, v2)) by { assert forall|b: usize| #[trigger] v0.val.contains_key(b) && !held(v0, b) implies !held(v2, b) by { if held(v2, b) { let a = choose|a: usize| #[trigger] v2.gr[a] == b; assert(v0.gr[a] == b); } } }
@at loop1.before
assert forall|a: usize| gv(w.v(), a) == #[trigger] acc(v0, s, this, sd, 0, a) by { assert(v2.gr[a] == (if cleared(s, v0.own, s.len() as int, a) { 0 } else { v0.gr[a] })); assert(gv(v2, a) == (if cleared(s, v0.own, s.len() as int, a) { None } else { gv(v0, a) })); assert(a != this ==> w.v().gr[a] == v2.gr[a]); }
@loop 1 isolate
same(v0, w.v()), v0 == old(w).v(), r == v0.fnof[this], r != 0, live(v0, r), sub(s, ul()), topo(v0, s, r), w.v().bg[this] == s, rng_1@ == s, v0.own[r] == this, sd == v0.val[grad],
sep(w.v()), quiet(v0, w.v()), w.v().log == v0.log + passlog(v0, s, this, sd, k_1 as int),
forall|a: usize| gv(w.v(), a) == #[trigger] acc(v0, s, this, sd, k_1 as int, a),
@at loop1.begin
let ghost v1 = w.v();
live_at(v0, r, s, k_1 as int);
ready(v0, s, r, this, sd, k_1 as int, k_1 as int);
assert(gv(v1, v0.own[s[k_1 as int]]) == acc(v0, s, this, sd, k_1 as int, v0.own[s[k_1 as int]]));
assert(v1.val.contains_key(v1.gr[v0.own[s[k_1 as int]]])) by { reveal(sep); }
@at loop1.end
assert(passlog(v0, s, this, sd, k_1 + 1) =~= passlog(v0, s, this, sd, k_1 as int).push((s[k_1 as int], or0(acc(v0, s, this, sd, k_1 as int, v0.own[s[k_1 as int]])))));
assert(w.v().log =~= v0.log + passlog(v0, s, this, sd, k_1 + 1));
assert forall|a: usize| gv(w.v(), a) == #[trigger] acc(v0, s, this, sd, k_1 + 1, a) by { assert(gv(w.v(), a) == upd(v1, s[k_1 as int], v1.val[v1.gr[v0.own[s[k_1 as int]]]], gv(v1, a), a)); assert(gv(v1, a) == acc(v0, s, this, sd, k_1 as int, a)); }
assert(quiet(v0, w.v())) by { assert forall|b: usize| #[trigger] v0.val.contains_key(b) && !held(v0, b) implies w.v().val.contains_key(b) && w.v().val[b] == v0.val[b] && !held(w.v(), b) by { assert(v1.val.contains_key(b)); } }
@at loop1.after
assert forall|i: int| 0 <= i < s.len() implies acc(v0, s, this, sd, s.len() as int, v0.own[#[trigger] s[i]]) == acc(v0, s, this, sd, i, v0.own[s[i]]) by { complete(v0, s, r, this, sd, i, s.len() as int); }
@fn addg = tinytorch::AutogradMeta::addGrad(const Tensor &)
@req
sep(old(w).v()), grad != 0, old(w).v().val.contains_key(grad),
@ens
contributed(old(w).v(), final(w).v(), this, old(w).v().val[grad]),
old(w).v().gr[this] == 0 ==> !old(w).v().val.contains_key(final(w).v().gr[this]),
@at entry
let ghost v0 = w.v();
reveal(sep);
assert(forall|a: usize| a != this && v0.gr[a] != 0 ==> v0.gr[a] != v0.gr[this]);
@at exit
assert forall|b: usize| #[trigger] v0.val.contains_key(b) && !held(v0, b) implies w.v().val.contains_key(b) && w.v().val[b] == v0.val[b] && !held(w.v(), b) by {
    assert(b != 0 ==> v0.gr[this] != b);
    if held(w.v(), b) { let a = choose|a: usize| #[trigger] w.v().gr[a] == b; assert(v0.gr[a] == b || a == this); }
}
@fn addgm = tinytorch::AutogradMeta::addGrad(Tensor &&)
@req
sep(old(w).v()), grad != 0, old(w).v().val.contains_key(grad),
@ens
contributed(old(w).v(), final(w).v(), this, old(w).v().val[grad]),
old(w).v().gr[this] == 0 ==> !old(w).v().val.contains_key(final(w).v().gr[this]),
@at entry
let ghost v0 = w.v();
reveal(sep);
assert(forall|a: usize| a != this && v0.gr[a] != 0 ==> v0.gr[a] != v0.gr[this]);
@at exit
assert forall|b: usize| #[trigger] v0.val.contains_key(b) && !held(v0, b) implies w.v().val.contains_key(b) && w.v().val[b] == v0.val[b] && !held(w.v(), b) by {
    assert(b != 0 ==> v0.gr[this] != b);
    if held(w.v(), b) { let a = choose|a: usize| #[trigger] w.v().gr[a] == b; assert(v0.gr[a] == b || a == this); }
}
@fn zerog = tinytorch::AutogradMeta::zeroGrad
@req
sep(old(w).v()), owner != 0,
@ens
same(old(w).v(), final(w).v()), final(w).v().bg == old(w).v().bg, final(w).v().log == old(w).v().log, gv(final(w).v(), this) == Some(Seq::<int>::empty()),
forall|b: usize| b != this ==> #[trigger] final(w).v().gr[b] == old(w).v().gr[b] && gv(final(w).v(), b) == gv(old(w).v(), b),
sep(final(w).v()), quiet(old(w).v(), final(w).v()),
@at entry
let ghost v0 = w.v();
reveal(sep);
assert(forall|a: usize| a != this && v0.gr[a] != 0 ==> v0.gr[a] != v0.gr[this]);
@at exit
assert forall|b: usize| #[trigger] v0.val.contains_key(b) && !held(v0, b) implies w.v().val.contains_key(b) && w.v().val[b] == v0.val[b] && !held(w.v(), b) by {
    assert(b != 0 ==> v0.gr[this] != b);
    if held(w.v(), b) { let a = choose|a: usize| #[trigger] w.v().gr[a] == b; assert(v0.gr[a] == b || a == this); }
}
@fn setfn = tinytorch::AutogradMeta::setGradFn
@req
fn_ != 0,
@ens
final(w).v() == (St { fnof: old(w).v().fnof.insert(this, fn_), own: old(w).v().own.insert(fn_, this), ..old(w).v() }),
@fn isleaf = tinytorch::AutogradMeta::isLeaf
@w const
@req
w.v().fnof[this] != 0,
@ens
res == leaf(w.v().fnof[this]),
