// The contents of the class cells, as a map from places to records, and what storing does to it.
pub type Loc = int;
pub ghost enum Cls { Rep(usize), Lnk(Loc) }
pub type HM = Map<Loc, Cls>;
pub type Rk = spec_fn(Loc) -> nat;

pub open spec fn rk_ok(m: HM, rk: Rk) -> bool {
    forall|l: Loc| #[trigger] m.dom().contains(l) && m[l] is Lnk ==>
        m.dom().contains(m[l]->Lnk_0) && rk(m[l]->Lnk_0) < rk(l)
}
#[verifier::opaque]
pub open spec fn wf(m: HM) -> bool { exists|rk: Rk| rk_ok(m, rk) }

pub open spec fn root_rk(m: HM, rk: Rk, l: Loc) -> Loc
    decreases rk(l)
{
    if m.dom().contains(l) && m[l] is Lnk && rk(m[l]->Lnk_0) < rk(l) { root_rk(m, rk, m[l]->Lnk_0) } else { l }
}
#[verifier::opaque]
pub open spec fn root(m: HM, l: Loc) -> Loc { root_rk(m, choose|rk: Rk| rk_ok(m, rk), l) }

pub proof fn root_rk_uniq(m: HM, rk: Rk, l: Loc)
    requires rk_ok(m, rk), m.dom().contains(l),
    ensures wf(m), root(m, l) == root_rk(m, rk, l), m.dom().contains(root(m, l)), m[root(m,l)] is Rep,
{
    reveal(wf); reveal(root);
    let rk2 = choose|rk: Rk| rk_ok(m, rk);
    root_rk_uniq2(m, rk, rk2, l);
}
proof fn root_rk_uniq2(m: HM, rk: Rk, rk2: Rk, l: Loc)
    requires rk_ok(m, rk), rk_ok(m, rk2), m.dom().contains(l),
    ensures root_rk(m, rk2, l) == root_rk(m, rk, l), m.dom().contains(root_rk(m, rk, l)), m[root_rk(m, rk, l)] is Rep,
    decreases rk(l)
{
    if m[l] is Lnk { root_rk_uniq2(m, rk, rk2, m[l]->Lnk_0); }
}
// basic facts
pub broadcast proof fn root_facts(m: HM, l: Loc)
    requires wf(m), m.dom().contains(l),
    ensures m.dom().contains(#[trigger] root(m, l)), m[root(m,l)] is Rep, root(m, root(m, l)) == root(m, l),
        m[l] is Rep ==> root(m, l) == l,
        m[l] is Lnk ==> root(m, l) != l && m.dom().contains(m[l]->Lnk_0) && root(m, l) == root(m, m[l]->Lnk_0),
{
    reveal(wf);
    let rk = choose|rk: Rk| rk_ok(m, rk);
    root_rk_uniq(m, rk, l);
    if m[l] is Lnk { root_rk_uniq(m, rk, m[l]->Lnk_0); }
    root_rk_uniq(m, rk, root(m, l));
}
// strictly-above relation
pub open spec fn up(m: HM, l: Loc, k: nat) -> Loc
    decreases k
{ if k == 0 { l } else if m[l] is Lnk { up(m, m[l]->Lnk_0, (k - 1) as nat) } else { l } }
/// n is reached from l by following at least one link
#[verifier::opaque]
pub open spec fn above(m: HM, l: Loc, n: Loc) -> bool { m[l] is Lnk && exists|k: nat| n == up(m, m[l]->Lnk_0, k) }

pub broadcast proof fn above_step(m: HM, l: Loc, n: Loc)
    requires m[l] is Lnk,
    ensures 
      m[l]->Lnk_0 == n ==> #[trigger] above(m, l, n),
      m[m[l]->Lnk_0] is Lnk && m[m[l]->Lnk_0]->Lnk_0 == n ==> above(m, l, n),
{
    reveal(above);
    if m[l]->Lnk_0 == n { assert(n == up(m, m[l]->Lnk_0, 0)); }
    if m[m[l]->Lnk_0] is Lnk && m[m[l]->Lnk_0]->Lnk_0 == n {
        reveal_with_fuel(up, 3);
        assert(n == up(m, m[l]->Lnk_0, 1)); }
}
proof fn up_rk(m: HM, rk: Rk, l: Loc, k: nat)
    requires rk_ok(m, rk), m.dom().contains(l),
    ensures m.dom().contains(up(m, l, k)), rk(up(m, l, k)) <= rk(l), root_rk(m, rk, up(m, l, k)) == root_rk(m, rk, l)
    decreases k
{ if k > 0 && m[l] is Lnk { up_rk(m, rk, m[l]->Lnk_0, (k-1) as nat); } }

pub broadcast proof fn above_facts(m: HM, l: Loc, n: Loc)
    requires #[trigger] above(m, l, n), wf(m), m.dom().contains(l),
    ensures l != n, m.dom().contains(n), root(m, n) == root(m, l),
{
    reveal(wf); reveal(above);
    let rk = choose|rk: Rk| rk_ok(m, rk);
    let k = choose|k: nat| n == up(m, m[l]->Lnk_0, k);
    up_rk(m, rk, m[l]->Lnk_0, k); root_rk_uniq(m, rk, n); root_rk_uniq(m, rk, l);
}
#[verifier::opaque]
pub open spec fn stored(m0: HM, m1: HM, l: Loc, v: Cls) -> bool { m1 == m0.insert(l, v) }

// same classes, same representatives with same weights; only links may differ
#[verifier::opaque]
pub open spec fn same_roots(m0: HM, m1: HM) -> bool {
    &&& m1.dom() == m0.dom()
    &&& forall|x: Loc| m0.dom().contains(x) ==> #[trigger] root(m1, x) == root(m0, x)
    &&& forall|x: Loc| m0.dom().contains(x) && m0[x] is Rep ==> m1[x] == #[trigger] m0[x]
    &&& forall|x: Loc| m0.dom().contains(x) && m0[x] is Lnk ==> (#[trigger] m1[x]) is Lnk
}
pub broadcast proof fn same_roots_trans(m0: HM, m1: HM, m2: HM)
    requires #[trigger] same_roots(m0, m1), #[trigger] same_roots(m1, m2),
    ensures same_roots(m0, m2),
{ reveal(same_roots); 
  assert forall|x: Loc| m0.dom().contains(x) && m0[x] is Rep implies m2[x] == #[trigger] m0[x] by { assert(m1[x] == m0[x]); }
  assert forall|x: Loc| m0.dom().contains(x) implies #[trigger] root(m2, x) == root(m0, x) by { assert(root(m1, x) == root(m0, x)); }
  assert forall|x: Loc| m0.dom().contains(x) && m0[x] is Lnk implies (#[trigger] m2[x]) is Lnk by { assert(m1[x] is Lnk); }
}
pub broadcast proof fn same_roots_at(m0: HM, m1: HM, l: Loc)
    requires #[trigger] same_roots(m0, m1), m0.dom().contains(l),
    ensures #[trigger] m1.dom().contains(l), root(m1, l) == root(m0, l), (m1[l] is Rep) == (m0[l] is Rep), m0[l] is Rep ==> m1[l] == m0[l]
{ reveal(same_roots); let _ = m1[l]; assert(m0[l] is Rep ==> m1[l] == m0[l]); }
pub broadcast proof fn link_facts(m: HM, l: Loc)
    requires #[trigger] wf(m), m.dom().contains(l), (#[trigger] m[l]) is Lnk,
    ensures m.dom().contains(m[l]->Lnk_0), root(m, l) == root(m, m[l]->Lnk_0), root(m, l) != l,
{ root_facts(m, l); }
pub broadcast proof fn same_roots_refl(m: HM) ensures #[trigger] same_roots(m, m) { reveal(same_roots); }

proof fn root_rk_same(m0: HM, m1: HM, rk: Rk, l: Loc, n: Loc, x: Loc)
    requires rk_ok(m0, rk), m0.dom().contains(l), m0[l] is Lnk, m1 == m0.insert(l, Cls::Lnk(n)), m0.dom().contains(n), rk(n) < rk(l), root_rk(m0, rk, n) == root_rk(m0, rk, l),
      m0.dom().contains(x),
    ensures root_rk(m1, rk, x) == root_rk(m0, rk, x)
    decreases rk(x)
{
    if x == l { root_rk_same(m0, m1, rk, l, n, n); }
    else if m0[x] is Lnk { root_rk_same(m0, m1, rk, l, n, m0[x]->Lnk_0); }
}
pub broadcast proof fn store_at(m0: HM, m1: HM, l: Loc, v: Cls, x: Loc)
    requires #[trigger] stored(m0, m1, l, v),
    ensures #[trigger] m1[x] == (if x == l { v } else { m0[x] }),
{ reveal(stored); }
/// S2: redirecting a link to anything further up the same chain
pub broadcast proof fn store_shorten(m0: HM, m1: HM, l: Loc, n: Loc)
    requires #[trigger] stored(m0, m1, l, Cls::Lnk(n)), wf(m0), m0.dom().contains(l), above(m0, l, n),
    ensures wf(m1), same_roots(m0, m1),
{
    reveal(stored); reveal(above); reveal(same_roots); reveal(wf);
    let rk = choose|rk: Rk| rk_ok(m0, rk);
    let k = choose|k: nat| n == up(m0, m0[l]->Lnk_0, k);
    up_rk(m0, rk, m0[l]->Lnk_0, k);
    assert(rk_ok(m1, rk));
    assert(m1.dom() =~= m0.dom());
    assert forall|x: Loc| m0.dom().contains(x) implies #[trigger] root(m1, x) == root(m0, x) by {
        root_rk_same(m0, m1, rk, l, n, x);
        root_rk_uniq(m0, rk, x); root_rk_uniq(m1, rk, x);
    }
}
#[verifier::opaque]
pub open spec fn same_links(m0: HM, m1: HM) -> bool {
    &&& m1.dom() == m0.dom()
    &&& forall|x: Loc| m0.dom().contains(x) ==> #[trigger] root(m1, x) == root(m0, x)
    &&& forall|x: Loc| m0.dom().contains(x) ==> ((#[trigger] m1[x]) is Rep <==> m0[x] is Rep)
}
/// S3: changing the weight of a representative
pub broadcast proof fn store_weight(m0: HM, m1: HM, l: Loc, w: usize)
    requires #[trigger] stored(m0, m1, l, Cls::Rep(w)), wf(m0), m0.dom().contains(l), m0[l] is Rep,
    ensures wf(m1), same_links(m0, m1), m1[l] == Cls::Rep(w), forall|x: Loc| x != l ==> m1[x] == m0[x],
{
    reveal(stored); reveal(same_links); reveal(wf);
    let rk = choose|rk: Rk| rk_ok(m0, rk);
    assert(rk_ok(m1, rk));
    assert(m1.dom() =~= m0.dom());
    assert forall|x: Loc| m0.dom().contains(x) implies #[trigger] root(m1, x) == root(m0, x) by {
        lem_w(m0, m1, rk, l, x);
        root_rk_uniq(m0, rk, x); root_rk_uniq(m1, rk, x);
    }
}
proof fn lem_w(m0: HM, m1: HM, rk: Rk, l: Loc, x: Loc)
    requires rk_ok(m0, rk), m0.dom().contains(l), m0[l] is Rep, m1[l] is Rep, m1 == m0.insert(l, m1[l]), m0.dom().contains(x),
    ensures root_rk(m1, rk, x) == root_rk(m0, rk, x)
    decreases rk(x)
{ if m0[x] is Lnk { lem_w(m0, m1, rk, l, m0[x]->Lnk_0); } }

/// the classes of roots l and t become one, with representative t
#[verifier::opaque]
pub open spec fn merged(m0: HM, m1: HM, l: Loc, t: Loc) -> bool {
    &&& m1.dom() == m0.dom()
    &&& forall|x: Loc| m0.dom().contains(x) ==> #[trigger] root(m1, x) == (if root(m0, x) == l { t } else { root(m0, x) })
}
/// S4: linking a representative under another class
pub broadcast proof fn store_union(m0: HM, m1: HM, l: Loc, n: Loc)
    requires #[trigger] stored(m0, m1, l, Cls::Lnk(n)), wf(m0), m0.dom().contains(l), m0[l] is Rep, m0.dom().contains(n), root(m0, n) != l,
    ensures wf(m1), merged(m0, m1, l, root(m0, n)), m1[l] == Cls::Lnk(n), forall|x: Loc| x != l ==> m1[x] == m0[x],
{
    reveal(stored); reveal(merged); reveal(wf);
    let rk = choose|rk: Rk| rk_ok(m0, rk);
    let rk2 = |x: Loc| (if root_rk(m0, rk, x) == l { rk(x) + rk(n) + 1 } else { rk(x) });
    root_rk_uniq(m0, rk, n); root_rk_uniq(m0, rk, l);
    assert(rk_ok(m1, rk2));
    assert(m1.dom() =~= m0.dom());
    assert forall|x: Loc| m0.dom().contains(x) implies #[trigger] root(m1, x) == (if root(m0, x) == l { root(m0, n) } else { root(m0, x) }) by {
        lem_u(m0, m1, rk, rk2, l, n, x);
        root_rk_uniq(m0, rk, x); root_rk_uniq(m1, rk2, x);
    }
}
proof fn lem_u(m0: HM, m1: HM, rk: Rk, rk2: Rk, l: Loc, n: Loc, x: Loc)
    requires rk_ok(m0, rk), rk_ok(m1, rk2), m0.dom().contains(l), m0[l] is Rep, m0.dom().contains(n), root_rk(m0, rk, n) != l,
     m1 == m0.insert(l, Cls::Lnk(n)), m0.dom().contains(x),
     rk2 == (|x: Loc| (if root_rk(m0, rk, x) == l { rk(x) + rk(n) + 1 } else { rk(x) })),
    ensures root_rk(m1, rk2, x) == (if root_rk(m0, rk, x) == l { root_rk(m0, rk, n) } else { root_rk(m0, rk, x) })
    decreases rk2(x)
{
    if x == l { lem_u(m0, m1, rk, rk2, l, n, n); }
    else if m0[x] is Lnk { lem_u(m0, m1, rk, rk2, l, n, m0[x]->Lnk_0); }
}
/// S5: a fresh record
#[verifier::opaque]
pub open spec fn grown(m0: HM, m1: HM, l: Loc) -> bool {
    &&& m1.dom() == m0.dom().insert(l) && !m0.dom().contains(l)
    &&& root(m1, l) == l
    &&& forall|x: Loc| m0.dom().contains(x) ==> #[trigger] root(m1, x) == root(m0, x)
    &&& forall|x: Loc| x != l ==> #[trigger] m1[x] == m0[x]
}
pub broadcast proof fn store_alloc(m0: HM, m1: HM, l: Loc, w: usize)
    requires #[trigger] stored(m0, m1, l, Cls::Rep(w)), wf(m0), !m0.dom().contains(l),
    ensures wf(m1), grown(m0, m1, l), m1[l] == Cls::Rep(w),
{
    reveal(stored); reveal(grown); reveal(wf);
    let rk = choose|rk: Rk| rk_ok(m0, rk);
    assert(rk_ok(m1, rk));
    assert forall|x: Loc| m0.dom().contains(x) implies #[trigger] root(m1, x) == root(m0, x) by {
        lem_g(m0, m1, rk, l, x);
        root_rk_uniq(m0, rk, x); root_rk_uniq(m1, rk, x);
    }
    root_rk_uniq(m1, rk, l);
}
proof fn lem_g(m0: HM, m1: HM, rk: Rk, l: Loc, x: Loc)
    requires rk_ok(m0, rk), !m0.dom().contains(l), m1[l] is Rep, m1 == m0.insert(l, m1[l]), m0.dom().contains(x),
    ensures root_rk(m1, rk, x) == root_rk(m0, rk, x)
    decreases rk(x)
{ if m0[x] is Lnk { lem_g(m0, m1, rk, l, m0[x]->Lnk_0); } }
/// the number of links from l to its representative
pub open spec fn dist_rk(m: HM, rk: Rk, l: Loc) -> nat
    decreases rk(l)
{
    if m.dom().contains(l) && m[l] is Lnk && rk(m[l]->Lnk_0) < rk(l) { 1 + dist_rk(m, rk, m[l]->Lnk_0) } else { 0 }
}
#[verifier::opaque]
pub open spec fn dist(m: HM, l: Loc) -> nat { dist_rk(m, choose|rk: Rk| rk_ok(m, rk), l) }
proof fn dist_uniq(m: HM, rk: Rk, l: Loc)
    requires rk_ok(m, rk), m.dom().contains(l),
    ensures dist(m, l) == dist_rk(m, rk, l),
{
    reveal(dist);
    dist_uniq2(m, rk, choose|rk: Rk| rk_ok(m, rk), l);
}
proof fn dist_uniq2(m: HM, rk: Rk, rk2: Rk, l: Loc)
    requires rk_ok(m, rk), rk_ok(m, rk2), m.dom().contains(l),
    ensures dist_rk(m, rk2, l) == dist_rk(m, rk, l),
    decreases rk(l)
{ if m[l] is Lnk { dist_uniq2(m, rk, rk2, m[l]->Lnk_0); } }
pub broadcast proof fn dist_link(m: HM, l: Loc)
    requires wf(m), m.dom().contains(l),
    ensures m[l] is Lnk ==> #[trigger] dist(m, l) == 1 + dist(m, m[l]->Lnk_0), m[l] is Rep ==> dist(m, l) == 0,
{
    reveal(wf);
    let rk = choose|rk: Rk| rk_ok(m, rk);
    dist_uniq(m, rk, l);
    if m[l] is Lnk { dist_uniq(m, rk, m[l]->Lnk_0); }
}
/// what is further up the chain is as far from the end as before
pub broadcast proof fn dist_shorten(m0: HM, m1: HM, l: Loc, n: Loc)
    requires #[trigger] stored(m0, m1, l, Cls::Lnk(n)), wf(m0), m0.dom().contains(l), above(m0, l, n),
    ensures #[trigger] dist(m1, n) == dist(m0, n),
{
    reveal(stored); reveal(above); reveal(wf);
    let rk = choose|rk: Rk| rk_ok(m0, rk);
    let k = choose|k: nat| n == up(m0, m0[l]->Lnk_0, k);
    up_rk(m0, rk, m0[l]->Lnk_0, k);
    assert(rk_ok(m1, rk));
    dist_below(m0, m1, rk, l, n);
    dist_uniq(m0, rk, n); dist_uniq(m1, rk, n);
}
proof fn dist_below(m0: HM, m1: HM, rk: Rk, l: Loc, x: Loc)
    requires rk_ok(m0, rk), m0.dom().contains(x), m0.dom().contains(l), m1 == m0.insert(l, m1[l]), rk(x) < rk(l),
    ensures dist_rk(m1, rk, x) == dist_rk(m0, rk, x),
    decreases rk(x)
{ if m0[x] is Lnk { dist_below(m0, m1, rk, l, m0[x]->Lnk_0); } }
/// a value put back where it was taken from
pub broadcast proof fn store_back(m0: HM, m1: HM, m2: HM, l: Loc, v: Cls, w: Cls)
    requires #[trigger] stored(m0, m1, l, v), m0.dom().contains(l), w == m0[l], #[trigger] stored(m1, m2, l, w),
    ensures m2 == m0,
{ reveal(stored); assert(m2 =~= m0); }
pub broadcast group heap_lemmas { root_facts, above_step, above_facts, store_at, same_roots_refl, same_roots_trans, same_roots_at, link_facts, store_shorten, store_weight, store_union, store_alloc, store_back, dist_link, dist_shorten }

pub tracked struct Heap { pub ghost m: HM }

