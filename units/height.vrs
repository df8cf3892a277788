// How long the chains of links get: labels that grow along the links, of which the weights are at least the powers of two.
pub open spec fn p2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
pub proof fn p2_grows(a: nat, b: nat) requires a <= b ensures p2(a) <= p2(b), p2(a) >= 1 decreases b { if b > 0 && a < b { p2_grows(a, (b - 1) as nat); } else if a > 0 { p2_grows((a - 1) as nat, (a - 1) as nat); } }
pub open spec fn wt(m: HM, l: Loc) -> nat { match m[l] { Cls::Rep(w) => w as nat, Cls::Lnk(_) => 0 } }
pub open spec fn total(m: HM, s: Set<Loc>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { let x = s.choose(); if s.contains(x) { wt(m, x) + total(m, s.remove(x)) } else { 0 } } }
proof fn total_take(m: HM, s: Set<Loc>, x: Loc)
    requires s.contains(x),
    ensures total(m, s) == wt(m, x) + total(m, s.remove(x)),
    decreases s.len()
{
    let y = s.choose();
    assert(s.len() > 0) by { if s.len() == 0 { assert(s =~= Set::<Loc>::empty()); } }
    assert(s.contains(y));
    if x != y {
        total_take(m, s.remove(y), x);
        total_take(m, s.remove(x), y);
        assert(s.remove(x).remove(y) =~= s.remove(y).remove(x));
    }
}
proof fn total_same(m0: HM, m1: HM, s: Set<Loc>)
    requires forall|x: Loc| s.contains(x) ==> wt(m1, x) == wt(m0, x),
    ensures total(m1, s) == total(m0, s),
    decreases s.len()
{ if s.len() > 0 { let y = s.choose(); if s.contains(y) { total_same(m0, m1, s.remove(y)); } } }
/// changing one record
proof fn total_put(m0: HM, m1: HM, s: Set<Loc>, l: Loc, v: Cls)
    requires m1 == m0.insert(l, v), s.contains(l),
    ensures total(m1, s) + wt(m0, l) == total(m0, s) + wt(m1, l),
{ total_take(m0, s, l); total_take(m1, s, l); total_same(m0, m1, s.remove(l)); }
proof fn total_two(m: HM, s: Set<Loc>, a: Loc, b: Loc)
    requires s.contains(a), s.contains(b), a != b,
    ensures wt(m, a) + wt(m, b) <= total(m, s),
{ total_take(m, s, a); total_take(m, s.remove(a), b); }

pub type Lab = spec_fn(Loc) -> nat;
pub open spec fn lab_ok(m: HM, lab: Lab) -> bool {
    forall|l: Loc| #[trigger] m.dom().contains(l) ==> match m[l] { Cls::Rep(w) => p2(lab(l)) <= w, Cls::Lnk(n) => m.dom().contains(n) && lab(l) < lab(n) }
}
/// the weights are no more than there are records, and no less than the chains need; the number of records fits a word
#[verifier::opaque]
pub open spec fn tall(m: HM) -> bool { (exists|lab: Lab| lab_ok(m, lab)) && total(m, m.dom()) <= m.dom().len() <= usize::MAX }
pub proof fn tall_empty() ensures tall(Map::<Loc, Cls>::empty()) { reveal(tall); assert(lab_ok(Map::<Loc, Cls>::empty(), |l: Loc| 0nat)); }
proof fn lab_up(m: HM, lab: Lab, l: Loc, k: nat)
    requires lab_ok(m, lab), m.dom().contains(l),
    ensures m.dom().contains(up(m, l, k)), lab(up(m, l, k)) >= lab(l),
    decreases k
{ if k > 0 && m[l] is Lnk { lab_up(m, lab, m[l]->Lnk_0, (k - 1) as nat); } }
/// redirecting a link to anything further up the same chain
pub broadcast proof fn tall_shorten(m0: HM, m1: HM, l: Loc, n: Loc)
    requires #[trigger] stored(m0, m1, l, Cls::Lnk(n)), tall(m0), m0.dom().contains(l), above(m0, l, n),
    ensures tall(m1),
{
    reveal(stored); reveal(above); reveal(tall);
    let lab = choose|lab: Lab| lab_ok(m0, lab);
    let k = choose|k: nat| n == up(m0, m0[l]->Lnk_0, k);
    lab_up(m0, lab, m0[l]->Lnk_0, k);
    assert(lab_ok(m1, lab));
    assert(m1.dom() =~= m0.dom());
    total_put(m0, m1, m0.dom(), l, Cls::Lnk(n));
}
/// a fresh record
pub broadcast proof fn tall_alloc(m0: HM, m1: HM, l: Loc, w: usize)
    requires #[trigger] stored(m0, m1, l, Cls::Rep(w)), w == 1, tall(m0), !m0.dom().contains(l), m1.dom().len() <= usize::MAX,
    ensures tall(m1),
{
    reveal(stored); reveal(tall);
    let lab = choose|lab: Lab| lab_ok(m0, lab);
    let lab1 = |x: Loc| if x == l { 0nat } else { lab(x) };
    assert(m1.dom() =~= m0.dom().insert(l));
    assert forall|x: Loc| #[trigger] m1.dom().contains(x) implies match m1[x] { Cls::Rep(w) => p2(lab1(x)) <= w, Cls::Lnk(n) => m1.dom().contains(n) && lab1(x) < lab1(n) } by {
        if x != l { assert(m0.dom().contains(x)); }
    }
    assert(lab_ok(m1, lab1));
    total_take(m1, m1.dom(), l);
    assert(m1.dom().remove(l) =~= m0.dom());
    total_same(m0, m1, m0.dom());
}
proof fn tall_union(m0: HM, m2: HM, l: Loc, s: Loc, w: usize)
    requires tall(m0), m0.dom().contains(l), m0.dom().contains(s), m0[l] is Rep, m0[s] is Rep, l != s,
        m0[s]->Rep_0 <= m0[l]->Rep_0, w == m0[l]->Rep_0 + m0[s]->Rep_0 || (w == usize::MAX && m0[l]->Rep_0 + m0[s]->Rep_0 > usize::MAX),
        m2 == m0.insert(l, Cls::Rep(w)).insert(s, Cls::Lnk(l)),
    ensures tall(m2),
{
    reveal(tall);
    let lab = choose|lab: Lab| lab_ok(m0, lab);
    total_two(m0, m0.dom(), l, s);
    let m1 = m0.insert(l, Cls::Rep(w));
    assert(m1.dom() =~= m0.dom()); assert(m2.dom() =~= m0.dom());
    total_put(m0, m1, m0.dom(), l, Cls::Rep(w));
    total_put(m1, m2, m0.dom(), s, Cls::Lnk(l));
    let h = if lab(s) < lab(l) { lab(l) } else { lab(s) + 1 };
    let lab1 = |x: Loc| if x == l { h } else { lab(x) };
    assert(p2(h) <= w) by { assert(p2(lab(s)) <= m0[s]->Rep_0); assert(p2(lab(l)) <= m0[l]->Rep_0); assert(p2(lab(s) + 1) == 2 * p2(lab(s))); }
    assert forall|x: Loc| #[trigger] m2.dom().contains(x) implies match m2[x] { Cls::Rep(w) => p2(lab1(x)) <= w, Cls::Lnk(n) => m2.dom().contains(n) && lab1(x) < lab1(n) } by { assert(m0.dom().contains(x)); }
    assert(lab_ok(m2, lab1));
}
/// linking the representative of the smaller weight under that of the larger, with the sum of the weights, in either order
pub broadcast proof fn tall_union1(m0: HM, m1: HM, m2: HM, l: Loc, s: Loc, w: usize)
    requires #[trigger] stored(m0, m1, l, Cls::Rep(w)), #[trigger] stored(m1, m2, s, Cls::Lnk(l)), tall(m0), m0.dom().contains(l), m0.dom().contains(s), m0[l] is Rep, m0[s] is Rep, l != s,
        m0[s]->Rep_0 <= m0[l]->Rep_0, w == m0[l]->Rep_0 + m0[s]->Rep_0 || (w == usize::MAX && m0[l]->Rep_0 + m0[s]->Rep_0 > usize::MAX),
    ensures tall(m2),
{ reveal(stored); tall_union(m0, m2, l, s, w); }
pub broadcast proof fn tall_union2(m0: HM, m1: HM, m2: HM, l: Loc, s: Loc, w: usize)
    requires #[trigger] stored(m0, m1, s, Cls::Lnk(l)), #[trigger] stored(m1, m2, l, Cls::Rep(w)), tall(m0), m0.dom().contains(l), m0.dom().contains(s), m0[l] is Rep, m0[s] is Rep, l != s,
        m0[s]->Rep_0 <= m0[l]->Rep_0, w == m0[l]->Rep_0 + m0[s]->Rep_0 || (w == usize::MAX && m0[l]->Rep_0 + m0[s]->Rep_0 > usize::MAX),
    ensures tall(m2),
{ reveal(stored); assert(m2 =~= m0.insert(l, Cls::Rep(w)).insert(s, Cls::Lnk(l))); tall_union(m0, m2, l, s, w); }
pub broadcast group height_lemmas { tall_shorten, tall_alloc, tall_union1, tall_union2 }
/// a chain of d links needs 2^d records
pub proof fn chains_short(m: HM, l: Loc)
    requires wf(m), tall(m), m.dom().contains(l),
    ensures p2(dist(m, l)) <= m.dom().len(),
{
    reveal(tall); reveal(wf);
    let lab = choose|lab: Lab| lab_ok(m, lab);
    let rk = choose|rk: Rk| rk_ok(m, rk);
    let r = chain_lab(m, rk, lab, l);
    dist_uniq(m, rk, l);
    total_take(m, m.dom(), r);
    p2_grows(dist(m, l), lab(r));
}
proof fn chain_lab(m: HM, rk: Rk, lab: Lab, l: Loc) -> (r: Loc)
    requires rk_ok(m, rk), lab_ok(m, lab), m.dom().contains(l),
    ensures m.dom().contains(r), m[r] is Rep, lab(l) + dist_rk(m, rk, l) <= lab(r),
    decreases rk(l)
{ if m[l] is Lnk { chain_lab(m, rk, lab, m[l]->Lnk_0) } else { l } }
/// what holds of the records between the store's operations
pub open spec fn fit(m: HM) -> bool { wf(m) && tall(m) }
/// the number of class records fits a word
pub open spec fn fits_memory(m: HM) -> bool { m.dom().len() <= usize::MAX }
