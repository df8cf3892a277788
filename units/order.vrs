// The results of the traversal as an ordering: that it is a total preorder. (The traversal is `run`, in either order.)
pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
/// x <= y and y <= z give x <= z, and so on, of the outcomes of comparing (x, y), (y, z), (x, z)
pub open spec fn tri(x: Ordering, y: Ordering, z: Ordering) -> bool {
    &&& x == Ordering::Equal ==> z == y
    &&& y == Ordering::Equal ==> z == x
    &&& x == Ordering::Less && y == Ordering::Less ==> z == Ordering::Less
    &&& x == Ordering::Greater && y == Ordering::Greater ==> z == Ordering::Greater
}
pub type Ord1<N> = spec_fn(<N as Node>::Cmp) -> Ordering;
/// comparison results stand for orderings
pub open spec fn law_ord<N: Node>(o: Ord1<N>) -> bool {
    &&& o(N::Cmp::of_ord(Ordering::Less)) == Ordering::Less
    &&& o(N::Cmp::of_ord(Ordering::Greater)) == Ordering::Greater
    &&& forall|c: N::Cmp| (#[trigger] c.eqv()) == (o(c) == Ordering::Equal)
}
/// the outcome of comparing two nodes modulo their edges
pub open spec fn local<N: Node>(o: Ord1<N>, a: int, b: int) -> Ordering { o(N::g_cmp(a, b)) }
/// which is a total preorder, consistent with identity
pub open spec fn law_local<N: Node>(o: Ord1<N>) -> bool {
    &&& forall|a: int, b: int| #[trigger] local::<N>(o, b, a) == rev(local::<N>(o, a, b))
    &&& forall|a: int, b: int, c: int| tri(#[trigger] local::<N>(o, a, b), #[trigger] local::<N>(o, b, c), local::<N>(o, a, c))
    &&& forall|a: int, b: int| N::g_id(a) == N::g_id(b) ==> #[trigger] local::<N>(o, a, b) == Ordering::Equal
}
/// the traversal without regard to identity
pub open spec fn go<N: Node>(o: Ord1<N>, dfs: bool, q: Q, f: nat) -> Option<Ordering>
    decreases f
{
    if q.len() == 0 { Some(Ordering::Equal) }
    else { match q[0] {
        Item::Stop(x) => Some(x),
        Item::Pair(a, b) =>
            if f == 0 { None }
            else if local::<N>(o, a, b) != Ordering::Equal { Some(local::<N>(o, a, b)) }
            else {
                let ks = kid_items::<N>(a, b);
                if ks.len() > 0 && ks[0] is Stop { Some(ks[0]->Stop_0) }
                else { go::<N>(o, dfs, ins(dfs, q.drop_first(), ks), (f - 1) as nat) }
            },
    } }
}
proof fn go_ends<N: Node>(o: Ord1<N>, dfs: bool, q: Q, f: nat)
    requires acyclic::<N>(), cost::<N>(q) <= f,
    ensures go::<N>(o, dfs, q, f) is Some
    decreases f
{
    broadcast use {cost_add, cost_kids};
    if q.len() > 0 { if let Item::Pair(a, b) = q[0] {
        cost_pop::<N>(q);
        if f > 0 { go_ends::<N>(o, dfs, ins(dfs, q.drop_first(), kid_items::<N>(a, b)), (f - 1) as nat); }
    } }
}
proof fn go_more<N: Node>(o: Ord1<N>, dfs: bool, q: Q, f: nat, g: nat)
    requires go::<N>(o, dfs, q, f) is Some, f <= g,
    ensures go::<N>(o, dfs, q, g) == go::<N>(o, dfs, q, f)
    decreases f
{
    if q.len() > 0 { if let Item::Pair(a, b) = q[0] {
        let ks = kid_items::<N>(a, b);
        if f > 0 && local::<N>(o, a, b) == Ordering::Equal && !(ks.len() > 0 && ks[0] is Stop) { go_more::<N>(o, dfs, ins(dfs, q.drop_first(), ks), (f - 1) as nat, (g - 1) as nat); }
    } }
}

// ---- leaving out pairs of the same identity changes nothing
pub open spec fn twin<N: Node>(x: Item) -> bool { match x { Item::Pair(a, b) => N::g_id(a) == N::g_id(b), Item::Stop(_) => false } }
/// q is p without some pairs of the same identity
pub open spec fn thin<N: Node>(p: Q, q: Q) -> bool
    decreases p.len()
{
    if p.len() == 0 { q.len() == 0 }
    else { q.len() > 0 && p[0] == q[0] && thin::<N>(p.drop_first(), q.drop_first()) || twin::<N>(p[0]) && thin::<N>(p.drop_first(), q) }
}
proof fn thin_self<N: Node>(q: Q) ensures thin::<N>(q, q) decreases q.len() { if q.len() > 0 { thin_self::<N>(q.drop_first()); } }
proof fn thin_none<N: Node>(p: Q)
    requires forall|i: int| 0 <= i < p.len() ==> twin::<N>(#[trigger] p[i]),
    ensures thin::<N>(p, Seq::empty())
    decreases p.len()
{ if p.len() > 0 { assert forall|i: int| 0 <= i < p.drop_first().len() implies twin::<N>(#[trigger] p.drop_first()[i]) by { assert(p.drop_first()[i] == p[i + 1]); } thin_none::<N>(p.drop_first()); } }
proof fn thin_add<N: Node>(p1: Q, q1: Q, p2: Q, q2: Q)
    requires thin::<N>(p1, q1), thin::<N>(p2, q2),
    ensures thin::<N>(p1 + p2, q1 + q2)
    decreases p1.len()
{
    if p1.len() == 0 { assert(p1 + p2 =~= p2); assert(q1 + q2 =~= q2); }
    else {
        assert((p1 + p2).drop_first() =~= p1.drop_first() + p2);
        if q1.len() > 0 && p1[0] == q1[0] && thin::<N>(p1.drop_first(), q1.drop_first()) {
            assert((q1 + q2).drop_first() =~= q1.drop_first() + q2);
            thin_add::<N>(p1.drop_first(), q1.drop_first(), p2, q2);
        } else { thin_add::<N>(p1.drop_first(), q1, p2, q2); }
    }
}
proof fn twin_items<N: Node>(ka: Seq<int>, kb: Seq<int>, i: nat)
    requires ka.len() == kb.len(), forall|j: int| 0 <= j < ka.len() ==> N::g_id(#[trigger] ka[j]) == N::g_id(kb[j]),
    ensures forall|j: int| 0 <= j < items(ka, kb, i).len() ==> twin::<N>(#[trigger] items(ka, kb, i)[j]),
    decreases ka.len() - i
{
    if i < ka.len() {
        twin_items::<N>(ka, kb, i + 1);
        assert(N::g_id(ka[i as int]) == N::g_id(kb[i as int]));
        assert forall|j: int| 0 <= j < items(ka, kb, i).len() implies twin::<N>(#[trigger] items(ka, kb, i)[j]) by { if j > 0 { assert(items(ka, kb, i)[j] == items(ka, kb, i + 1)[j - 1]); } }
    }
}
proof fn twin_kids<N: Node>(a: int, b: int)
    requires law_id::<N>(), N::g_id(a) == N::g_id(b),
    ensures thin::<N>(kid_items::<N>(a, b), Seq::empty()), kid_items::<N>(a, b).len() > 0 ==> !(kid_items::<N>(a, b)[0] is Stop)
{
    let (ka, kb) = (N::g_kids(a), N::g_kids(b));
    assert forall|j: int| 0 <= j < ka.len() implies N::g_id(#[trigger] ka[j]) == N::g_id(kb[j]) by { assert(N::g_id(N::g_kids(a)[j]) == N::g_id(N::g_kids(b)[j])); }
    twin_items::<N>(ka, kb, 0);
    thin_none::<N>(kid_items::<N>(a, b));
    if kid_items::<N>(a, b).len() > 0 { assert(twin::<N>(kid_items::<N>(a, b)[0])); }
}
/// the outcome of the traversal as an ordering
pub open spec fn outcome<C, E, S>(o: spec_fn(C) -> Ordering, r: Out<C, E, S>) -> Ordering { match r { Out::Diff(c, _) => o(c), _ => Ordering::Equal } }
pub open spec fn decided<C, E, S>(r: Out<C, E, S>) -> bool { r is Diff || r is Equal }
proof fn thin_go<N: Node>(o: Ord1<N>, dfs: bool, p: Q, q: Q, g: nat, f: nat)
    requires law_ord::<N>(o), law_local::<N>(o), law_id::<N>(), thin::<N>(p, q), go::<N>(o, dfs, p, g) is Some, no_equal_stop(p),
        decided(run::<N, Infallible, Unlimited>(dfs, q, (), f)),
    ensures go::<N>(o, dfs, p, g) == Some(outcome(o, run::<N, Infallible, Unlimited>(dfs, q, (), f)))
    decreases g, p.len()
{
    if p.len() > 0 {
        let (pt, qt) = (p.drop_first(), q.drop_first());
        match p[0] {
            Item::Stop(x) => { assert(q[0] == p[0]); assert(x != Ordering::Equal); }
            Item::Pair(a, b) => {
                let ks = kid_items::<N>(a, b);
                let p1 = ins(dfs, pt, ks);
                kid_stops::<N>(a, b);
                assert(no_equal_stop(p1)) by {
                    assert forall|i: int| 0 <= i < p1.len() && (#[trigger] p1[i]) is Stop implies p1[i]->Stop_0 != Ordering::Equal by {
                        if dfs { if i >= ks.len() { assert(p1[i] == p[i - ks.len() + 1]); } else { assert(p1[i] == ks[i]); } }
                        else { if i < p.len() - 1 { assert(p1[i] == p[i + 1]); } else { assert(p1[i] == ks[i - p.len() + 1]); } }
                    }
                }
                if N::g_id(a) == N::g_id(b) {
                    twin_kids::<N>(a, b);
                    let e = Seq::<Item>::empty();
                    assert(local::<N>(o, a, b) == Ordering::Equal);
                    if q.len() > 0 && p[0] == q[0] && thin::<N>(pt, qt) {
                        if dfs { thin_add::<N>(ks, e, pt, qt); } else { thin_add::<N>(pt, qt, ks, e); }
                        thin_go::<N>(o, dfs, p1, ins(dfs, qt, e), (g - 1) as nat, (f - 1) as nat);
                    } else {
                        if dfs { thin_add::<N>(ks, e, pt, q); } else { thin_add::<N>(pt, q, ks, e); }
                        assert(ins(dfs, q, e) =~= q);
                        thin_go::<N>(o, dfs, p1, q, (g - 1) as nat, f);
                    }
                } else {
                    assert(N::g_cmp(a, b).eqv() == (local::<N>(o, a, b) == Ordering::Equal));
                    if N::g_cmp(a, b).eqv() {
                        if ks.len() > 0 && ks[0] is Stop { item_at(N::g_kids(a), N::g_kids(b), 0, 0); }
                        else {
                            thin_self::<N>(ks);
                            if dfs { thin_add::<N>(ks, ks, pt, qt); } else { thin_add::<N>(pt, qt, ks, ks); }
                            thin_go::<N>(o, dfs, p1, ins(dfs, qt, ks), (g - 1) as nat, (f - 1) as nat);
                        }
                    }
                }
            }
        }
    }
}
// ---- swapping the arguments
pub open spec fn flip1(x: Item) -> Item { match x { Item::Pair(a, b) => Item::Pair(b, a), Item::Stop(o) => Item::Stop(rev(o)) } }
pub open spec fn flip(q: Q) -> Q { q.map_values(|x: Item| flip1(x)) }
proof fn flip_add(x: Q, y: Q) ensures flip(x + y) == flip(x) + flip(y) { assert(flip(x + y) =~= flip(x) + flip(y)); }
proof fn flip_items(ka: Seq<int>, kb: Seq<int>, i: nat)
    ensures flip(items(ka, kb, i)) == items(kb, ka, i)
    decreases ka.len() - i
{
    if i < ka.len() && i < kb.len() { flip_items(ka, kb, i + 1); flip_add(seq![Item::Pair(ka[i as int], kb[i as int])], items(ka, kb, i + 1)); assert(flip(seq![Item::Pair(ka[i as int], kb[i as int])]) =~= seq![Item::Pair(kb[i as int], ka[i as int])]); }
    else { assert(flip(items(ka, kb, i)) =~= items(kb, ka, i)); }
}
proof fn go_flip<N: Node>(o: Ord1<N>, dfs: bool, q: Q, f: nat)
    requires law_local::<N>(o),
    ensures go::<N>(o, dfs, flip(q), f) == match go::<N>(o, dfs, q, f) { Some(x) => Some(rev(x)), None => None }
    decreases f
{
    if q.len() > 0 {
        assert(flip(q)[0] == flip1(q[0]));
        if let Item::Pair(a, b) = q[0] {
            if f > 0 {
                let ks = kid_items::<N>(a, b);
                flip_items(N::g_kids(a), N::g_kids(b), 0);
                assert(local::<N>(o, b, a) == rev(local::<N>(o, a, b)));
                if ks.len() > 0 { assert(flip(ks)[0] == flip1(ks[0])); }
                flip_add(q.drop_first(), ks); flip_add(ks, q.drop_first());
                assert(flip(q).drop_first() =~= flip(q.drop_first()));
                go_flip::<N>(o, dfs, ins(dfs, q.drop_first(), ks), (f - 1) as nat);
            }
        }
    }
}
// ---- three comparisons at once
pub open spec fn st(p: Q, o: Ordering) -> bool { p.len() > 0 && p[0] == Item::Stop(o) }
/// the edges of one or two of the three end here
pub open spec fn parting(p: Q, q: Q, r: Q) -> bool {
    ||| st(p, Ordering::Less) && st(r, Ordering::Less)
    ||| st(p, Ordering::Greater) && st(q, Ordering::Less)
    ||| st(q, Ordering::Greater) && st(r, Ordering::Greater)
    ||| st(q, Ordering::Less) && st(r, Ordering::Less)
    ||| st(p, Ordering::Less) && st(q, Ordering::Greater)
    ||| st(p, Ordering::Greater) && st(r, Ordering::Greater)
}
/// what is pending of (a, b), (b, c), (a, c) belongs together, up to where a difference is certain
pub open spec fn joint(p: Q, q: Q, r: Q) -> bool
    decreases p.len()
{
    ||| p.len() == 0 && q.len() == 0 && r.len() == 0
    ||| parting(p, q, r)
    ||| p.len() > 0 && q.len() > 0 && r.len() > 0 && joint1(p[0], q[0], r[0]) && joint(p.drop_first(), q.drop_first(), r.drop_first())
}
pub open spec fn joint1(x: Item, y: Item, z: Item) -> bool { match (x, y, z) { (Item::Pair(a, b), Item::Pair(b1, c), Item::Pair(a1, c1)) => a1 == a && b1 == b && c1 == c, _ => false } }
proof fn joint_add(p1: Q, q1: Q, r1: Q, p2: Q, q2: Q, r2: Q)
    requires joint(p1, q1, r1), joint(p2, q2, r2),
    ensures joint(p1 + p2, q1 + q2, r1 + r2)
    decreases p1.len()
{
    if p1.len() == 0 && q1.len() == 0 && r1.len() == 0 { assert(p1 + p2 =~= p2); assert(q1 + q2 =~= q2); assert(r1 + r2 =~= r2); }
    else if !parting(p1, q1, r1) {
        joint_add(p1.drop_first(), q1.drop_first(), r1.drop_first(), p2, q2, r2);
        assert((p1 + p2).drop_first() =~= p1.drop_first() + p2);
        assert((q1 + q2).drop_first() =~= q1.drop_first() + q2);
        assert((r1 + r2).drop_first() =~= r1.drop_first() + r2);
    }
}
proof fn joint_items(ka: Seq<int>, kb: Seq<int>, kc: Seq<int>, i: nat)
    ensures joint(items(ka, kb, i), items(kb, kc, i), items(ka, kc, i))
    decreases ka.len() - i
{
    if i < ka.len() && i < kb.len() && i < kc.len() {
        joint_items(ka, kb, kc, i + 1);
        assert(items(ka, kb, i).drop_first() =~= items(ka, kb, i + 1));
        assert(items(kb, kc, i).drop_first() =~= items(kb, kc, i + 1));
        assert(items(ka, kc, i).drop_first() =~= items(ka, kc, i + 1));
    }
}
proof fn go_tri<N: Node>(o: Ord1<N>, dfs: bool, p: Q, q: Q, r: Q, f: nat)
    requires law_local::<N>(o), joint(p, q, r), go::<N>(o, dfs, p, f) is Some, go::<N>(o, dfs, q, f) is Some, go::<N>(o, dfs, r, f) is Some,
    ensures tri(go::<N>(o, dfs, p, f)->Some_0, go::<N>(o, dfs, q, f)->Some_0, go::<N>(o, dfs, r, f)->Some_0)
    decreases f
{
    if p.len() > 0 && !parting(p, q, r) {
        let (a, b, c) = (p[0]->Pair_0, p[0]->Pair_1, q[0]->Pair_1);
        let (x, y, z) = (local::<N>(o, a, b), local::<N>(o, b, c), local::<N>(o, a, c));
        assert(tri(x, y, z));
        let (ks, ls, ms) = (kid_items::<N>(a, b), kid_items::<N>(b, c), kid_items::<N>(a, c));
        joint_items(N::g_kids(a), N::g_kids(b), N::g_kids(c), 0);
        if x == Ordering::Equal && y == Ordering::Equal && !parting(ks, ls, ms) {
            joint_add(p.drop_first(), q.drop_first(), r.drop_first(), ks, ls, ms);
            joint_add(ks, ls, ms, p.drop_first(), q.drop_first(), r.drop_first());
            go_tri::<N>(o, dfs, ins(dfs, p.drop_first(), ks), ins(dfs, q.drop_first(), ls), ins(dfs, r.drop_first(), ms), (f - 1) as nat);
        }
    }
}
// ---- the result of comparing two nodes, as an ordering
pub open spec fn ordered<N: Node>(o: Ord1<N>, dfs: bool, a: int, b: int) -> Ordering { outcome(o, run::<N, Infallible, Unlimited>(dfs, cons(a, b, Seq::empty()), (), pair_cost::<N>(a, b))) }
proof fn ordered_go<N: Node>(o: Ord1<N>, dfs: bool, a: int, b: int, f: nat)
    requires law_ord::<N>(o), law_local::<N>(o), law_id::<N>(), acyclic::<N>(), f >= pair_cost::<N>(a, b),
    ensures go::<N>(o, dfs, cons(a, b, Seq::empty()), f) == Some(ordered::<N>(o, dfs, a, b))
{
    broadcast use cons_facts;
    let q = cons(a, b, Seq::empty());
    cost_cons::<N>(a, b, Seq::empty());
    go_ends::<N>(o, dfs, q, f);
    run_ends::<N, Infallible, Unlimited>(dfs, q, (), pair_cost::<N>(a, b));
    no_fail::<N>(dfs, q, pair_cost::<N>(a, b));
    thin_self::<N>(q);
    assert(no_equal_stop(q));
    thin_go::<N>(o, dfs, q, q, f, pair_cost::<N>(a, b));
}
/// the orderings returned are reflexive, antisymmetric and transitive
pub proof fn order_laws<N: Node>(o: Ord1<N>, dfs: bool, a: int, b: int, c: int)
    requires law_ord::<N>(o), law_local::<N>(o), law_id::<N>(), acyclic::<N>(),
    ensures ordered::<N>(o, dfs, a, a) == Ordering::Equal, ordered::<N>(o, dfs, b, a) == rev(ordered::<N>(o, dfs, a, b)),
        tri(ordered::<N>(o, dfs, a, b), ordered::<N>(o, dfs, b, c), ordered::<N>(o, dfs, a, c)),
{
    broadcast use cons_facts;
    let e = Seq::<Item>::empty();
    let f = pair_cost::<N>(a, b) + pair_cost::<N>(b, a) + pair_cost::<N>(b, c) + pair_cost::<N>(a, c);
    ordered_go::<N>(o, dfs, a, b, f); ordered_go::<N>(o, dfs, b, a, f); ordered_go::<N>(o, dfs, b, c, f); ordered_go::<N>(o, dfs, a, c, f);
    go_flip::<N>(o, dfs, cons(a, b, e), f);
    assert(flip(cons(a, b, e)) =~= cons(b, a, e));
    assert(joint(e, e, e));
    assert(joint(cons(a, b, e), cons(b, c, e), cons(a, c, e)));
    go_tri::<N>(o, dfs, cons(a, b, e), cons(b, c, e), cons(a, c, e), f);
    reveal_with_fuel(run, 2);
    assert(ins(dfs, e, e) =~= e);
}
