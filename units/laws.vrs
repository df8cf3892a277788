// What the abstract traversals mean, independently of how they traverse.
/// identity determines the edges
pub open spec fn law_id<N: Node>() -> bool {
    forall|a: int, b: int| #![trigger N::g_id(a), N::g_id(b)] N::g_id(a) == N::g_id(b) ==> N::g_kids(a).len() == N::g_kids(b).len()
        && forall|i: int| 0 <= i < N::g_kids(a).len() ==> N::g_id(#[trigger] N::g_kids(a)[i]) == N::g_id(N::g_kids(b)[i])
}
/// the counterparts reached from (a, b) by following the same edges
pub open spec fn walk<N: Node>(a: int, b: int, path: Seq<nat>) -> Option<(int, int)>
    decreases path.len()
{
    if path.len() == 0 { Some((a, b)) }
    else if path[0] < N::g_kids(a).len() && path[0] < N::g_kids(b).len() { walk::<N>(N::g_kids(a)[path[0] as int], N::g_kids(b)[path[0] as int], path.drop_first()) }
    else { None }
}
pub open spec fn good<N: Node>(x: int, y: int) -> bool { N::g_id(x) == N::g_id(y) || N::g_cmp(x, y).eqv() && N::g_kids(x).len() == N::g_kids(y).len() }
/// all counterparts reached by the same path have the same identity, or equivalent values and as many edges
pub open spec fn same<N: Node>(a: int, b: int) -> bool { forall|path: Seq<nat>| (#[trigger] walk::<N>(a, b, path)) is Some ==> good::<N>(walk::<N>(a, b, path)->Some_0.0, walk::<N>(a, b, path)->Some_0.1) }
pub proof fn matches_kids<N: Node>(a: int, b: int)
    ensures same::<N>(a, b) == (good::<N>(a, b) && forall|i: int| 0 <= i < N::g_kids(a).len() && i < N::g_kids(b).len() ==> same::<N>(#[trigger] N::g_kids(a)[i], N::g_kids(b)[i]))
{
    let (ka, kb) = (N::g_kids(a), N::g_kids(b));
    if same::<N>(a, b) {
        assert(walk::<N>(a, b, Seq::empty()) == Some((a, b)));
        assert forall|i: int| 0 <= i < ka.len() && i < kb.len() implies same::<N>(#[trigger] ka[i], kb[i]) by {
            assert forall|path: Seq<nat>| (#[trigger] walk::<N>(ka[i], kb[i], path)) is Some implies good::<N>(walk::<N>(ka[i], kb[i], path)->Some_0.0, walk::<N>(ka[i], kb[i], path)->Some_0.1) by {
                let p = seq![i as nat] + path;
                assert(p.drop_first() =~= path);
                assert(walk::<N>(a, b, p) == walk::<N>(ka[i], kb[i], path));
            }
        }
    }
    if good::<N>(a, b) && forall|i: int| 0 <= i < ka.len() && i < kb.len() ==> same::<N>(#[trigger] ka[i], kb[i]) {
        assert forall|path: Seq<nat>| (#[trigger] walk::<N>(a, b, path)) is Some implies good::<N>(walk::<N>(a, b, path)->Some_0.0, walk::<N>(a, b, path)->Some_0.1) by {
            if path.len() > 0 { let i = path[0] as int; assert(same::<N>(ka[i], kb[i])); assert(walk::<N>(ka[i], kb[i], path.drop_first()) is Some); }
        }
    }
}
pub proof fn walk_same<N: Node>(a: int, b: int, path: Seq<nat>)
    requires law_id::<N>(), N::g_id(a) == N::g_id(b),
    ensures walk::<N>(a, b, path) is Some ==> N::g_id(walk::<N>(a, b, path)->Some_0.0) == N::g_id(walk::<N>(a, b, path)->Some_0.1)
    decreases path.len()
{
    if path.len() > 0 && path[0] < N::g_kids(a).len() && path[0] < N::g_kids(b).len() {
        let i = path[0] as int;
        assert(N::g_id(N::g_kids(a)[i]) == N::g_id(N::g_kids(b)[i]));
        walk_same::<N>(N::g_kids(a)[i], N::g_kids(b)[i], path.drop_first());
    }
}
pub proof fn matches_same<N: Node>(a: int, b: int)
    requires law_id::<N>(), N::g_id(a) == N::g_id(b),
    ensures same::<N>(a, b)
{
    assert forall|path: Seq<nat>| (#[trigger] walk::<N>(a, b, path)) is Some implies good::<N>(walk::<N>(a, b, path)->Some_0.0, walk::<N>(a, b, path)->Some_0.1) by { walk_same::<N>(a, b, path); }
}
pub open spec fn fine<N: Node>(x: Item) -> bool { match x { Item::Pair(a, b) => same::<N>(a, b), Item::Stop(_) => false } }
pub open spec fn all_fine<N: Node>(q: Q) -> bool { forall|i: int| 0 <= i < q.len() ==> fine::<N>(#[trigger] q[i]) }
pub proof fn fine_items<N: Node>(ka: Seq<int>, kb: Seq<int>, i: nat)
    requires i <= ka.len() && i <= kb.len(),
    ensures all_fine::<N>(items(ka, kb, i)) == (ka.len() == kb.len() && forall|j: int| i <= j < ka.len() && j < kb.len() ==> same::<N>(#[trigger] ka[j], kb[j])),
    decreases ka.len() - i
{
    let q = items(ka, kb, i);
    if i < ka.len() && i < kb.len() {
        fine_items::<N>(ka, kb, i + 1);
        let q2 = items(ka, kb, i + 1);
        if all_fine::<N>(q) {
            assert(fine::<N>(q[0]));
            assert forall|k: int| 0 <= k < q2.len() implies fine::<N>(#[trigger] q2[k]) by { assert(fine::<N>(q[k + 1])); assert(q[k + 1] == q2[k]); }
        } else {
            let k = choose|k: int| 0 <= k < q.len() && !fine::<N>(#[trigger] q[k]);
            if k > 0 { assert(q[k] == q2[k - 1]); }
        }
    } else if i < ka.len() || i < kb.len() { assert(!fine::<N>(q[0])); }
}
pub proof fn one_fine<N: Node>(a: int, b: int)
    ensures all_fine::<N>(cons(a, b, Seq::empty())) == same::<N>(a, b)
{ broadcast use cons_facts; let q = cons(a, b, Seq::empty()); assert(fine::<N>(q[0]) == same::<N>(a, b)); }
/// descending is never declined
pub open spec fn never_skips<N: Node, E: Possible, D: DescendMode<N, E>>() -> bool {
    (forall|s: D::St| !(#[trigger] D::tick(s) is Skip)) && (forall|s: D::St, a: int, b: int| !(#[trigger] D::desc(s, a, b) is Skip))
}
pub proof fn fine_first<N: Node>(q: Q)
    requires q.len() > 0,
    ensures all_fine::<N>(q) == (fine::<N>(q[0]) && all_fine::<N>(q.drop_first())),
{
    let t = q.drop_first();
    if all_fine::<N>(q) { assert forall|k: int| 0 <= k < t.len() implies fine::<N>(#[trigger] t[k]) by { assert(fine::<N>(q[k + 1])); } }
    if fine::<N>(q[0]) && all_fine::<N>(t) { assert forall|k: int| 0 <= k < q.len() implies fine::<N>(#[trigger] q[k]) by { if k > 0 { assert(fine::<N>(t[k - 1])); } } }
}
/// a difference found is one of the items pending; whatever the order of traversal, none is found exactly when everything pending matches (unless descending was declined)
pub proof fn run_matches<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s: D::St, l: nat)
    requires law_cmp::<N>(), law_id::<N>(),
    ensures run::<N, E, D>(dfs, q, s, l) is Diff ==> !all_fine::<N>(q),
        never_skips::<N, E, D>() && run::<N, E, D>(dfs, q, s, l) is Equal ==> all_fine::<N>(q),
    decreases l
{
    if q.len() > 0 { match q[0] {
        Item::Stop(_) => { assert(!fine::<N>(q[0])); }
        Item::Pair(a, b) => if l > 0 {
            matches_kids::<N>(a, b);
            if N::g_id(a) == N::g_id(b) { matches_same::<N>(a, b); }
            fine_items::<N>(N::g_kids(a), N::g_kids(b), 0);
            let t = q.drop_first();
            fine_first::<N>(q);
            match visit::<N, E, D>(s, a, b) {
                Visit::Fail(..) => {}
                Visit::Diff(..) => {
                    let ks = kid_items::<N>(a, b);
                    if N::g_id(a) != N::g_id(b) && N::g_cmp(a, b).eqv() { assert(!fine::<N>(ks[0])); }
                    assert(!fine::<N>(q[0]));
                }
                Visit::More(ks, s1) => {
                    run_matches::<N, E, D>(dfs, ins(dfs, t, ks), s1, (l - 1) as nat);
                    fine_add::<N>(ks, t); fine_add::<N>(t, ks);
                    assert(ks.len() == 0 ==> all_fine::<N>(ks));
                }
            }
        }
    } }
}
pub proof fn fine_add<N: Node>(x: Q, y: Q)
    ensures all_fine::<N>(x + y) == (all_fine::<N>(x) && all_fine::<N>(y))
{
    if all_fine::<N>(x + y) {
        assert forall|k: int| 0 <= k < x.len() implies fine::<N>(#[trigger] x[k]) by { assert(fine::<N>((x + y)[k])); }
        assert forall|k: int| 0 <= k < y.len() implies fine::<N>(#[trigger] y[k]) by { assert(fine::<N>((x + y)[k + x.len()])); }
    }
    if all_fine::<N>(x) && all_fine::<N>(y) {
        assert forall|k: int| 0 <= k < (x + y).len() implies fine::<N>(#[trigger] (x + y)[k]) by { if k >= x.len() { assert(fine::<N>(y[k - x.len()])); } else { assert(fine::<N>(x[k])); } }
    }
}

// ---- the first difference in depth-first preorder, by structural recursion
pub open spec fn first<N: Node>(a: int, b: int) -> Option<N::Cmp>
    decreases the_rk::<N>()(a), 1nat, 0nat
{
    let (ka, kb) = (N::g_kids(a), N::g_kids(b));
    if N::g_id(a) == N::g_id(b) { None }
    else if !N::g_cmp(a, b).eqv() { Some(N::g_cmp(a, b)) }
    else { first_kids::<N>(a, ka, kb, 0) }
}
pub open spec fn first_kids<N: Node>(p: int, ka: Seq<int>, kb: Seq<int>, i: nat) -> Option<N::Cmp>
    decreases the_rk::<N>()(p), 0nat, ka.len() - i
{
    if i < ka.len() && i < kb.len() && the_rk::<N>()(ka[i as int]) < the_rk::<N>()(p) {
        match first::<N>(ka[i as int], kb[i as int]) { Some(c) => Some(c), None => first_kids::<N>(p, ka, kb, i + 1) }
    }
    else if i < ka.len() { Some(N::Cmp::of_ord(Ordering::Greater)) }
    else if i < kb.len() { Some(N::Cmp::of_ord(Ordering::Less)) }
    else { None }
}
pub open spec fn found<C, E, S>(o: Out<C, E, S>, f: Option<C>) -> bool {
    match o { Out::OutOfFuel => true, Out::Fail(..) => true, Out::Equal(_) => f is None, Out::Diff(c, _) => f == Some(c) }
}
pub proof fn preorder<N: Node, E: Possible, D: DescendMode<N, E>>(a: int, b: int, s: D::St, l: nat)
    requires law_cmp::<N>(), acyclic::<N>(), never_skips::<N, E, D>(),
    ensures found(run::<N, E, D>(true, cons(a, b, Seq::empty()), s, l), first::<N>(a, b))
    decreases the_rk::<N>()(a), 1nat, 0nat
{
    broadcast use cons_facts;
    let ks = kid_items::<N>(a, b);
    assert(ins(true, cons(a, b, Seq::empty()).drop_first(), ks) =~= ks);
    assert(ins(true, cons(a, b, Seq::empty()).drop_first(), Seq::empty()) =~= Seq::empty());
    if l > 0 {
        reveal_with_fuel(run, 2);
        match visit::<N, E, D>(s, a, b) {
            Visit::More(k, s1) => { preorder_kids::<N, E, D>(a, N::g_kids(a), N::g_kids(b), 0, s1, (l - 1) as nat); }
            _ => { if ks.len() > 0 && ks[0] is Stop { assert(run::<N, E, D>(true, ks, s, 0) is Diff); preorder_kids::<N, E, D>(a, N::g_kids(a), N::g_kids(b), 0, s, 0); } }
        }
    }
}
pub proof fn preorder_kids<N: Node, E: Possible, D: DescendMode<N, E>>(p: int, ka: Seq<int>, kb: Seq<int>, i: nat, s: D::St, l: nat)
    requires law_cmp::<N>(), acyclic::<N>(), ka == N::g_kids(p), never_skips::<N, E, D>(),
    ensures found(run::<N, E, D>(true, items(ka, kb, i), s, l), first_kids::<N>(p, ka, kb, i)),
    decreases the_rk::<N>()(p), 0nat, ka.len() - i
{
    if i < ka.len() && i < kb.len() {
        let (a, b) = (ka[i as int], kb[i as int]);
        assert(the_rk::<N>()(N::g_kids(p)[i as int]) < the_rk::<N>()(p));
        preorder::<N, E, D>(a, b, s, l);
        let t = items(ka, kb, i + 1);
        assert(items(ka, kb, i) =~= cons(a, b, Seq::empty()) + t);
        let g = run_append::<N, E, D>(cons(a, b, Seq::empty()), t, s, l);
        if let Out::Equal(s1) = run::<N, E, D>(true, cons(a, b, Seq::empty()), s, l) { preorder_kids::<N, E, D>(p, ka, kb, i + 1, s1, g); }
    }
}

// ---- a difference found is that of a real pair of counterparts
/// c is the result of comparing x and y themselves
pub open spec fn differs<N: Node>(x: int, y: int, c: N::Cmp) -> bool {
    N::g_id(x) != N::g_id(y) && if N::g_cmp(x, y).eqv() {
        (N::g_kids(x).len() > N::g_kids(y).len() && c == N::Cmp::of_ord(Ordering::Greater)) || (N::g_kids(x).len() < N::g_kids(y).len() && c == N::Cmp::of_ord(Ordering::Less))
    } else { c == N::g_cmp(x, y) }
}
pub open spec fn differs_at<N: Node>(a: int, b: int, path: Seq<nat>, c: N::Cmp) -> bool {
    walk::<N>(a, b, path) is Some && differs::<N>(walk::<N>(a, b, path)->Some_0.0, walk::<N>(a, b, path)->Some_0.1, c)
}
/// c is the result of some pair of counterparts below (a, b)
pub open spec fn has_diff<N: Node>(a: int, b: int, c: N::Cmp) -> bool { exists|path: Seq<nat>| differs_at::<N>(a, b, path, c) }
pub open spec fn item_diff<N: Node>(x: Item, c: N::Cmp) -> bool { match x { Item::Stop(o) => c == N::Cmp::of_ord(o), Item::Pair(a, b) => has_diff::<N>(a, b, c) } }
pub open spec fn some_diff<N: Node>(q: Q, c: N::Cmp) -> bool { exists|i: int| 0 <= i < q.len() && item_diff::<N>(#[trigger] q[i], c) }
proof fn diff_below<N: Node>(a: int, b: int, j: int, c: N::Cmp)
    requires 0 <= j < N::g_kids(a).len(), j < N::g_kids(b).len(), has_diff::<N>(N::g_kids(a)[j], N::g_kids(b)[j], c),
    ensures has_diff::<N>(a, b, c)
{
    let path = choose|path: Seq<nat>| differs_at::<N>(N::g_kids(a)[j], N::g_kids(b)[j], path, c);
    let p = seq![j as nat] + path;
    assert(p.drop_first() =~= path);
    assert(differs_at::<N>(a, b, p, c));
}
proof fn item_at(ka: Seq<int>, kb: Seq<int>, i: nat, j: int)
    requires i <= ka.len(), i <= kb.len(), 0 <= j < items(ka, kb, i).len(),
    ensures match items(ka, kb, i)[j] {
        Item::Pair(x, y) => i + j < ka.len() && i + j < kb.len() && x == ka[i + j] && y == kb[i + j],
        Item::Stop(o) => (ka.len() > kb.len() && o == Ordering::Greater) || (ka.len() < kb.len() && o == Ordering::Less) },
    decreases j
{
    if i < ka.len() && i < kb.len() && j > 0 { item_at(ka, kb, i + 1, j - 1); assert(items(ka, kb, i)[j] == items(ka, kb, i + 1)[j - 1]); }
}
pub proof fn diff_real<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s: D::St, l: nat)
    ensures run::<N, E, D>(dfs, q, s, l) is Diff ==> some_diff::<N>(q, run::<N, E, D>(dfs, q, s, l)->Diff_0),
    decreases l
{
    if q.len() > 0 && run::<N, E, D>(dfs, q, s, l) is Diff {
        let c = run::<N, E, D>(dfs, q, s, l)->Diff_0;
        match q[0] {
            Item::Stop(_) => { assert(item_diff::<N>(q[0], c)); }
            Item::Pair(a, b) => {
                let ks = kid_items::<N>(a, b);
                match visit::<N, E, D>(s, a, b) {
                    Visit::Fail(..) => {}
                    Visit::Diff(..) => {
                        if ks.len() > 0 { item_at(N::g_kids(a), N::g_kids(b), 0, 0); }
                        assert(walk::<N>(a, b, Seq::empty()) == Some((a, b)));
                        assert(differs_at::<N>(a, b, Seq::empty(), c));
                        assert(item_diff::<N>(q[0], c));
                    }
                    Visit::More(k1, s1) => {
                        let q1 = ins(dfs, q.drop_first(), k1);
                        diff_real::<N, E, D>(dfs, q1, s1, (l - 1) as nat);
                        let i = choose|i: int| 0 <= i < q1.len() && item_diff::<N>(#[trigger] q1[i], c);
                        // an item of the rest, or of the edges
                        let j = if dfs { i } else { i - (q.len() - 1) };
                        if 0 <= j < k1.len() {
                            assert(q1[i] == k1[j]);
                            item_at(N::g_kids(a), N::g_kids(b), 0, j);
                            match k1[j] {
                                Item::Pair(x, y) => { diff_below::<N>(a, b, j, c); }
                                Item::Stop(o) => {
                                    assert(walk::<N>(a, b, Seq::empty()) == Some((a, b)));
                                    assert(differs_at::<N>(a, b, Seq::empty(), c));
                                }
                            }
                            assert(item_diff::<N>(q[0], c));
                        } else {
                            let m = if dfs { i - k1.len() + 1 } else { i + 1 };
                            assert(q1[i] == q[m]);
                        }
                    }
                }
            }
        }
    }
}
pub proof fn one_diff_real<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, a: int, b: int, s: D::St, l: nat)
    ensures run::<N, E, D>(dfs, cons(a, b, Seq::empty()), s, l) is Diff ==> has_diff::<N>(a, b, run::<N, E, D>(dfs, cons(a, b, Seq::empty()), s, l)->Diff_0),
{
    broadcast use cons_facts;
    let q = cons(a, b, Seq::empty());
    diff_real::<N, E, D>(dfs, q, s, l);
    if run::<N, E, D>(dfs, q, s, l) is Diff {
        let c = run::<N, E, D>(dfs, q, s, l)->Diff_0;
        let i = choose|i: int| 0 <= i < q.len() && item_diff::<N>(#[trigger] q[i], c);
        assert(i == 0);
    }
}
