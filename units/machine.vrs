// How descending is controlled, and the abstract traversal under such a control.
pub ghost enum Act<S, X> { Go(S), Skip(S), Fail(X, S) }
pub open spec fn acted<S, X: Possible>(x: Act<S, X>, r: Result<bool, X>, s1: S) -> bool {
    match x { Act::Go(s) => r == Ok::<bool, X>(true) && s1 == s, Act::Skip(s) => r == Ok::<bool, X>(false) && s1 == s, Act::Fail(e, s) => r == Err::<bool, X>(e) && e.can() && s1 == s }
}
pub trait DescendMode<N: Node, E: Possible>: Sized {
    type Error: VxInto<E>;
    /// the abstract state, and what the two methods do in a state
    type St;
    spec fn st(&self) -> Self::St;
    spec fn wf(&self) -> bool;
    spec fn tick(s: Self::St) -> Act<Self::St, Self::Error>;
    spec fn desc(s: Self::St, a: int, b: int) -> Act<Self::St, Self::Error>;
    fn do_edges(&mut self, a: &N, b: &N) -> (r: Result<bool, Self::Error>)
        requires old(self).wf(),
        ensures final(self).wf(), acted(Self::desc(old(self).st(), a.n(), b.n()), r, final(self).st());
    fn do_traverse(&mut self) -> (r: Result<bool, Self::Error>)
        requires old(self).wf(),
        ensures final(self).wf(), acted(Self::tick(old(self).st()), r, final(self).st());
}
pub ghost enum Visit<C, E, S> { Fail(E, S), Diff(C, S), More(Q, S) }
/// one visit of the pair (a, b)
pub open spec fn visit<N: Node, E: Possible, D: DescendMode<N, E>>(s: D::St, a: int, b: int) -> Visit<N::Cmp, E, D::St> {
    match D::tick(s) {
        Act::Fail(e, s1) => Visit::Fail(e.conv(), s1),
        Act::Skip(s1) => Visit::More(Seq::empty(), s1),
        Act::Go(s1) =>
            if N::g_id(a) == N::g_id(b) { Visit::More(Seq::empty(), s1) }
            else if !N::g_cmp(a, b).eqv() { Visit::Diff(N::g_cmp(a, b), s1) }
            else {
                let ks = kid_items::<N>(a, b);
                if ks.len() == 0 { Visit::More(ks, s1) }
                else if ks[0] is Stop { Visit::Diff(N::Cmp::of_ord(ks[0]->Stop_0), s1) }
                else { match D::desc(s1, a, b) {
                    Act::Fail(e, s2) => Visit::Fail(e.conv(), s2),
                    Act::Skip(s2) => Visit::More(Seq::empty(), s2),
                    Act::Go(s2) => Visit::More(ks, s2),
                } }
            },
    }
}
pub open spec fn ins(dfs: bool, q: Q, ks: Q) -> Q { if dfs { ks + q } else { q + ks } }
pub ghost enum Out<C, E, S> { OutOfFuel, Equal(S), Diff(C, S), Fail(E, S) }
/// the traversal of the pending items q, in at most `fuel` visits: the definition of the results the properties speak of
pub open spec fn run<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s: D::St, fuel: nat) -> Out<N::Cmp, E, D::St>
    decreases fuel
{
    if q.len() == 0 { Out::Equal(s) }
    else { match q[0] {
        Item::Stop(o) => Out::Diff(N::Cmp::of_ord(o), s),
        Item::Pair(a, b) =>
            if fuel == 0 { Out::OutOfFuel }
            else { match visit::<N, E, D>(s, a, b) {
                Visit::Fail(e, s1) => Out::Fail(e, s1),
                Visit::Diff(c, s1) => Out::Diff(c, s1),
                Visit::More(ks, s1) => run::<N, E, D>(dfs, ins(dfs, q.drop_first(), ks), s1, (fuel - 1) as nat),
            } },
    } }
}
pub open spec fn out_is<N: Node, E: Possible, D: DescendMode<N, E>>(out: Out<N::Cmp, E, D::St>, r: Result<N::Cmp, E>, s1: D::St) -> bool {
    match out {
        Out::OutOfFuel => true,
        Out::Equal(s) => r is Ok && r->Ok_0.eqv() && s1 == s,
        Out::Diff(c, s) => r == Ok::<N::Cmp, E>(c) && s1 == s,
        Out::Fail(e, s) => r == Err::<N::Cmp, E>(e) && s1 == s,
    }
}
/// result r and state s1 are what the traversal of q from state s0 gives
#[verifier::opaque]
pub open spec fn agrees<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s0: D::St, r: Result<N::Cmp, E>, s1: D::St) -> bool {
    forall|f: nat| out_is::<N, E, D>(#[trigger] run::<N, E, D>(dfs, q, s0, f), r, s1)
}
pub open spec fn ends_in<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s: D::St, f: nat) -> bool { !(run::<N, E, D>(dfs, q, s, f) is OutOfFuel) }
/// the traversal ends
#[verifier::opaque]
pub open spec fn ends<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s: D::St) -> bool { exists|f: nat| ends_in::<N, E, D>(dfs, q, s, f) }
pub open spec fn least<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s: D::St, f: nat) -> nat
    decreases f
{ if f > 0 && ends_in::<N, E, D>(dfs, q, s, (f - 1) as nat) { least::<N, E, D>(dfs, q, s, (f - 1) as nat) } else { f } }
/// the number of visits until it ends
#[verifier::opaque]
pub open spec fn need<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s: D::St) -> nat { least::<N, E, D>(dfs, q, s, choose|f: nat| ends_in::<N, E, D>(dfs, q, s, f)) }

pub proof fn more_fuel<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s: D::St, f: nat, g: nat)
    requires ends_in::<N, E, D>(dfs, q, s, f), f <= g,
    ensures run::<N, E, D>(dfs, q, s, g) == run::<N, E, D>(dfs, q, s, f)
    decreases f
{
    if q.len() > 0 { if let Item::Pair(a, b) = q[0] { if let Visit::More(ks, s1) = visit::<N, E, D>(s, a, b) {
        if f > 0 { more_fuel::<N, E, D>(dfs, ins(dfs, q.drop_first(), ks), s1, (f - 1) as nat, (g - 1) as nat); }
    } } }
}
proof fn least_ends<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s: D::St, f: nat)
    requires ends_in::<N, E, D>(dfs, q, s, f),
    ensures ends_in::<N, E, D>(dfs, q, s, least::<N, E, D>(dfs, q, s, f)), least::<N, E, D>(dfs, q, s, f) <= f,
        least::<N, E, D>(dfs, q, s, f) > 0 ==> !ends_in::<N, E, D>(dfs, q, s, (least::<N, E, D>(dfs, q, s, f) - 1) as nat),
    decreases f
{ if f > 0 && ends_in::<N, E, D>(dfs, q, s, (f - 1) as nat) { least_ends::<N, E, D>(dfs, q, s, (f - 1) as nat); } }
/// need is the least sufficient amount
pub proof fn need_is<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s: D::St)
    requires ends::<N, E, D>(dfs, q, s),
    ensures forall|f: nat| #[trigger] ends_in::<N, E, D>(dfs, q, s, f) == (f >= need::<N, E, D>(dfs, q, s)),
{
    reveal(ends); reveal(need);
    let f0 = choose|f: nat| ends_in::<N, E, D>(dfs, q, s, f);
    least_ends::<N, E, D>(dfs, q, s, f0);
    let k = need::<N, E, D>(dfs, q, s);
    assert forall|f: nat| #[trigger] ends_in::<N, E, D>(dfs, q, s, f) == (f >= k) by {
        if f >= k { more_fuel::<N, E, D>(dfs, q, s, k, f); }
        else if ends_in::<N, E, D>(dfs, q, s, f) { more_fuel::<N, E, D>(dfs, q, s, f, (k - 1) as nat); }
    }
}
pub proof fn ends_by<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s: D::St, f: nat)
    requires ends_in::<N, E, D>(dfs, q, s, f),
    ensures ends::<N, E, D>(dfs, q, s), need::<N, E, D>(dfs, q, s) <= f,
{ reveal(ends); need_is::<N, E, D>(dfs, q, s); }
/// what agreement says when the traversal ends
pub broadcast proof fn agreed<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s0: D::St, r: Result<N::Cmp, E>, s1: D::St, f: nat)
    requires #[trigger] agrees::<N, E, D>(dfs, q, s0, r, s1),
    ensures out_is::<N, E, D>(#[trigger] run::<N, E, D>(dfs, q, s0, f), r, s1)
{ reveal(agrees); }

/// one visit of the pair (a, b) with q0 pending, by the code
pub open spec fn stepped<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, a: int, b: int, q0: Q, s0: D::St, r: Result<N::Cmp, E>, q1: Q, s1: D::St) -> bool {
    match visit::<N, E, D>(s0, a, b) {
        Visit::Fail(e, s) => r == Err::<N::Cmp, E>(e) && s1 == s,
        Visit::Diff(c, s) => r == Ok::<N::Cmp, E>(c) && s1 == s,
        Visit::More(ks, s) => r is Ok && r->Ok_0.eqv() && s1 == s && q1 == ins(dfs, q0, ks),
    }
}
pub open spec fn cons(a: int, b: int, q: Q) -> Q { seq![Item::Pair(a, b)] + q }
pub broadcast proof fn cons_facts(a: int, b: int, q: Q)
    ensures (#[trigger] cons(a, b, q)).len() == q.len() + 1, cons(a, b, q)[0] == Item::Pair(a, b), cons(a, b, q).drop_first() == q
{ assert(cons(a, b, q).drop_first() =~= q); }
pub broadcast proof fn cons_pop(a: int, b: int, q: Q)
    requires q.len() > 0, q[0] == Item::Pair(a, b)
    ensures #[trigger] cons(a, b, q.drop_first()) == q
{ assert(cons(a, b, q.drop_first()) =~= q); }
/// the kinds of result a visit can have: only a difference is not equivalent
proof fn visit_kinds<N: Node, E: Possible, D: DescendMode<N, E>>(s: D::St, a: int, b: int)
    requires law_cmp::<N>(),
    ensures visit::<N, E, D>(s, a, b) is Diff ==> !visit::<N, E, D>(s, a, b)->Diff_0.eqv(),
{ item_stops(N::g_kids(a), N::g_kids(b), 0); }
pub broadcast proof fn step_more<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, a: int, b: int, q0: Q, s0: D::St, r: Result<N::Cmp, E>, q1: Q, s1: D::St, r2: Result<N::Cmp, E>, s2: D::St)
    requires #[trigger] stepped::<N, E, D>(dfs, a, b, q0, s0, r, q1, s1), r is Ok, r->Ok_0.eqv(), #[trigger] agrees::<N, E, D>(dfs, q1, s1, r2, s2), law_cmp::<N>(),
    ensures agrees::<N, E, D>(dfs, cons(a, b, q0), s0, r2, s2)
{
    broadcast use cons_facts;
    reveal(agrees);
    visit_kinds::<N, E, D>(s0, a, b);
    assert forall|f: nat| out_is::<N, E, D>(#[trigger] run::<N, E, D>(dfs, cons(a, b, q0), s0, f), r2, s2) by {
        if f > 0 { assert(out_is::<N, E, D>(run::<N, E, D>(dfs, q1, s1, (f - 1) as nat), r2, s2)); }
    }
}
/// going on: the rest ends as well, and sooner
pub broadcast proof fn step_ends<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, a: int, b: int, q0: Q, s0: D::St, r: Result<N::Cmp, E>, q1: Q, s1: D::St)
    requires #[trigger] stepped::<N, E, D>(dfs, a, b, q0, s0, r, q1, s1), r is Ok, r->Ok_0.eqv(), #[trigger] ends::<N, E, D>(dfs, cons(a, b, q0), s0), law_cmp::<N>(),
    ensures ends::<N, E, D>(dfs, q1, s1), need::<N, E, D>(dfs, q1, s1) < need::<N, E, D>(dfs, cons(a, b, q0), s0),
{
    broadcast use cons_facts;
    visit_kinds::<N, E, D>(s0, a, b);
    need_is::<N, E, D>(dfs, cons(a, b, q0), s0);
    let k = need::<N, E, D>(dfs, cons(a, b, q0), s0);
    assert(ends_in::<N, E, D>(dfs, cons(a, b, q0), s0, k));
    assert(k > 0);
    ends_by::<N, E, D>(dfs, q1, s1, (k - 1) as nat);
}
pub broadcast proof fn step_end<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, a: int, b: int, q0: Q, s0: D::St, r: Result<N::Cmp, E>, q1: Q, s1: D::St)
    requires #[trigger] stepped::<N, E, D>(dfs, a, b, q0, s0, r, q1, s1), r is Ok ==> !r->Ok_0.eqv(), law_cmp::<N>(),
    ensures agrees::<N, E, D>(dfs, cons(a, b, q0), s0, r, s1)
{
    broadcast use cons_facts;
    reveal(agrees);
    assert forall|f: nat| out_is::<N, E, D>(#[trigger] run::<N, E, D>(dfs, cons(a, b, q0), s0, f), r, s1) by {}
}
pub broadcast proof fn step_last<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, a: int, b: int, q0: Q, s0: D::St, r: Result<N::Cmp, E>, q1: Q, s1: D::St, r2: Result<N::Cmp, E>)
    requires #[trigger] stepped::<N, E, D>(dfs, a, b, q0, s0, r, q1, s1), r is Ok, r->Ok_0.eqv(),
        r2 is Ok, q1.len() > 0 ==> q1[0] is Stop && r2->Ok_0 == N::Cmp::of_ord(q1[0]->Stop_0), q1.len() == 0 ==> r2->Ok_0.eqv(), law_cmp::<N>(),
    ensures #[trigger] agrees::<N, E, D>(dfs, cons(a, b, q0), s0, r2, s1)
{
    broadcast use cons_facts;
    reveal(agrees);
    visit_kinds::<N, E, D>(s0, a, b);
    assert forall|f: nat| out_is::<N, E, D>(#[trigger] run::<N, E, D>(dfs, cons(a, b, q0), s0, f), r2, s1) by {
        if f > 0 { reveal_with_fuel(run, 2); }
    }
}
// what remains after the outcome of a visit
/// r and s1 are what is to be returned after the outcome o of a visit
pub open spec fn rest<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, o: Result<N::Cmp, E>, q: Q, s0: D::St, r: Result<N::Cmp, E>, s1: D::St) -> bool {
    if goes_on(o) { agrees::<N, E, D>(dfs, q, s0, r, s1) } else { r == o && s1 == s0 }
}
pub open spec fn rest_ends<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, o: Result<N::Cmp, E>, q: Q, s: D::St) -> bool { goes_on(o) ==> ends::<N, E, D>(dfs, q, s) }
pub open spec fn rest_need<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, o: Result<N::Cmp, E>, q: Q, s: D::St) -> nat { if goes_on(o) { need::<N, E, D>(dfs, q, s) + 1 } else { 0 } }
pub broadcast proof fn rest_step<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, a: int, b: int, q0: Q, s0: D::St, o: Result<N::Cmp, E>, q1: Q, s1: D::St, r2: Result<N::Cmp, E>, s2: D::St)
    requires #[trigger] stepped::<N, E, D>(dfs, a, b, q0, s0, o, q1, s1), #[trigger] rest::<N, E, D>(dfs, o, q1, s1, r2, s2), law_cmp::<N>(),
    ensures agrees::<N, E, D>(dfs, cons(a, b, q0), s0, r2, s2)
{ if goes_on(o) { step_more::<N, E, D>(dfs, a, b, q0, s0, o, q1, s1, r2, s2); } else { step_end::<N, E, D>(dfs, a, b, q0, s0, o, q1, s1); } }
pub broadcast proof fn rest_nil<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s0: D::St, r: Result<N::Cmp, E>)
    requires q.len() == 0, r is Ok, r->Ok_0.eqv(),
    ensures #[trigger] agrees::<N, E, D>(dfs, q, s0, r, s0)
{ reveal(agrees); }
pub broadcast proof fn rest_stop<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s0: D::St, r: Result<N::Cmp, E>)
    requires q.len() > 0, q[0] is Stop, r is Ok, r->Ok_0 == N::Cmp::of_ord(q[0]->Stop_0),
    ensures #[trigger] agrees::<N, E, D>(dfs, q, s0, r, s0)
{ reveal(agrees); }
// for loops that keep what was taken from the pending items
pub open spec fn took<N: Node>(q0: Q, nx: Option<Result<(N, N), N::Cmp>>, q1: Q) -> bool {
    match nx {
        None => q0.len() == 0 && q1.len() == 0,
        Some(Ok(p)) => q0.len() > 0 && q0[0] == Item::Pair(p.0.n(), p.1.n()) && q1 == q0.drop_first(),
        Some(Err(c)) => q0.len() > 0 && q0[0] is Stop && c == N::Cmp::of_ord(q0[0]->Stop_0),
    }
}
pub broadcast proof fn took_cons<N: Node>(q0: Q, nx: Option<Result<(N, N), N::Cmp>>, q1: Q)
    requires #[trigger] took::<N>(q0, nx, q1),
    ensures match nx { Some(Ok(p)) => q0 == cons(p.0.n(), p.1.n(), q1), _ => true }
{ if let Some(Ok(p)) = nx { cons_pop(p.0.n(), p.1.n(), q0); } }
/// r and s1 are what is to be returned when nx was taken from the pending items and q remains
pub open spec fn after<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, nx: Option<Result<(N, N), N::Cmp>>, q: Q, s0: D::St, r: Result<N::Cmp, E>, s1: D::St) -> bool {
    match nx { None => goes_on(r) && s1 == s0, Some(Ok(p)) => agrees::<N, E, D>(dfs, cons(p.0.n(), p.1.n(), q), s0, r, s1), Some(Err(c)) => r == Ok::<N::Cmp, E>(c) && s1 == s0 }
}
pub open spec fn after_ends<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, nx: Option<Result<(N, N), N::Cmp>>, q: Q, s: D::St) -> bool { match nx { Some(Ok(p)) => ends::<N, E, D>(dfs, cons(p.0.n(), p.1.n(), q), s), _ => true } }
pub open spec fn after_need<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, nx: Option<Result<(N, N), N::Cmp>>, q: Q, s: D::St) -> nat { match nx { Some(Ok(p)) => need::<N, E, D>(dfs, cons(p.0.n(), p.1.n(), q), s) + 1, _ => 0 } }
pub broadcast proof fn after_took<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q0: Q, nx: Option<Result<(N, N), N::Cmp>>, q1: Q, s0: D::St, r: Result<N::Cmp, E>, s1: D::St)
    requires #[trigger] took::<N>(q0, nx, q1), #[trigger] after::<N, E, D>(dfs, nx, q1, s0, r, s1),
    ensures agrees::<N, E, D>(dfs, q0, s0, r, s1)
{
    match nx { None => rest_nil::<N, E, D>(dfs, q0, s0, r), Some(Ok(p)) => cons_pop(p.0.n(), p.1.n(), q0), Some(Err(c)) => rest_stop::<N, E, D>(dfs, q0, s0, r) }
}
// ---- depth-first: the traversal of x then y is that of x followed by that of y
pub open spec fn onto<N: Node, E: Possible, D: DescendMode<N, E>>(x: Q, y: Q, s: D::St, f: nat, s1: D::St, g: nat) -> bool {
    g <= f && (x.len() > 0 ==> g < f) && run::<N, E, D>(true, x + y, s, f) == run::<N, E, D>(true, y, s1, g)
}
pub proof fn run_append<N: Node, E: Possible, D: DescendMode<N, E>>(x: Q, y: Q, s: D::St, f: nat) -> (g: nat)
    ensures match run::<N, E, D>(true, x, s, f) {
            Out::Equal(s1) => onto::<N, E, D>(x, y, s, f, s1, g),
            o => run::<N, E, D>(true, x + y, s, f) == o,
        }
    decreases f
{
    if x.len() == 0 { assert(x + y =~= y); f }
    else {
        assert((x + y)[0] == x[0]);
        if let Item::Pair(a, b) = x[0] {
            if f > 0 {
                if let Visit::More(ks, s1) = visit::<N, E, D>(s, a, b) {
                    assert(ins(true, (x + y).drop_first(), ks) =~= ins(true, x.drop_first(), ks) + y);
                    run_append::<N, E, D>(ins(true, x.drop_first(), ks), y, s1, (f - 1) as nat)
                } else { 0 }
            } else { 0 }
        } else { 0 }
    }
}
pub broadcast proof fn seq_more<N: Node, E: Possible, D: DescendMode<N, E>>(a: int, b: int, q: Q, s0: D::St, r: Result<N::Cmp, E>, s1: D::St, r2: Result<N::Cmp, E>, s2: D::St)
    requires #[trigger] agrees::<N, E, D>(true, cons(a, b, Seq::empty()), s0, r, s1), r is Ok, r->Ok_0.eqv(), #[trigger] agrees::<N, E, D>(true, q, s1, r2, s2), law_cmp::<N>(),
    ensures agrees::<N, E, D>(true, cons(a, b, q), s0, r2, s2)
{
    reveal(agrees);
    assert forall|f: nat| out_is::<N, E, D>(#[trigger] run::<N, E, D>(true, cons(a, b, q), s0, f), r2, s2) by {
        let g = run_append::<N, E, D>(cons(a, b, Seq::empty()), q, s0, f);
        assert(cons(a, b, Seq::empty()) + q =~= cons(a, b, q));
        one_diff::<N, E, D>(a, b, s0, f);
        assert(out_is::<N, E, D>(run::<N, E, D>(true, cons(a, b, Seq::empty()), s0, f), r, s1));
        assert(out_is::<N, E, D>(run::<N, E, D>(true, q, s1, g), r2, s2));
    }
}
pub broadcast proof fn seq_ends<N: Node, E: Possible, D: DescendMode<N, E>>(a: int, b: int, q: Q, s0: D::St, r: Result<N::Cmp, E>, s1: D::St)
    requires #[trigger] agrees::<N, E, D>(true, cons(a, b, Seq::empty()), s0, r, s1), r is Ok, r->Ok_0.eqv(), #[trigger] ends::<N, E, D>(true, cons(a, b, q), s0), law_cmp::<N>(),
    ensures ends::<N, E, D>(true, q, s1), need::<N, E, D>(true, q, s1) < need::<N, E, D>(true, cons(a, b, q), s0)
{
    reveal(agrees);
    let f = need::<N, E, D>(true, cons(a, b, q), s0);
    need_is::<N, E, D>(true, cons(a, b, q), s0);
    assert(ends_in::<N, E, D>(true, cons(a, b, q), s0, f));
    let g = run_append::<N, E, D>(cons(a, b, Seq::empty()), q, s0, f);
    assert(cons(a, b, Seq::empty()) + q =~= cons(a, b, q));
    one_diff::<N, E, D>(a, b, s0, f);
    assert(out_is::<N, E, D>(run::<N, E, D>(true, cons(a, b, Seq::empty()), s0, f), r, s1));
    ends_by::<N, E, D>(true, q, s1, g);
}
/// the first of several ends if all do, and no later
pub broadcast proof fn first_ends<N: Node, E: Possible, D: DescendMode<N, E>>(a: int, b: int, q: Q, s0: D::St)
    requires #[trigger] ends::<N, E, D>(true, cons(a, b, q), s0),
    ensures ends::<N, E, D>(true, cons(a, b, Seq::empty()), s0), need::<N, E, D>(true, cons(a, b, Seq::empty()), s0) <= need::<N, E, D>(true, cons(a, b, q), s0)
{
    let f = need::<N, E, D>(true, cons(a, b, q), s0);
    need_is::<N, E, D>(true, cons(a, b, q), s0);
    assert(ends_in::<N, E, D>(true, cons(a, b, q), s0, f));
    let _ = run_append::<N, E, D>(cons(a, b, Seq::empty()), q, s0, f);
    assert(cons(a, b, Seq::empty()) + q =~= cons(a, b, q));
    ends_by::<N, E, D>(true, cons(a, b, Seq::empty()), s0, f);
}
pub broadcast proof fn seq_end<N: Node, E: Possible, D: DescendMode<N, E>>(a: int, b: int, q: Q, s0: D::St, r: Result<N::Cmp, E>, s1: D::St)
    requires #[trigger] agrees::<N, E, D>(true, cons(a, b, Seq::empty()), s0, r, s1), r is Ok ==> !r->Ok_0.eqv(), law_cmp::<N>(),
    ensures #[trigger] agrees::<N, E, D>(true, cons(a, b, q), s0, r, s1)
{
    reveal(agrees);
    assert forall|f: nat| out_is::<N, E, D>(#[trigger] run::<N, E, D>(true, cons(a, b, q), s0, f), r, s1) by {
        let _ = run_append::<N, E, D>(cons(a, b, Seq::empty()), q, s0, f);
        assert(cons(a, b, Seq::empty()) + q =~= cons(a, b, q));
        assert(out_is::<N, E, D>(run::<N, E, D>(true, cons(a, b, Seq::empty()), s0, f), r, s1));
    }
}
pub broadcast proof fn seq_nil<N: Node, E: Possible, D: DescendMode<N, E>>(q: Q, s0: D::St, r: Result<N::Cmp, E>)
    requires q.len() == 0, r is Ok, r->Ok_0.eqv(),
    ensures #[trigger] agrees::<N, E, D>(true, q, s0, r, s0)
{ reveal(agrees); }
pub broadcast proof fn seq_stop<N: Node, E: Possible, D: DescendMode<N, E>>(q: Q, s0: D::St, r: Result<N::Cmp, E>)
    requires q.len() > 0, q[0] is Stop, r is Ok, r->Ok_0 == N::Cmp::of_ord(q[0]->Stop_0),
    ensures #[trigger] agrees::<N, E, D>(true, q, s0, r, s0)
{ reveal(agrees); }
pub broadcast proof fn call_rest<N: Node, E: Possible, D: DescendMode<N, E>>(a: int, b: int, q: Q, s0: D::St, o: Result<N::Cmp, E>, s1: D::St, r2: Result<N::Cmp, E>, s2: D::St)
    requires #[trigger] agrees::<N, E, D>(true, cons(a, b, Seq::empty()), s0, o, s1), #[trigger] rest::<N, E, D>(true, o, q, s1, r2, s2), law_cmp::<N>(),
    ensures agrees::<N, E, D>(true, cons(a, b, q), s0, r2, s2)
{ if goes_on(o) { seq_more::<N, E, D>(a, b, q, s0, o, s1, r2, s2); } else { seq_end::<N, E, D>(a, b, q, s0, o, s1); } }
/// one visit of the pair (a, b) that ends the traversal of it
pub broadcast proof fn call_leaf<N: Node, E: Possible, D: DescendMode<N, E>>(a: int, b: int, s0: D::St, r: Result<N::Cmp, E>, s1: D::St)
    requires law_cmp::<N>(),
        match visit::<N, E, D>(s0, a, b) {
            Visit::Fail(e, s) => r == Err::<N::Cmp, E>(e) && s1 == s,
            Visit::Diff(c, s) => r == Ok::<N::Cmp, E>(c) && s1 == s,
            Visit::More(ks, s) => ks.len() == 0 && r is Ok && r->Ok_0.eqv() && s1 == s },
    ensures #[trigger] agrees::<N, E, D>(true, cons(a, b, Seq::empty()), s0, r, s1)
{
    broadcast use cons_facts;
    reveal(agrees);
    assert forall|f: nat| out_is::<N, E, D>(#[trigger] run::<N, E, D>(true, cons(a, b, Seq::empty()), s0, f), r, s1) by {
        if f > 0 { reveal_with_fuel(run, 2); assert(ins(true, Seq::<Item>::empty(), Seq::empty()) =~= Seq::empty()); }
    }
}
/// one visit of the pair (a, b) that goes on with its edges
pub broadcast proof fn call_kids<N: Node, E: Possible, D: DescendMode<N, E>>(a: int, b: int, s0: D::St, s: D::St, r: Result<N::Cmp, E>, s1: D::St, r2: Result<N::Cmp, E>)
    requires #[trigger] agrees::<N, E, D>(true, kid_items::<N>(a, b), s, r, s1), law_cmp::<N>(),
        visit::<N, E, D>(s0, a, b) == Visit::<N::Cmp, E, D::St>::More(kid_items::<N>(a, b), s),
        r == r2,
    ensures #[trigger] agrees::<N, E, D>(true, cons(a, b, Seq::empty()), s0, r2, s1)
{
    broadcast use cons_facts;
    reveal(agrees);
    let ks = kid_items::<N>(a, b);
    assert forall|k: nat| out_is::<N, E, D>(#[trigger] run::<N, E, D>(true, cons(a, b, Seq::empty()), s0, k), r2, s1) by {
        if k > 0 {
            assert(out_is::<N, E, D>(run::<N, E, D>(true, ks, s, (k - 1) as nat), r, s1));
            assert(ins(true, cons(a, b, Seq::empty()).drop_first(), ks) =~= ks);
        }
    }
}
pub open spec fn visits_to<N: Node, E: Possible, D: DescendMode<N, E>>(s0: D::St, a: int, b: int, s: D::St) -> bool
    { visit::<N, E, D>(s0, a, b) == Visit::<N::Cmp, E, D::St>::More(kid_items::<N>(a, b), s) }
pub broadcast proof fn kids_end<N: Node, E: Possible, D: DescendMode<N, E>>(a: int, b: int, s0: D::St, s: D::St)
    requires #[trigger] ends::<N, E, D>(true, cons(a, b, Seq::empty()), s0), visits_to::<N, E, D>(s0, a, b, s),
    ensures #[trigger] ends::<N, E, D>(true, kid_items::<N>(a, b), s), need::<N, E, D>(true, kid_items::<N>(a, b), s) < need::<N, E, D>(true, cons(a, b, Seq::empty()), s0),
{
    broadcast use cons_facts;
    let f = need::<N, E, D>(true, cons(a, b, Seq::empty()), s0);
    need_is::<N, E, D>(true, cons(a, b, Seq::empty()), s0);
    assert(ends_in::<N, E, D>(true, cons(a, b, Seq::empty()), s0, f));
    assert(ins(true, cons(a, b, Seq::empty()).drop_first(), kid_items::<N>(a, b)) =~= kid_items::<N>(a, b));
    ends_by::<N, E, D>(true, kid_items::<N>(a, b), s, (f - 1) as nat);
}
pub broadcast proof fn kids_need<N: Node, E: Possible, D: DescendMode<N, E>>(a: int, b: int, s0: D::St, s: D::St)
    requires #[trigger] ends::<N, E, D>(true, cons(a, b, Seq::empty()), s0), visits_to::<N, E, D>(s0, a, b, s),
    ensures ends::<N, E, D>(true, kid_items::<N>(a, b), s), (#[trigger] need::<N, E, D>(true, kid_items::<N>(a, b), s)) < need::<N, E, D>(true, cons(a, b, Seq::empty()), s0),
{
    broadcast use cons_facts;
    let f = need::<N, E, D>(true, cons(a, b, Seq::empty()), s0);
    need_is::<N, E, D>(true, cons(a, b, Seq::empty()), s0);
    assert(ends_in::<N, E, D>(true, cons(a, b, Seq::empty()), s0, f));
    assert(ins(true, cons(a, b, Seq::empty()).drop_first(), kid_items::<N>(a, b)) =~= kid_items::<N>(a, b));
    ends_by::<N, E, D>(true, kid_items::<N>(a, b), s, (f - 1) as nat);
}
pub open spec fn no_equal_stop(q: Q) -> bool { forall|i: int| 0 <= i < q.len() && (#[trigger] q[i]) is Stop ==> q[i]->Stop_0 != Ordering::Equal }
/// differences found are not equivalent
pub proof fn diffs<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s: D::St, f: nat)
    requires law_cmp::<N>(), no_equal_stop(q),
    ensures run::<N, E, D>(dfs, q, s, f) is Diff ==> !run::<N, E, D>(dfs, q, s, f)->Diff_0.eqv()
    decreases f
{
    if q.len() > 0 { match q[0] { Item::Stop(o) => {}, Item::Pair(a, b) => if f > 0 {
        kid_stops::<N>(a, b);
        visit_kinds::<N, E, D>(s, a, b);
        if let Visit::More(ks, s1) = visit::<N, E, D>(s, a, b) {
            let q1 = ins(dfs, q.drop_first(), ks);
            assert forall|i: int| 0 <= i < q1.len() && (#[trigger] q1[i]) is Stop implies q1[i]->Stop_0 != Ordering::Equal by {
                if dfs { if i >= ks.len() { assert(q1[i] == q[i - ks.len() + 1]); } else { assert(q1[i] == ks[i]); } }
                else { if i < q.len() - 1 { assert(q1[i] == q[i + 1]); } else { assert(q1[i] == ks[i - q.len() + 1]); } }
            }
            diffs::<N, E, D>(dfs, q1, s1, (f - 1) as nat);
        }
    } } }
}
pub proof fn kid_stops<N: Node>(a: int, b: int)
    ensures forall|i: int| 0 <= i < kid_items::<N>(a, b).len() && (#[trigger] kid_items::<N>(a, b)[i]) is Stop ==> kid_items::<N>(a, b)[i]->Stop_0 != Ordering::Equal
{ item_stops(N::g_kids(a), N::g_kids(b), 0); }
pub proof fn item_stops(ka: Seq<int>, kb: Seq<int>, i: nat)
    ensures forall|j: int| 0 <= j < items(ka, kb, i).len() && (#[trigger] items(ka, kb, i)[j]) is Stop ==> items(ka, kb, i)[j]->Stop_0 != Ordering::Equal && j == items(ka, kb, i).len() - 1
    decreases ka.len() - i
{
    if i < ka.len() && i < kb.len() {
        item_stops(ka, kb, i + 1);
        assert forall|j: int| 0 <= j < items(ka, kb, i).len() && (#[trigger] items(ka, kb, i)[j]) is Stop implies items(ka, kb, i)[j]->Stop_0 != Ordering::Equal && j == items(ka, kb, i).len() - 1 by {
            if j > 0 { assert(items(ka, kb, i)[j] == items(ka, kb, i + 1)[j - 1]); }
        }
    }
}
pub proof fn one_diff<N: Node, E: Possible, D: DescendMode<N, E>>(a: int, b: int, s: D::St, f: nat)
    requires law_cmp::<N>(),
    ensures run::<N, E, D>(true, cons(a, b, Seq::empty()), s, f) is Diff ==> !run::<N, E, D>(true, cons(a, b, Seq::empty()), s, f)->Diff_0.eqv()
{
    let q = cons(a, b, Seq::empty());
    assert forall|i: int| 0 <= i < q.len() && (#[trigger] q[i]) is Stop implies q[i]->Stop_0 != Ordering::Equal by { assert(i == 0); }
    diffs::<N, E, D>(true, q, s, f);
}

// ---- finite acyclic graphs: the number of visits the unfolding of the items needs
pub open spec fn downward<N: Node>(rk: spec_fn(int) -> nat) -> bool { forall|n: int, i: int| 0 <= i < N::g_kids(n).len() ==> rk(#[trigger] N::g_kids(n)[i]) < rk(n) }
/// the graph has no cycles (and so finitely many nodes below each)
pub open spec fn acyclic<N: Node>() -> bool { exists|rk: spec_fn(int) -> nat| downward::<N>(rk) }
pub open spec fn the_rk<N: Node>() -> spec_fn(int) -> nat { choose|rk: spec_fn(int) -> nat| downward::<N>(rk) }
pub open spec fn pair_cost<N: Node>(a: int, b: int) -> nat
    decreases the_rk::<N>()(a), 1nat, 0nat
{ 1 + kids_cost::<N>(a, N::g_kids(a), N::g_kids(b), 0) }
pub open spec fn kids_cost<N: Node>(p: int, ka: Seq<int>, kb: Seq<int>, i: nat) -> nat
    decreases the_rk::<N>()(p), 0nat, ka.len() - i
{
    if i < ka.len() && i < kb.len() && the_rk::<N>()(ka[i as int]) < the_rk::<N>()(p) { pair_cost::<N>(ka[i as int], kb[i as int]) + kids_cost::<N>(p, ka, kb, i + 1) }
    else { 0 }
}
pub open spec fn cost<N: Node>(q: Q) -> nat
    decreases q.len()
{ if q.len() == 0 { 0 } else { cost::<N>(q.drop_first()) + match q[0] { Item::Pair(a, b) => pair_cost::<N>(a, b), Item::Stop(_) => 0 } } }
pub broadcast proof fn cost_add<N: Node>(x: Q, y: Q)
    ensures #[trigger] cost::<N>(x + y) == cost::<N>(x) + cost::<N>(y)
    decreases x.len()
{ if x.len() == 0 { assert(x + y =~= y); } else { assert((x + y).drop_first() =~= x.drop_first() + y); cost_add::<N>(x.drop_first(), y); } }
pub proof fn cost_items<N: Node>(p: int, ka: Seq<int>, kb: Seq<int>, i: nat)
    requires acyclic::<N>(), ka == N::g_kids(p),
    ensures cost::<N>(items(ka, kb, i)) == kids_cost::<N>(p, ka, kb, i),
    decreases ka.len() - i
{
    if i < ka.len() && i < kb.len() {
        cost_items::<N>(p, ka, kb, i + 1);
        assert(the_rk::<N>()(N::g_kids(p)[i as int]) < the_rk::<N>()(p));
        let q = items(ka, kb, i);
        assert(q.drop_first() =~= items(ka, kb, i + 1));
    } else {
        assert(items(ka, kb, i).len() > 0 ==> items(ka, kb, i).drop_first() =~= Seq::<Item>::empty());
        reveal_with_fuel(cost, 3);
    }
}
pub broadcast proof fn cost_kids<N: Node>(a: int, b: int)
    requires acyclic::<N>(),
    ensures cost::<N>(#[trigger] kid_items::<N>(a, b)) + 1 == pair_cost::<N>(a, b)
{ cost_items::<N>(a, N::g_kids(a), N::g_kids(b), 0); }
pub broadcast proof fn cost_cons<N: Node>(a: int, b: int, q: Q)
    ensures #[trigger] cost::<N>(cons(a, b, q)) == pair_cost::<N>(a, b) + cost::<N>(q)
{ broadcast use cons_facts; }
pub broadcast proof fn cost_pop<N: Node>(q: Q)
    requires q.len() > 0,
    ensures #[trigger] cost::<N>(q) == cost::<N>(q.drop_first()) + match q[0] { Item::Pair(a, b) => pair_cost::<N>(a, b), Item::Stop(_) => 0 }
{}
/// the traversal of acyclic graphs ends within `cost` visits, however descending is controlled
pub proof fn run_ends<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s: D::St, f: nat)
    requires acyclic::<N>(), cost::<N>(q) <= f,
    ensures ends_in::<N, E, D>(dfs, q, s, f)
    decreases f
{
    broadcast use {cost_add, cost_kids};
    if q.len() > 0 { if let Item::Pair(a, b) = q[0] {
        cost_pop::<N>(q);
        if f > 0 { if let Visit::More(ks, s1) = visit::<N, E, D>(s, a, b) {
            reveal_with_fuel(cost, 2);
            assert(ks == Seq::<Item>::empty() || ks == kid_items::<N>(a, b));
            run_ends::<N, E, D>(dfs, ins(dfs, q.drop_first(), ks), s1, (f - 1) as nat);
        } }
    } }
}
