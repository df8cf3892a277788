//! Loop-free harnesses over the full domain of their inputs (a complete proof each).
#![cfg(kani)]
use graph_safe_compare::basic::modes::limited::{LimitReached, Limited};
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::generic::equiv::{self, DescendMode};
use graph_safe_compare::{Cmp, Node, Step};
use std::cmp::Ordering;

// ---- C13
macro_rules! step { ($($name:ident $t:ident)*) => { $(
    #[kani::proof]
    fn $name() {
        let i: $t = kani::any();
        match Step::increment(&i) {
            Some(j) => assert!(i != <$t>::MAX && j == i.wrapping_add(1) && j > i),
            None => assert!(i == <$t>::MAX),
        }
        assert!(<$t as Default>::default() == 0);
        kani::cover!(Step::increment(&i).is_none());
        kani::cover!(Step::increment(&i).is_some());
    } )* } }
step! { c13_u8 u8 c13_i8 i8 c13_u16 u16 c13_i16 i16 c13_u32 u32 c13_i32 i32 c13_u64 u64 c13_i64 i64 c13_u128 u128 c13_i128 i128 c13_usize usize c13_isize isize }

// ---- C14
fn any_ord() -> Ordering { match kani::any::<u8>() % 3 { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater } }
#[kani::proof]
fn c14_bool() {
    assert!(<bool as Cmp>::new_equiv().is_equiv());
    let b: bool = kani::any();
    assert!(Cmp::is_equiv(&b) == b);
    let o = any_ord();
    assert!(<bool as Cmp>::from_ord(o).is_equiv() == matches!(o, Ordering::Equal));
    assert!(<bool as Cmp>::from_ord(o) == matches!(o, Ordering::Equal));
    kani::cover!(b);
    kani::cover!(matches!(o, Ordering::Greater));
}
#[kani::proof]
fn c14_ordering() {
    assert!(<Ordering as Cmp>::new_equiv().is_equiv());
    assert!(matches!(<Ordering as Cmp>::new_equiv(), Ordering::Equal));
    let o = any_ord();
    assert!(Cmp::is_equiv(&o) == matches!(o, Ordering::Equal));
    assert!(<Ordering as Cmp>::from_ord(o) == o);
    kani::cover!(matches!(o, Ordering::Less));
    kani::cover!(matches!(o, Ordering::Equal));
    kani::cover!(matches!(o, Ordering::Greater));
}

// ---- C05: the budget of every unsigned limit type
struct Leaf;
impl Node for Leaf {
    type Cmp = bool; type Id = u8; type Index = u8;
    fn id(&self) -> u8 { 0 }
    fn get_edge(&self, _: &u8) -> Option<Self> { None }
    fn equiv_modulo_edges(&self, _: &Self) -> bool { true }
}
macro_rules! tick { ($($name:ident $args:ident $t:ident)*) => { $(
    struct $args;
    impl equiv::Params for $args { type Node = Leaf; type DescendMode = Limited<$t>; type RecurMode = CallStack; type Error = LimitReached; }
    #[kani::proof]
    fn $name() {
        let l: $t = kani::any();
        let mut m = Limited(l);
        let r = <Limited<$t> as DescendMode<$args>>::do_traverse(&mut m);
        if l == 0 { assert!(r.is_err() && m.0 == 0) } else { assert!(matches!(r, Ok(true)) && m.0 == l - 1) }
        kani::cover!(l == 0);
        kani::cover!(l == <$t>::MAX);
        let mut m = Limited(l);
        assert!(matches!(<Limited<$t> as DescendMode<$args>>::do_edges(&mut m, &Leaf, &Leaf), Ok(true)) && m.0 == l);
    } )* } }
tick! { c05_u8 A8 u8 c05_u16 A16 u16 c05_u32 A32 u32 c05_u64 A64 u64 c05_u128 A128 u128 c05_usize As usize }

// ---- C12: identities of references into allocations
mod c12 {
    use graph_safe_compare::utils::RefId;
    use std::cmp::Ordering;
    use std::hash::{Hash, Hasher};
    /// records everything hashed
    #[derive(PartialEq, Default)]
    struct Rec([u64; 4], usize);
    impl Hasher for Rec {
        fn finish(&self) -> u64 { 0 }
        fn write(&mut self, _: &[u8]) { assert!(false) }
        fn write_usize(&mut self, i: usize) { self.0[self.1] = i as u64; self.1 += 1 }
        fn write_u64(&mut self, i: u64) { self.0[self.1] = i; self.1 += 1 }
    }
    fn h<X: Hash>(x: &X) -> Rec { let mut r = Rec::default(); x.hash(&mut r); r }
    fn laws<X: Ord + Hash>(a: &X, b: &X, same: bool, order: Ordering) {
        let c = a.cmp(b);
        assert!((a == b) == same);
        assert!((a != b) == !same);
        assert!((c == Ordering::Equal) == same);
        assert!(c == order);
        assert!(b.cmp(a) == c.reverse());
        assert!(a.partial_cmp(b) == Some(c));
        assert!((a < b) == c.is_lt() && (a <= b) == c.is_le() && (a > b) == c.is_gt() && (a >= b) == c.is_ge());
        if same { assert!(h(a) == h(b)) }
        kani::cover!(same);
        kani::cover!(c == Ordering::Less);
        kani::cover!(c == Ordering::Greater);
    }
    #[kani::proof]
    fn c12_thin() {
        let d: [u32; 6] = kani::any();
        let (i, j): (usize, usize) = (kani::any(), kani::any());
        kani::assume(i < 6 && j < 6);
        laws(&RefId(&d[i]), &RefId(&d[j]), i == j, i.cmp(&j));
    }
    #[kani::proof]
    fn c12_slice() {
        let d: [u16; 6] = kani::any();
        let (i, j, k, l): (usize, usize, usize, usize) = (kani::any(), kani::any(), kani::any(), kani::any());
        kani::assume(i <= j && j <= 6 && k <= l && l <= 6);
        laws(&RefId(&d[i..j]), &RefId(&d[k..l]), i == k && j == l, i.cmp(&k).then((j - i).cmp(&(l - k))));
    }
    #[kani::proof]
    fn c12_rc() {
        let x = std::rc::Rc::new(kani::any::<u8>());
        let y = std::rc::Rc::new(kani::any::<u8>());
        let pick: bool = kani::any();
        let z = if pick { x.clone() } else { y.clone() };
        let (a, b) = (RefId(x.clone()), RefId(z));
        assert!((a == b) == pick);
        assert!((a != b) == !pick);
        kani::cover!(pick);
        kani::cover!(!pick);
    }
}
