// ---- what is assumed of the parts the store is generic over
use store::Class;
pub trait HasLoc: Sized { spec fn loc(&self) -> Loc; }
/// `Rc`: a cloneable pointer to a cell holding a `Class`
pub trait Rc: HasLoc {
    fn clone(&self) -> (r: Self) ensures r.loc() == self.loc();
    fn new(value: Class<Self>, Tracked(heap): Tracked<&mut Heap>) -> (r: Self)
        ensures !old(heap).m.dom().contains(r.loc()), stored(old(heap).m, final(heap).m, r.loc(), value@), fits_memory(final(heap).m);
   fn replace(&self, value: Class<Self>, Tracked(heap): Tracked<&mut Heap>) -> (r: Class<Self>)
        requires old(heap).m.dom().contains(self.loc()),
        ensures r@ == old(heap).m[self.loc()], stored(old(heap).m, final(heap).m, self.loc(), value@), final(heap).m.dom().contains(self.loc());
    fn set(&self, value: Class<Self>, Tracked(heap): Tracked<&mut Heap>)
        requires old(heap).m.dom().contains(self.loc()),
        ensures stored(old(heap).m, final(heap).m, self.loc(), value@);
    fn same_place(it: &Self, other: &Self) -> (r: bool) ensures r == (it.loc() == other.loc());
}
impl<R: HasLoc> View for Class<R> {
    type V = Cls;
    open spec fn view(&self) -> Cls { match self { Class::Representative{weight} => Cls::Rep(*weight), Class::Link{next} => Cls::Lnk(next.loc()) } }
}
pub trait Table: Sized {
    type Node: Node;
    type Rc: Rc;
    spec fn view(&self) -> Map<int, Loc>;
    fn default() -> (r: Self) ensures r.view() == Map::<int, Loc>::empty();
    fn get(&self, k: &<Self::Node as Node>::Id) -> (r: Option<&Self::Rc>)
        ensures match r { Some(c) => self.view().dom().contains(k.v()) && self.view()[k.v()] == c.loc(), None => !self.view().dom().contains(k.v()) };
    fn insert(&mut self, k: <Self::Node as Node>::Id, v: Self::Rc)
        ensures final(self).view() == old(self).view().insert(k.v(), v.loc());
}
