use tagged_box::{Discriminant, TaggableContainer, TaggableInner, TaggedBox};
use std::cmp::Ordering;
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct E(u8);
impl TaggableInner for E {
    fn into_tagged_box(self) -> TaggedBox<Self> { TaggedBox::new(self.0, 1 as Discriminant) }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self { E(unsafe { TaggedBox::into_inner::<u8>(b) }) }
    unsafe fn ref_from_tagged_box<F>(b: &TaggedBox<Self>, f: F) where F: FnOnce(&Self) { f(&E(*b.as_ref::<u8>())) }
}
pub struct C(TaggedBox<E>);
impl TaggableContainer for C { type Inner = E; fn into_inner(self) -> E { E::from_tagged_box(self.0) } }
pub fn probe(a: TaggedBox<E>, b: TaggedBox<E>) -> (bool, Option<Ordering>, Ordering, String, TaggedBox<E>) { (a == b, a.partial_cmp(&b), a.cmp(&b), format!("{:?}", a), a.clone()) }
