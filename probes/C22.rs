#![allow(warnings)]
extern crate alloc;
use tagged_box::{tagged_box, TaggableContainer, TaggableInner, TaggedBox, TaggedPointer, Discriminant, discriminant::*};
tagged_box! {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Container, pub enum Item { Integer(i32), Text(String), Pair(u8, String), Empty(), Named { a: u8, b: String, }, Nothing, }
}
impl core::fmt::Display for Item { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("item") } }
pub fn f(i: Item) -> Item { let c = Container::from(i); unsafe { Item::ref_from_tagged_box(&c.value, |i: &Item| ()) }; c.into_inner() }
pub fn cloned(c: Container) -> (Container, TaggedBox<Item>) { (c.clone(), c.value.clone()) }
