#![allow(warnings)]
extern crate alloc;
use tagged_box::{tagged_box, TaggableContainer, TaggableInner, TaggedBox, TaggedPointer, Discriminant, discriminant::*};
tagged_box! {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Container, pub enum Item { Integer(i32), Text(String), Pair(u8, String), Empty(), Named { a: u8, b: String, }, Nothing, }
}
impl core::fmt::Display for Item { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("item") } }
pub fn f(c: Container) -> (Container, TaggedBox<Item>) { (c.clone(), c.value.clone()) }
pub struct OnlyClone(u8); impl Clone for OnlyClone { fn clone(&self) -> Self { OnlyClone(self.0) } }
pub mod m { use super::OnlyClone; use tagged_box::tagged_box; tagged_box! { #[derive(Clone)] pub struct C, pub enum E { A(OnlyClone), } } }
pub fn g(c: m::C) -> m::C { c.clone() }
