#![allow(warnings)]
extern crate alloc;
use tagged_box::{tagged_box, TaggableContainer, TaggableInner, TaggedBox, TaggedPointer, Discriminant, discriminant::*};
tagged_box! {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Container, pub enum Item { Integer(i32), Text(String), Pair(u8, String), Empty(), Named { a: u8, b: String, }, Nothing, }
}
impl core::fmt::Display for Item { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("item") } }
const _: [(); 8] = [(); core::mem::size_of::<Container>()]; const _: [(); 8] = [(); core::mem::size_of::<TaggedBox<Item>>()]; const _: [(); 8] = [(); core::mem::size_of::<TaggedPointer>()];
pub const P: TaggedPointer = TaggedPointer::dangling::<u64>(1);
