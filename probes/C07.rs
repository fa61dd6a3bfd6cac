#![allow(warnings)]
use tagged_box::{tagged_box, TaggableContainer};
tagged_box! { #[derive(Debug, Clone, Copy, PartialEq, PartialOrd)] pub struct Container, pub enum Item { A(u8), B(u16, u32), C { a: u64 }, D, } }
pub fn f(c: Container) -> (Item, Item) { let d = c; (c.into_inner(), d.into_inner()) }
