#![allow(warnings)]
use tagged_box::{TaggedBox, TaggedPointer, Discriminant, discriminant::*};
pub fn f() { let b: TaggedBox<u8> = TaggedBox::new(String::new(), 1); unsafe { let r: *mut String = TaggedBox::into_raw::<String>(b); let b: TaggedBox<u8> = TaggedBox::from_raw(r, 1); let _: Box<String> = TaggedBox::into_box::<String>(b); } }
