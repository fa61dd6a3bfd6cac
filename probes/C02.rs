#![allow(warnings)]
use tagged_box::{TaggedBox, TaggedPointer, Discriminant, discriminant::*};
pub fn f(d: Discriminant) { let _: TaggedBox<u8> = TaggedBox::new(1u8, d); let _: TaggedBox<u8> = TaggedBox::dangling::<u64>(d); let _: TaggedBox<u8> = unsafe { TaggedBox::from_raw(8 as *mut u8, d) }; let _ = TaggedPointer::new(1, d); }
