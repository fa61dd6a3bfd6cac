#![allow(warnings)]
use tagged_box::{TaggedBox, TaggedPointer, Discriminant, discriminant::*};
pub fn f() { let mut b: TaggedBox<u8> = TaggedBox::new(String::new(), 1); unsafe { let _: &String = b.as_ref::<String>(); let _: &mut String = b.as_mut_ref::<String>(); let _: *const String = b.as_ptr::<String>(); let _: *mut String = b.as_mut_ptr::<String>();
 let _: String = TaggedBox::into_inner::<String>(b); let c: TaggedBox<u8> = TaggedBox::new_unchecked(1u8, 2); let _: Discriminant = c.discriminant(); } }
