#![allow(warnings)]
use tagged_box::{TaggedBox, TaggedPointer, Discriminant, discriminant::*};
pub fn f(w: u64, d: Discriminant) -> u64 { let p = TaggedPointer::new(w, d); let _: *const u8 = p.as_ptr::<u8>(); let _: u64 = p.as_u64(); let _: u64 = p.as_raw_u64(); let _: Discriminant = p.discriminant();
 let _: u64 = TaggedPointer::strip_discriminant(TaggedPointer::store_discriminant(w, d)); let _: Discriminant = TaggedPointer::fetch_discriminant(w); let q = TaggedPointer::dangling::<u64>(d);
 let mut p = p; let _: *mut u8 = p.as_mut_ptr::<u8>(); unsafe { let _: &u8 = p.as_ref::<u8>(); let _: &mut u8 = p.as_mut_ref::<u8>(); } 0 }
