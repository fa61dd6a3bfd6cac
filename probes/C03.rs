#![allow(warnings)]
use tagged_box::{TaggedBox, TaggedPointer, Discriminant, discriminant::*};
pub const A: (u64, u64, u64, u64) = (POINTER_WIDTH as u64, DISCRIMINANT_BITS as u64, MAX_POINTER_VALUE as u64, DISCRIMINANT_MASK as u64); pub const B: Discriminant = MAX_DISCRIMINANT as Discriminant;
