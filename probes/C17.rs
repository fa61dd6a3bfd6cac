#![allow(warnings)]
use tagged_box::{TaggedBox, TaggedPointer, Discriminant, discriminant::*};
pub fn f(p: TaggedPointer, q: TaggedPointer) -> bool { let mut s = std::collections::HashSet::new(); s.insert(p); let mut t = std::collections::BTreeSet::new(); t.insert(q); p == q && p < q && p.cmp(&q) == p.partial_cmp(&q).unwrap() }
fn copy<T: Copy>() {} pub fn g() { copy::<TaggedPointer>() }
