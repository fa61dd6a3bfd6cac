use tagged_box::{Discriminant, TaggedBox, TaggedPointer};
enum E {}
pub fn probe(w: u64, d: Discriminant) {
    let p = TaggedPointer::dangling::<u64>(d);
    let _: (Discriminant, u64, u64, *const u64) = (p.discriminant(), p.as_u64(), p.as_raw_u64(), p.as_ptr::<u64>());
    let _: (u64, Discriminant, u64) = (TaggedPointer::store_discriminant(w, d), TaggedPointer::fetch_discriminant(w), TaggedPointer::strip_discriminant(w));
    let b = TaggedBox::<E>::dangling::<u64>(d);
    let _: (Discriminant, *const u64) = (b.discriminant(), b.as_ptr::<u64>());
}
