//! The field types of generated enums: how to make a value and how to tell values apart.
use std::{
    cell::Cell,
    num::{NonZeroU16, NonZeroU64},
    rc::Rc,
    sync::Arc,
};
pub use tbx_engine::{
    run::Pay,
    track::{Tracked, TrackedZst},
};

/// What a value is made of: the words tell values apart, `ids` the tracked values in it
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Sig {
    pub words: Vec<u64>,
    /// Addresses of owned resources: equal only for the very same value, not a copy
    pub own: Vec<u64>,
    pub ids: Vec<u64>,
    pub zsts: i64,
}

pub trait Field: Sized + 'static {
    fn make(p: &mut Pay) -> Self;
    fn sig(&self, s: &mut Sig);
}

macro_rules! ints {
    ($($t:ty)*) => {$(
        impl Field for $t {
            fn make(p: &mut Pay) -> Self { p.next() as $t }
            fn sig(&self, s: &mut Sig) { s.words.push(*self as u64) }
        }
    )*};
}
ints!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize);

macro_rules! wide {
    ($($t:ty)*) => {$(
        impl Field for $t {
            fn make(p: &mut Pay) -> Self { ((p.next() as u128) << 64 | p.next() as u128) as $t }
            fn sig(&self, s: &mut Sig) {
                s.words.push(*self as u64);
                s.words.push((*self as u128 >> 64) as u64);
            }
        }
    )*};
}
wide!(u128 i128);

fn float(p: &mut Pay) -> f64 {
    let v = p.next();
    match v % 16 {
        0 => f64::NAN,
        1 => -0.0,
        2 => f64::INFINITY,
        3 => 0.0,
        4 => f64::MIN_POSITIVE / 2.0,
        _ => (v as i64 >> 8) as f64 / 16.0,
    }
}
impl Field for f32 {
    fn make(p: &mut Pay) -> Self {
        // Which NaN a conversion gives isn't specified
        let v = float(p);
        if v.is_nan() {
            f32::NAN
        } else {
            v as f32
        }
    }
    fn sig(&self, s: &mut Sig) {
        s.words.push(self.to_bits() as u64)
    }
}
impl Field for f64 {
    fn make(p: &mut Pay) -> Self {
        float(p)
    }
    fn sig(&self, s: &mut Sig) {
        s.words.push(self.to_bits())
    }
}
impl Field for bool {
    fn make(p: &mut Pay) -> Self {
        p.next() & 1 == 1
    }
    fn sig(&self, s: &mut Sig) {
        // Not by value: it may be what it must not be
        s.words.push(unsafe { (self as *const bool as *const u8).read() } as u64)
    }
}
impl Field for char {
    fn make(p: &mut Pay) -> Self {
        char::from_u32(p.next() as u32 % 0x11_0000).unwrap_or('x')
    }
    fn sig(&self, s: &mut Sig) {
        s.words.push(unsafe { (self as *const char as *const u32).read() } as u64)
    }
}
impl Field for () {
    fn make(_: &mut Pay) -> Self {}
    fn sig(&self, _: &mut Sig) {}
}
impl Field for &'static str {
    fn make(p: &mut Pay) -> Self {
        static T: &str = "abcdefghijklmnopqrstuvwxyzäöüß€0123456789";
        &T[..p.below(27) as usize]
    }
    fn sig(&self, s: &mut Sig) {
        s.words.push(self.len() as u64);
        s.words.push(self.as_ptr() as u64);
    }
}
impl Field for String {
    fn make(p: &mut Pay) -> Self {
        let n = p.below(20);
        (0..n).map(|i| char::from(b'a' + ((n + i) % 26) as u8)).collect()
    }
    fn sig(&self, s: &mut Sig) {
        s.words.push(self.len() as u64);
        if self.len() < 100 {
            s.words.extend(self.bytes().map(u64::from));
        }
        s.own.push(self.as_ptr() as u64);
        s.own.push(self.capacity() as u64);
    }
}
impl<T: Field> Field for Vec<T> {
    fn make(p: &mut Pay) -> Self {
        let n = p.below(5);
        (0..n).map(|_| T::make(p)).collect()
    }
    fn sig(&self, s: &mut Sig) {
        s.words.push(self.len() as u64);
        if self.len() < 100 {
            for x in self {
                x.sig(s);
            }
        }
        s.own.push(self.as_ptr() as u64);
        s.own.push(self.capacity() as u64);
    }
}
impl<T: Field> Field for Box<T> {
    fn make(p: &mut Pay) -> Self {
        Box::new(T::make(p))
    }
    fn sig(&self, s: &mut Sig) {
        s.own.push(&**self as *const T as u64);
        (**self).sig(s);
    }
}
impl<T: Field> Field for Rc<T> {
    fn make(p: &mut Pay) -> Self {
        Rc::new(T::make(p))
    }
    fn sig(&self, s: &mut Sig) {
        s.own.push(&**self as *const T as u64);
        (**self).sig(s);
    }
}
impl<T: Field> Field for Arc<T> {
    fn make(p: &mut Pay) -> Self {
        Arc::new(T::make(p))
    }
    fn sig(&self, s: &mut Sig) {
        s.own.push(&**self as *const T as u64);
        (**self).sig(s);
    }
}
impl<T: Field> Field for Option<T> {
    fn make(p: &mut Pay) -> Self {
        (p.next() % 3 != 0).then(|| T::make(p))
    }
    fn sig(&self, s: &mut Sig) {
        s.words.push(self.is_some() as u64);
        if let Some(x) = self {
            x.sig(s);
        }
    }
}
impl<T: Field, E: Field> Field for Result<T, E> {
    fn make(p: &mut Pay) -> Self {
        if p.next() & 1 == 0 {
            Ok(T::make(p))
        } else {
            Err(E::make(p))
        }
    }
    fn sig(&self, s: &mut Sig) {
        match self {
            Ok(x) => {
                s.words.push(0);
                x.sig(s)
            }
            Err(x) => {
                s.words.push(1);
                x.sig(s)
            }
        }
    }
}
impl Field for NonZeroU16 {
    fn make(p: &mut Pay) -> Self {
        Self::new(p.next() as u16 | 1).unwrap()
    }
    fn sig(&self, s: &mut Sig) {
        s.words.push(self.get() as u64)
    }
}
impl Field for NonZeroU64 {
    fn make(p: &mut Pay) -> Self {
        Self::new(p.next() | 1).unwrap()
    }
    fn sig(&self, s: &mut Sig) {
        s.words.push(self.get())
    }
}
impl<T: Field, const N: usize> Field for [T; N] {
    fn make(p: &mut Pay) -> Self {
        std::array::from_fn(|_| T::make(p))
    }
    fn sig(&self, s: &mut Sig) {
        for x in self {
            x.sig(s);
        }
    }
}
impl<A: Field, B: Field> Field for (A, B) {
    fn make(p: &mut Pay) -> Self {
        (A::make(p), B::make(p))
    }
    fn sig(&self, s: &mut Sig) {
        self.0.sig(s);
        self.1.sig(s);
    }
}
impl<A: Field> Field for (A,) {
    fn make(p: &mut Pay) -> Self {
        (A::make(p),)
    }
    fn sig(&self, s: &mut Sig) {
        self.0.sig(s);
    }
}
impl<A: Field, B: Field, C: Field> Field for (A, B, C) {
    fn make(p: &mut Pay) -> Self {
        (A::make(p), B::make(p), C::make(p))
    }
    fn sig(&self, s: &mut Sig) {
        self.0.sig(s);
        self.1.sig(s);
        self.2.sig(s);
    }
}
impl<T: Field + Copy> Field for Cell<T> {
    fn make(p: &mut Pay) -> Self {
        Cell::new(T::make(p))
    }
    fn sig(&self, s: &mut Sig) {
        self.get().sig(s);
    }
}
impl Field for *const u8 {
    fn make(p: &mut Pay) -> Self {
        p.next() as *const u8
    }
    fn sig(&self, s: &mut Sig) {
        s.words.push(*self as u64)
    }
}
fn inc(x: u32) -> u32 {
    x.wrapping_add(1)
}
fn dec(x: u32) -> u32 {
    x.wrapping_sub(1)
}
impl Field for fn(u32) -> u32 {
    fn make(p: &mut Pay) -> Self {
        // Kept: to Miri a function may have another address each time it is named
        static KEPT: [fn(u32) -> u32; 2] = [dec, inc];
        KEPT[(p.next() & 1) as usize]
    }
    fn sig(&self, s: &mut Sig) {
        s.words.push(*self as usize as u64)
    }
}
impl<T: 'static> Field for std::marker::PhantomData<T> {
    fn make(_: &mut Pay) -> Self {
        Self
    }
    fn sig(&self, _: &mut Sig) {}
}

macro_rules! aligned {
    ($($name:ident $align:literal [$($t:ty)?];)*) => {$(
        #[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Ord)]
        #[repr(align($align))]
        pub struct $name($(pub $t)?);
        impl Field for $name {
            fn make(_p: &mut Pay) -> Self { Self($(_p.next() as $t)?) }
            fn sig(&self, s: &mut Sig) {
                s.words.push((self as *const Self as usize % $align != 0) as u64);
                $( s.words.push(self.0 as $t as u64); )?
            }
        }
    )*};
}
aligned! {
    A16 16 [u8];
    A64 64 [u32];
    A512 512 [u64];
    A4096 4096 [u16];
    Z16 16 [];
    Z128 128 [];
}

impl Field for Tracked {
    fn make(p: &mut Pay) -> Self {
        Tracked::new(p.next())
    }
    fn sig(&self, s: &mut Sig) {
        s.words.push(self.val());
        s.ids.push(self.id());
    }
}
impl Field for TrackedZst {
    fn make(_: &mut Pay) -> Self {
        TrackedZst::new()
    }
    fn sig(&self, s: &mut Sig) {
        s.zsts += 1;
    }
}

/// The Display of generated enums: heeds padding, precision and the `#` flag
pub fn display<E: Field>(e: &E, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    tbx_engine::track::burn();
    let mut s = Sig::default();
    e.sig(&mut s);
    f.pad(&format!("{}{}v{:x?}", if f.alternate() { "#" } else { "" }, if f.sign_plus() { "+" } else { "" }, s.words))
}

/// `HasFrom::<C, T>::HAS` tells whether `C: From<T>`
pub struct HasFrom<C, T>(C, T);
pub trait NoFrom {
    const HAS: bool = false;
}
impl<X> NoFrom for X {}
impl<C: From<T>, T> HasFrom<C, T> {
    pub const HAS: bool = true;
}

/// `Auto::<T>::SEND` and `::SYNC` tell which auto traits `T` has
pub struct Auto<T>(T);
pub trait SendNo {
    const SEND: bool = false;
}
impl<X> SendNo for X {}
pub trait SyncNo {
    const SYNC: bool = false;
}
impl<X> SyncNo for X {}
impl<T: Send> Auto<T> {
    pub const SEND: bool = true;
}
impl<T: Sync> Auto<T> {
    pub const SYNC: bool = true;
}
