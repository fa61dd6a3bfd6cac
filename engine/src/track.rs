//! Values whose life is on record: the ownership oracle.
use crate::run::mix;
use std::sync::{
    atomic::{AtomicI64, Ordering::SeqCst},
    Mutex, MutexGuard,
};

/// The payload of a panic injected into user code
pub struct Injected;

static FUSE: AtomicI64 = AtomicI64::new(0);

/// Make the `n`th call of user code from now (1 = the next) panic
pub fn light_fuse(n: i64) {
    FUSE.store(n, SeqCst);
}

/// True if the fuse was still burning
pub fn disarm_fuse() -> bool {
    FUSE.swap(0, SeqCst) > 0
}

/// Called by every piece of user code which may panic
pub fn burn() {
    if FUSE.load(SeqCst) > 0 && FUSE.fetch_sub(1, SeqCst) == 1 {
        std::panic::resume_unwind(Box::new(Injected));
    }
}

struct Reg {
    base: u64,
    alive: Vec<bool>,
    fault: Option<&'static str>,
    zst_made: i64,
    zst_dropped: i64,
    clones: u64,
}

static REG: Mutex<Reg> = Mutex::new(Reg {
    base: 1,
    alive: Vec::new(),
    fault: None,
    zst_made: 0,
    zst_dropped: 0,
    clones: 0,
});

fn reg() -> MutexGuard<'static, Reg> {
    REG.lock().unwrap_or_else(|e| e.into_inner())
}

/// Forget everything recorded so far
pub fn reset() {
    let mut r = reg();
    r.base += r.alive.len() as u64;
    r.alive.clear();
    r.alive.reserve(4096);
    r.fault = None;
    r.zst_made = 0;
    r.zst_dropped = 0;
    r.clones = 0;
    FUSE.store(0, SeqCst);
}

pub fn take_fault() -> Option<String> {
    reg().fault.take().map(String::from)
}

/// The ids of all values now alive
pub fn alive() -> Vec<u64> {
    let r = reg();
    (0..r.alive.len()).filter(|&i| r.alive[i]).map(|i| r.base + i as u64).collect()
}

pub fn is_alive(id: u64) -> bool {
    let r = reg();
    id.checked_sub(r.base).and_then(|i| r.alive.get(i as usize).copied()).unwrap_or(false)
}

/// Zero-sized values made minus dropped
pub fn zst_live() -> i64 {
    let r = reg();
    r.zst_made - r.zst_dropped
}

/// How many tracked values were cloned
pub fn clones() -> u64 {
    reg().clones
}

const MAGIC: u64 = 0x7472_6163_6b65_6421;

/// A value which is on record from its creation to its drop
#[repr(C)]
pub struct Tracked {
    check: u64,
    id: u64,
    val: u64,
}

impl Tracked {
    pub fn new(val: u64) -> Self {
        let mut r = reg();
        let id = r.base + r.alive.len() as u64;
        r.alive.push(true);
        Self {
            check: mix(id ^ MAGIC) ^ val,
            id,
            val,
        }
    }
    /// False if this is no value at all any more
    fn sound(&self) -> bool {
        self.check == mix(self.id ^ MAGIC) ^ self.val
    }
    pub fn id(&self) -> u64 {
        self.id
    }
    /// The value, noting any use of what isn't alive
    pub fn val(&self) -> u64 {
        if !self.sound() {
            reg().fault.get_or_insert("a value was used which is corrupted or uninitialised");
            return !0;
        }
        if !is_alive(self.id) {
            reg().fault.get_or_insert("a value was used after it was dropped");
        }
        self.val
    }
    pub fn set(&mut self, val: u64) {
        self.val();
        self.val = val;
        self.check = mix(self.id ^ MAGIC) ^ val;
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        if !self.sound() {
            reg().fault.get_or_insert("a value was dropped which is corrupted or uninitialised");
            return;
        }
        let mut r = reg();
        match self.id.checked_sub(r.base) {
            // A leftover of an earlier case
            None => return,
            Some(i) => match r.alive.get(i as usize) {
                Some(true) => r.alive[i as usize] = false,
                Some(false) => {
                    r.fault.get_or_insert("a value was dropped twice");
                }
                None => {
                    r.fault.get_or_insert("a value was dropped which never existed");
                }
            },
        }
    }
}

impl Clone for Tracked {
    fn clone(&self) -> Self {
        burn();
        let v = self.val();
        reg().clones += 1;
        Self::new(v)
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Self) -> bool {
        burn();
        self.val() == o.val()
    }
}
impl Eq for Tracked {}
impl PartialOrd for Tracked {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tracked {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        burn();
        self.val().cmp(&o.val())
    }
}
impl std::fmt::Debug for Tracked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        burn();
        f.debug_tuple("Tracked").field(&self.val()).finish()
    }
}

/// A zero-sized value with a destructor, counted
pub struct TrackedZst(());

impl TrackedZst {
    pub fn new() -> Self {
        reg().zst_made += 1;
        Self(())
    }
}
impl Drop for TrackedZst {
    fn drop(&mut self) {
        let mut r = reg();
        r.zst_dropped += 1;
        if r.zst_dropped > r.zst_made {
            r.fault.get_or_insert("a zero-sized value was dropped twice");
        }
    }
}
impl Clone for TrackedZst {
    fn clone(&self) -> Self {
        burn();
        reg().clones += 1;
        Self::new()
    }
}
impl PartialEq for TrackedZst {
    fn eq(&self, _: &Self) -> bool {
        burn();
        true
    }
}
impl Eq for TrackedZst {}
impl PartialOrd for TrackedZst {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TrackedZst {
    fn cmp(&self, _: &Self) -> std::cmp::Ordering {
        burn();
        std::cmp::Ordering::Equal
    }
}
impl std::fmt::Debug for TrackedZst {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        burn();
        f.write_str("TrackedZst")
    }
}
