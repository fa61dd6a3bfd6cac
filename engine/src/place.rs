//! Real memory at addresses of the caller's choice.

/// Readable and writable memory, given back when dropped
pub struct Place {
    at: usize,
    len: usize,
    mapped: bool,
    _heap: Vec<u128>,
}

impl Place {
    /// `len` bytes as near to `want` as can be had, aligned to a page if mapped
    pub fn new(want: u64, len: usize) -> Self {
        #[cfg(all(not(miri), target_os = "linux", target_pointer_width = "64"))]
        {
            extern "C" {
                fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
            }
            // Private, anonymous, and never in place of something else
            let want = (want % 0x7fff_0000_0000).max(0x1_0000) as usize & !0xfff;
            let p = unsafe { mmap(want as *mut u8, len, 3, 0x10_0022, -1, 0) };
            if p as isize != -1 {
                return Self { at: p as usize, len, mapped: true, _heap: Vec::new() };
            }
        }
        let _ = want;
        let mut heap = vec![0u128; len / 16 + 1];
        Self { at: heap.as_mut_ptr() as usize, len, mapped: false, _heap: heap }
    }
    pub fn at(&self) -> usize {
        self.at
    }
    pub fn mapped(&self) -> bool {
        self.mapped
    }
}

impl Drop for Place {
    fn drop(&mut self) {
        #[cfg(all(not(miri), target_os = "linux", target_pointer_width = "64"))]
        if self.mapped {
            extern "C" {
                fn munmap(addr: *mut u8, len: usize) -> i32;
            }
            unsafe { munmap(self.at as *mut u8, self.len) };
        }
        let _ = self.len;
    }
}
