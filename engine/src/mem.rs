//! Flat symbolic memory with block-granular undo for depth-first backtracking.
//! Concrete bytes live in one lazily mapped region; a parallel region holds one
//! expression id per byte (0 = the concrete byte is the value).
use std::os::raw::{c_int, c_long, c_void};

extern "C" {
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: c_long) -> *mut c_void;
}

pub const GLOBALS: u64 = 0x1000_0000;
pub const HEAP: u64 = 0x4000_0000;
pub const STACK: u64 = 0xC000_0000; // grows upwards
pub const STACK_END: u64 = 0xE000_0000;
pub const LIMIT: u64 = 0x1_0000_0000;
const BLK: u64 = 256;

fn map(n: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), n, 3, 0x2 | 0x20 | 0x4000, -1, 0);
        assert!(p as isize != -1, "mmap");
        p as *mut u8
    }
}

struct Undo {
    blk: u32,
    epoch: u32,
    data: [u8; BLK as usize],
    sym: Option<Box<[u32; BLK as usize]>>,
}

pub struct Mem {
    data: *mut u8,
    sym: *mut u32,
    has_sym: *mut u8,
    epoch: *mut u32,
    pub cur_epoch: u32,
    next_epoch: u32,
    log: Vec<Undo>,
    pub logging: bool,
}

impl Mem {
    pub fn new() -> Self {
        Mem {
            data: map(LIMIT as usize),
            sym: map(LIMIT as usize * 4) as *mut u32,
            has_sym: map((LIMIT / BLK) as usize),
            epoch: map((LIMIT / BLK) as usize * 4) as *mut u32,
            cur_epoch: 0,
            next_epoch: 1,
            log: vec![],
            logging: false,
        }
    }
    pub fn mark(&mut self) -> (usize, u32) {
        let prev = self.cur_epoch;
        self.cur_epoch = self.next_epoch;
        self.next_epoch += 1;
        self.logging = true;
        (self.log.len(), prev)
    }
    pub fn undo(&mut self, mark: (usize, u32)) {
        while self.log.len() > mark.0 {
            let u = self.log.pop().unwrap();
            let b = u.blk as usize;
            unsafe {
                std::ptr::copy_nonoverlapping(
                    u.data.as_ptr(),
                    self.data.add(b * BLK as usize),
                    BLK as usize,
                );
                match u.sym {
                    Some(s) => {
                        std::ptr::copy_nonoverlapping(
                            s.as_ptr(),
                            self.sym.add(b * BLK as usize),
                            BLK as usize,
                        );
                        *self.has_sym.add(b) = 1;
                    }
                    None => {
                        if *self.has_sym.add(b) != 0 {
                            std::ptr::write_bytes(self.sym.add(b * BLK as usize), 0, BLK as usize);
                            *self.has_sym.add(b) = 0;
                        }
                    }
                }
                *self.epoch.add(b) = u.epoch;
            }
        }
        self.cur_epoch = mark.1;
    }
    #[inline]
    fn touch(&mut self, b: u64) {
        unsafe {
            let ep = self.epoch.add(b as usize);
            if *ep != self.cur_epoch {
                if self.logging {
                    self.save(b as usize, *ep);
                }
                *ep = self.cur_epoch;
            }
        }
    }
    #[cold]
    #[inline(never)]
    fn save(&mut self, b: usize, ep: u32) {
        unsafe {
            let mut d = [0u8; BLK as usize];
            std::ptr::copy_nonoverlapping(self.data.add(b * BLK as usize), d.as_mut_ptr(), BLK as usize);
            let sym = if *self.has_sym.add(b) != 0 {
                let mut s = Box::new([0u32; BLK as usize]);
                std::ptr::copy_nonoverlapping(
                    self.sym.add(b * BLK as usize),
                    s.as_mut_ptr(),
                    BLK as usize,
                );
                Some(s)
            } else {
                None
            };
            self.log.push(Undo {
                blk: b as u32,
                epoch: ep,
                data: d,
                sym,
            });
        }
    }
    #[inline]
    pub fn any_sym(&self, a: u64, n: u64) -> bool {
        if n == 0 {
            return false;
        }
        unsafe {
            let mut b = a / BLK;
            let e = (a + n - 1) / BLK;
            while b <= e {
                if *self.has_sym.add(b as usize) != 0 {
                    let s = a.max(b * BLK);
                    let t = (a + n).min((b + 1) * BLK);
                    for x in s..t {
                        if *self.sym.add(x as usize) != 0 {
                            return true;
                        }
                    }
                }
                b += 1;
            }
            false
        }
    }
    #[inline]
    pub fn byte(&self, a: u64) -> (u8, u32) {
        unsafe {
            (
                *self.data.add(a as usize),
                if *self.has_sym.add((a / BLK) as usize) != 0 {
                    *self.sym.add(a as usize)
                } else {
                    0
                },
            )
        }
    }
    #[inline]
    pub fn read(&self, a: u64, n: u64) -> u128 {
        unsafe {
            let p = self.data.add(a as usize);
            match n {
                1 => *p as u128,
                2 => (p as *const u16).read_unaligned() as u128,
                4 => (p as *const u32).read_unaligned() as u128,
                8 => (p as *const u64).read_unaligned() as u128,
                16 => (p as *const u128).read_unaligned(),
                _ => {
                    let mut v = 0u128;
                    for i in 0..n {
                        v |= (*p.add(i as usize) as u128) << (8 * i);
                    }
                    v
                }
            }
        }
    }
    #[inline]
    fn touch_range(&mut self, a: u64, n: u64, clear: bool) {
        if n == 0 {
            return;
        }
        let mut b = a / BLK;
        let e = (a + n - 1) / BLK;
        while b <= e {
            self.touch(b);
            unsafe {
                if clear && *self.has_sym.add(b as usize) != 0 {
                    let s = a.max(b * BLK);
                    let t = (a + n).min((b + 1) * BLK);
                    std::ptr::write_bytes(self.sym.add(s as usize), 0, (t - s) as usize);
                }
            }
            b += 1;
        }
    }
    #[inline]
    pub fn write(&mut self, a: u64, n: u64, v: u128) {
        self.touch_range(a, n, true);
        unsafe {
            let p = self.data.add(a as usize);
            match n {
                1 => *p = v as u8,
                2 => (p as *mut u16).write_unaligned(v as u16),
                4 => (p as *mut u32).write_unaligned(v as u32),
                8 => (p as *mut u64).write_unaligned(v as u64),
                16 => (p as *mut u128).write_unaligned(v),
                _ => {
                    for i in 0..n {
                        *p.add(i as usize) = (v >> (8 * i)) as u8;
                    }
                }
            }
        }
    }
    pub fn write_sym(&mut self, a: u64, e: u32) {
        self.touch(a / BLK);
        unsafe {
            let b = (a / BLK) as usize;
            if *self.has_sym.add(b) == 0 {
                *self.has_sym.add(b) = 1;
            }
            *self.sym.add(a as usize) = e;
        }
    }
    pub fn write_bytes(&mut self, a: u64, d: &[u8]) {
        self.touch_range(a, d.len() as u64, true);
        unsafe {
            std::ptr::copy_nonoverlapping(d.as_ptr(), self.data.add(a as usize), d.len());
        }
    }
    pub fn fill(&mut self, a: u64, n: u64, v: u8) {
        self.touch_range(a, n, true);
        unsafe {
            std::ptr::write_bytes(self.data.add(a as usize), v, n as usize);
        }
    }
    /// memmove semantics, symbolic bytes included
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s {
            return;
        }
        let sy = self.any_sym(s, n);
        let exprs: Option<Vec<u32>> = if sy {
            Some((0..n).map(|i| self.byte(s + i).1).collect())
        } else {
            None
        };
        self.touch_range(d, n, true);
        unsafe {
            std::ptr::copy(
                self.data.add(s as usize),
                self.data.add(d as usize),
                n as usize,
            );
        }
        if let Some(v) = exprs {
            for (i, e) in v.into_iter().enumerate() {
                if e != 0 {
                    self.write_sym(d + i as u64, e);
                }
            }
        }
    }
    pub fn slice(&self, a: u64, n: u64) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.data.add(a as usize), n as usize) }
    }
}
