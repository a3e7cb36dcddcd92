//! Harness primitives, libc and LLVM intrinsics.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    Nop,
    Ret0,
    RetM1,
    RetArg0,
    SxBytes,
    SxU8,
    SxU16,
    SxU32,
    SxU64,
    SxRange,
    SxChoice,
    SxAssume,
    SxAssert,
    SxCover,
    SxConcretize,
    SxFail,
    SxDbg,
    SxParam,
    Panic,
    Abort,
    Malloc,
    Getenv,
    Open,
    ReadFd,
    Snprintf,
    NoEnt,
    Calloc,
    Realloc,
    Free,
    Memalign,
    PosixMemalign,
    RustAlloc,
    RustAllocZ,
    RustRealloc,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    Strchr,
    Memchr,
    Memrchr,
    Write,
    Writev,
    Clock,
    Syscall,
    Errno,
    Sysconf,
    Overflow(Op, bool),
    Sat(Op, bool),
    MinMax(Op, bool),
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fsh(bool),
    Abs,
    Cmp3(bool),
    LoadRel,
    False,
    Reduce(Op),
    ReduceAdd,
    Ptrmask,
    Fpow(u8),
    Enosys,
    KeyCreate,
    Objsize,
    Exit,
}

pub fn lookup(name: &str, has_body: bool) -> Option<B> {
    use B::*;
    if let Some(n) = name.strip_prefix("llvm.") {
        let op = |s: &str| n.starts_with(s);
        return Some(
            if op("lifetime") || op("assume") || op("experimental.noalias") || op("dbg")
                || op("prefetch") || op("invariant") || op("donothing") || op("va_") || op("trap.nop")
            {
                Nop
            } else if op("memcpy") || op("memmove") {
                Memcpy
            } else if op("memset") {
                Memset
            } else if op("expect") || op("threadlocal.address") || op("launder") || op("strip.inv")
                || op("ssa.copy")
            {
                RetArg0
            } else if op("uadd.with") {
                Overflow(Op::Add, false)
            } else if op("sadd.with") {
                Overflow(Op::Add, true)
            } else if op("usub.with") {
                Overflow(Op::Sub, false)
            } else if op("ssub.with") {
                Overflow(Op::Sub, true)
            } else if op("umul.with") {
                Overflow(Op::Mul, false)
            } else if op("smul.with") {
                Overflow(Op::Mul, true)
            } else if op("uadd.sat") {
                Sat(Op::Add, false)
            } else if op("usub.sat") {
                Sat(Op::Sub, false)
            } else if op("sadd.sat") {
                Sat(Op::Add, true)
            } else if op("ssub.sat") {
                Sat(Op::Sub, true)
            } else if op("umin") {
                MinMax(Op::Ult, true)
            } else if op("umax") {
                MinMax(Op::Ult, false)
            } else if op("smin") {
                MinMax(Op::Slt, true)
            } else if op("smax") {
                MinMax(Op::Slt, false)
            } else if op("ctlz") {
                Ctlz
            } else if op("cttz") {
                Cttz
            } else if op("ctpop") {
                Ctpop
            } else if op("bswap") {
                Bswap
            } else if op("bitreverse") {
                Bitrev
            } else if op("fshl") {
                Fsh(true)
            } else if op("fshr") {
                Fsh(false)
            } else if op("abs") {
                Abs
            } else if op("ucmp") {
                Cmp3(false)
            } else if op("scmp") {
                Cmp3(true)
            } else if op("load.relative") {
                LoadRel
            } else if op("is.constant") {
                False
            } else if op("vector.reduce.add") {
                ReduceAdd
            } else if op("vector.reduce.or") {
                Reduce(Op::Or)
            } else if op("vector.reduce.and") {
                Reduce(Op::And)
            } else if op("vector.reduce.xor") {
                Reduce(Op::Xor)
            } else if op("ptrmask") {
                Ptrmask
            } else if op("x86.sse2.pause") {
                Nop
            } else if op("objectsize") {
                Objsize
            } else if op("ceil") {
                Fpow(0)
            } else if op("floor") {
                Fpow(1)
            } else if op("trunc.") {
                Fpow(2)
            } else if op("fabs") {
                Fpow(3)
            } else if op("sqrt") {
                Fpow(4)
            } else if op("round.") {
                Fpow(5)
            } else if op("trap") || op("ubsantrap") {
                Abort
            } else {
                return None;
            },
        );
    }
    // panics are caught before their message is formatted
    if name.contains("core9panicking9panic_fmt")
        || name.contains("core9panicking18panic_nounwind_fmt")
        || name.contains("core9panicking14panic_nounwind")
        || name == "rust_begin_unwind"
        || name.contains("std9panicking20rust_panic_with_hook")
        || name.contains("std9panicking15begin_panic")
    {
        return Some(Panic);
    }
    if name.contains("alloc5alloc18handle_alloc_error")
        || name.contains("alloc7raw_vec12handle_error")
        || name.contains("core9panicking16panic_in_cleanup")
        || name.contains("core9panicking19panic_cannot_unwind")
    {
        return Some(Abort);
    }
    if name.contains("__rust_alloc_zeroed") {
        return Some(RustAllocZ);
    }
    if name.contains("__rust_alloc_error_handler") {
        return Some(Abort);
    }
    if name.contains("__rust_no_alloc_shim") {
        return Some(Nop);
    }
    if name.contains("__rust_realloc") {
        return Some(RustRealloc);
    }
    if name.contains("__rust_dealloc") {
        return Some(Nop);
    }
    if name.contains("__rust_alloc") {
        return Some(RustAlloc);
    }
    Some(match name {
        "sx_bytes" => SxBytes,
        "sx_u8" => SxU8,
        "sx_u16" => SxU16,
        "sx_u32" => SxU32,
        "sx_u64" => SxU64,
        "sx_range" => SxRange,
        "sx_choice" => SxChoice,
        "sx_assume" => SxAssume,
        "sx_assert" => SxAssert,
        "sx_cover" => SxCover,
        "sx_concretize" => SxConcretize,
        "sx_fail" => SxFail,
        "sx_dbg" => SxDbg,
        "sx_param" => SxParam,
        "abort" | "__assert_fail" | "__stack_chk_fail" => Abort,
        "exit" | "_exit" => Exit,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" | "cfree" => Free,
        "posix_memalign" => PosixMemalign,
        "aligned_alloc" | "memalign" => Memalign,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "memcmp" | "bcmp" => Memcmp,
        "strlen" => Strlen,
        "strchr" => Strchr,
        "memchr" => Memchr,
        "memrchr" => Memrchr,
        "write" => Write,
        "writev" => Writev,
        "clock_gettime" => Clock,
        "syscall" => Syscall,
        "__errno_location" => Errno,
        "sysconf" => Sysconf,
        // a created thread is never scheduled: harnesses drive the code themselves
        "pthread_create" => Ret0,
        "pthread_key_create" => KeyCreate,
        "getenv" => Getenv,
        "__cxa_thread_atexit_impl" | "pthread_mutex_init" | "pthread_mutex_lock"
        | "pthread_mutex_unlock" | "pthread_mutex_destroy" | "pthread_mutexattr_init"
        | "pthread_mutexattr_settype" | "pthread_mutexattr_destroy" | "pthread_attr_init"
        | "pthread_attr_destroy" | "pthread_attr_setstacksize"
        | "pthread_setspecific" | "pthread_getspecific" | "pthread_self" | "pthread_join"
        | "pthread_detach" | "pthread_key_delete" | "sched_yield" | "signal" | "sigaction"
        | "sigaltstack" | "close" | "pthread_cond_signal" | "pthread_cond_broadcast"
        | "gettid" | "getpid" | "__xpg_strerror_r" | "madvise" | "munmap" | "mprotect"
        | "pthread_setname_np" | "prctl" | "sched_getaffinity" | "gnu_get_libc_version"
        | "dl_iterate_phdr" | "dlsym" | "nanosleep" | "usleep" => Ret0,
        "getrandom" => Syscall,
        "open" | "open64" => Open,
        "read" => ReadFd,
        "vsnprintf" | "snprintf" => Snprintf,
        "readlink" | "realpath" | "mkdir" | "unlink" | "rename" | "opendir" | "access" | "stat" | "stat64" | "lstat" | "lstat64" => NoEnt,
        "openat" | "stat" | "stat64" | "fstat64" | "statx" | "readlink"
        | "mmap" | "mmap64" | "getcwd" | "poll" | "fcntl" | "lseek" | "lseek64" | "read"
        | "ioctl" | "realpath" | "unlink" | "rename" | "mkdir" => Enosys,
        _ => {
            let _ = has_body;
            return None;
        }
    })
}

impl Exec {
    pub fn builtin(
        &mut self,
        b: B,
        sym: u32,
        a: &[(Val, u16)],
        rets: &[u16],
        _c: &CallI,
    ) -> R<Vec<Val>> {
        use B::*;
        let v = |i: usize| a[i].0;
        let zero = || Ok(rets.iter().map(|_| cv(0)).collect());
        let one = |x: Val| Ok(vec![x]);
        macro_rules! conc {
            ($i:expr) => {{
                let (x, w) = a[$i];
                self.concretize(x, w)? as u64
            }};
        }
        match b {
            Nop | Free | Ret0 | False => zero(),
            Enosys => {
                Err(End::Error(format!(
                    "system call outside the model: {}",
                    self.st.borrow().syms[sym as usize].name
                )))
            }
            KeyCreate => {
                use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
                static NEXT: AtomicU32 = AtomicU32::new(1);
                let p = conc!(0);
                self.store_c(p, 32, cv(NEXT.fetch_add(1, Relaxed) as u128))?;
                zero()
            }
            RetM1 => one(cv(mask(rets[0]))),
            Objsize => one(cv(mask(rets[0]))),
            RetArg0 => Ok((0..rets.len()).map(|k| v(k)).collect()),
            SxBytes => {
                let (p, n) = (conc!(0), conc!(1));
                if let Some(d) = self.next_concrete('b')? {
                    for (i, x) in d.iter().enumerate() {
                        self.store_c(p + i as u64, 8, cv(*x))?;
                    }
                    return zero();
                }
                let mut first = None;
                for i in 0..n {
                    let (id, e) = self.new_var(8);
                    first.get_or_insert(id);
                    self.store_c(p + i, 8, Val { v: 0, e })?;
                }
                self.log_input(Input::Bytes(first.unwrap_or(0), n as u32));
                zero()
            }
            SxU8 | SxU16 | SxU32 | SxU64 => {
                if let Some(d) = self.next_concrete('w')? {
                    return one(cv(d[0]));
                }
                let w = match b {
                    SxU8 => 8,
                    SxU16 => 16,
                    SxU32 => 32,
                    _ => 64,
                };
                let (id, e) = self.new_var(w);
                self.log_input(Input::Word(id, w));
                one(Val { v: 0, e })
            }
            SxRange => {
                let (lo, hi) = (conc!(0), conc!(1));
                if let Some(d) = self.next_concrete('w')? {
                    return one(cv(d[0]));
                }
                if lo > hi {
                    return Err(End::Error("sx_range: empty".into()));
                }
                // narrow variable, zero-extended: keeps intervals tight
                let bits = (64 - hi.leading_zeros()).max(1) as u16;
                let (id, e) = self.new_var(bits);
                self.log_input(Input::Word(id, bits));
                self.set_model_val(id, lo as u128);
                let l = self.op2(Op::Ule, bits, cv(lo as u128), Val { v: 0, e });
                self.sx_assume(l)?;
                let h = self.op2(Op::Ule, bits, Val { v: 0, e }, cv(hi as u128));
                self.sx_assume(h)?;
                let z = self.vzext(Val { v: 0, e }, 64);
                one(z)
            }
            SxChoice => {
                let n = conc!(0);
                let k = self.choice(n)?;
                one(cv(k as u128))
            }
            SxAssume => {
                let c = self.truth(a[0]);
                self.sx_assume(c)?;
                zero()
            }
            SxAssert => {
                let (p, n) = (conc!(1), conc!(2));
                let m = self.cstr(p, n);
                let c = self.truth(a[0]);
                self.sx_assert(c, m)?;
                zero()
            }
            SxFail => {
                let (p, n) = (conc!(0), conc!(1));
                let m = self.cstr(p, n);
                self.sx_assert(cv(0), m)?;
                zero()
            }
            SxParam => {
                let (i, d) = (conc!(0), conc!(1));
                let v = self.cfg.params.iter().find(|p| p.0 == i as u64).map(|p| p.1).unwrap_or(d as u64);
                one(cv(v as u128))
            }
            SxDbg => {
                let (p, n) = (conc!(0), conc!(1));
                if self.cfg.verbose {
                    let m = self.cstr(p, n);
                    eprintln!("dbg: {m}");
                }
                zero()
            }
            SxCover => {
                let (p, n) = (conc!(0), conc!(1));
                let m = self.cstr(p, n);
                self.cover(m);
                zero()
            }
            SxConcretize => {
                let (x, w) = a[0];
                let k = self.concretize(x, w)?;
                one(cv(k))
            }
            Panic => {
                let loc = self.location(a);
                let m = self.cur_model();
                let name = demangle(&self.st.borrow().syms[sym as usize].name);
                self.violation("panic", name, loc, &m);
                Err(End::Violated)
            }
            Abort => {
                let m = self.cur_model();
                let name = demangle(&self.st.borrow().syms[sym as usize].name);
                self.violation("abort", name, String::new(), &m);
                Err(End::Violated)
            }
            Exit => Err(End::Error("exit called".into())),
            // files of the project are readable as they are; there is no other file
            Open => {
                let p = conc!(0);
                let flags = conc!(1);
                let path = self.zstr(p);
                match host_file(&path) {
                    Some(f) if flags & 3 == 0 && f.is_file() => {
                        let i = match self.fds.iter().position(|x| *x == f) {
                            Some(i) => i,
                            None => {
                                self.fds.push(f);
                                self.fds.len() - 1
                            }
                        };
                        // the read position lives in guest memory, so it follows the path
                        let a = self.errno_addr()? + 64 + 8 * i as u64;
                        self.mem.write(a, 8, 0);
                        one(cv(1000 + i as u128))
                    }
                    _ => self.fail(2, rets),
                }
            }
            ReadFd => {
                let (fd, buf, n) = (conc!(0), conc!(1), conc!(2));
                let i = (fd as usize).wrapping_sub(1000);
                let Some(f) = self.fds.get(i) else { return self.fail(9, rets) };
                let d = std::fs::read(f).map_err(|e| End::Error(e.to_string()))?;
                let a = self.errno_addr()? + 64 + 8 * i as u64;
                let at = (self.mem.read(a, 8) as usize).min(d.len());
                let m = (n as usize).min(d.len() - at);
                self.mem.write_bytes(buf, &d[at..at + m]);
                self.mem.write(a, 8, (at + m) as u128);
                one(cv(m as u128))
            }
            // formatted messages of the C parsers: the format itself, unexpanded
            Snprintf => {
                let (buf, n, f) = (conc!(0), conc!(1), conc!(2));
                let mut t = self.zstr(f).into_bytes();
                let len = t.len();
                if n > 0 {
                    t.truncate(n as usize - 1);
                    t.push(0);
                    self.mem.write_bytes(buf, &t);
                }
                one(cv(len as u128))
            }
            NoEnt => {
                let name = self.st.borrow().syms[sym as usize].name.clone();
                if name == "realpath" {
                    self.fail(2, rets)?;
                    return one(cv(0));
                }
                self.fail(2, rets)
            }
            // the environment holds HOME alone (the native runner sets the same)
            Getenv => {
                let p = conc!(0);
                if self.cstr(p, 5) != "HOME\0" {
                    return one(cv(0));
                }
                let a = self.alloc(16, 1)?;
                self.mem.write_bytes(a, b"/nonexistent/vp\0");
                one(cv(a as u128))
            }
            Malloc => {
                let n = conc!(0);
                one(cv(self.alloc(n, 16)? as u128))
            }
            Calloc => {
                let (x, y) = (conc!(0), conc!(1));
                one(cv(self.alloc(x * y, 16)? as u128))
            }
            RustAlloc | RustAllocZ => {
                let (n, al) = (conc!(0), conc!(1));
                one(cv(self.alloc(n, al)? as u128))
            }
            RustRealloc => {
                let (p, _o, al, n) = (conc!(0), conc!(1), conc!(2), conc!(3));
                one(cv(self.realloc(p, n, al)? as u128))
            }
            Realloc => {
                let (p, n) = (conc!(0), conc!(1));
                one(cv(self.realloc(p, n, 16)? as u128))
            }
            Memalign => {
                let (al, n) = (conc!(0), conc!(1));
                one(cv(self.alloc(n, al)? as u128))
            }
            PosixMemalign => {
                let (p, al, n) = (conc!(0), conc!(1), conc!(2));
                let q = self.alloc(n, al)?;
                self.store_c(p, 64, cv(q as u128))?;
                one(cv(0))
            }
            Memcpy => {
                let n = conc!(2);
                if n > 0 {
                    let (d, s) = (conc!(0), conc!(1));
                    self.check_addr(d, n)?;
                    self.check_addr(s, n)?;
                    self.mem.copy(d, s, n);
                }
                Ok(if rets.is_empty() { vec![] } else { vec![v(0)] })
            }
            Memset => {
                let n = conc!(2);
                if n > 0 {
                    let d = conc!(0);
                    self.check_addr(d, n)?;
                    let x = self.vext(v(1), 0, 8);
                    if x.e == 0 {
                        self.mem.fill(d, n, x.v as u8);
                    } else {
                        for i in 0..n {
                            self.store_c(d + i, 8, x)?;
                        }
                    }
                }
                Ok(if rets.is_empty() { vec![] } else { vec![v(0)] })
            }
            Memcmp => {
                let n = conc!(2);
                if n == 0 {
                    return one(cv(0));
                }
                let is_bcmp = self.st.borrow().syms[sym as usize].name == "bcmp";
                // a symbolic pointer on either side: byte loads through `load`
                let (p, q) = (v(0), v(1));
                let mut r = cv(0);
                let w = rets[0];
                if p.e == 0 && q.e == 0 {
                    let (x, y) = (p.v as u64, q.v as u64);
                    self.check_addr(x, n)?;
                    self.check_addr(y, n)?;
                    if !self.mem.any_sym(x, n) && !self.mem.any_sym(y, n) {
                        let o = self.mem.slice(x, n).cmp(self.mem.slice(y, n));
                        return one(cv(o as i32 as u32 as u128 & mask(w)));
                    }
                }
                if is_bcmp {
                    let mut acc = cv(1);
                    for i in 0..n {
                        let x = self.load(p, i, 8)?;
                        let y = self.load(q, i, 8)?;
                        let e = self.op2(Op::Eq, 8, x, y);
                        acc = self.op2(Op::And, 1, acc, e);
                        if acc.e == 0 && acc.v == 0 {
                            break;
                        }
                    }
                    let x = self.vite(acc, w, cv(0), cv(1));
                    return one(x);
                }
                for i in (0..n).rev() {
                    let x = self.load(p, i, 8)?;
                    let y = self.load(q, i, 8)?;
                    let e = self.op2(Op::Eq, 8, x, y);
                    let lt = self.op2(Op::Ult, 8, x, y);
                    let d = self.vite(lt, w, cv(mask(w)), cv(1));
                    r = self.vite(e, w, r, d);
                }
                one(r)
            }
            Strlen => {
                let p = conc!(0);
                let mut n = 0;
                loop {
                    let x = self.load_c(p + n, 8)?;
                    let k = self.concretize(x, 8)?;
                    if k == 0 {
                        return one(cv(n as u128));
                    }
                    n += 1;
                }
            }
            Strchr => {
                let p = conc!(0);
                let c = self.vext(v(1), 0, 8);
                let c = self.concretize(c, 8)?;
                let mut n = 0;
                loop {
                    let x = self.load_c(p + n, 8)?;
                    let k = self.concretize(x, 8)?;
                    if k == c {
                        return one(cv((p + n) as u128));
                    }
                    if k == 0 {
                        return one(cv(0));
                    }
                    n += 1;
                }
            }
            Memchr | Memrchr => {
                let (p, n) = (conc!(0), conc!(2));
                let c = self.vext(v(1), 0, 8);
                let mut r = cv(0);
                let idx: Vec<u64> = if b == Memchr {
                    (0..n).rev().collect()
                } else {
                    (0..n).collect()
                };
                for i in idx {
                    let x = self.load_c(p + i, 8)?;
                    let e = self.op2(Op::Eq, 8, x, c);
                    r = self.vite(e, 64, cv((p + i) as u128), r);
                }
                one(r)
            }
            Write => {
                let (_fd, p, n) = (conc!(0), conc!(1), conc!(2));
                if self.cfg.verbose {
                    eprint!("{}", self.cstr(p, n));
                }
                one(cv(n as u128))
            }
            Writev => {
                let (_fd, p, n) = (conc!(0), conc!(1), conc!(2));
                let mut t = 0;
                for i in 0..n {
                    let b = self.mem.read(p + 16 * i, 8) as u64;
                    let l = self.mem.read(p + 16 * i + 8, 8) as u64;
                    if self.cfg.verbose {
                        eprint!("{}", self.cstr(b, l));
                    }
                    t += l;
                }
                one(cv(t as u128))
            }
            Clock => {
                let p = conc!(1);
                let t = self.tick();
                self.store_c(p, 64, cv((t / 1_000_000_000) as u128))?;
                self.store_c(p + 8, 64, cv((t % 1_000_000_000) as u128))?;
                one(cv(0))
            }
            Syscall => {
                let name = self.st.borrow().syms[sym as usize].name.clone();
                if name == "getrandom" {
                    return one(v(1));
                }
                let nr = conc!(0);
                match nr {
                    318 => one(v(2)), // getrandom: buffer keeps its zeros
                    202 => Err(End::Error("futex wait: the single thread would block".into())),
                    186 | 39 => one(cv(1)),
                    332 => {
                        let (fd, p, buf) = (conc!(1), conc!(2), conc!(5));
                        let path = self.zstr(p);
                        let md = if path.is_empty() {
                            self.fds.get((fd as usize).wrapping_sub(1000)).and_then(|f| std::fs::metadata(f).ok())
                        } else {
                            host_file(&path).and_then(|f| std::fs::metadata(f).ok())
                        };
                        match md {
                            None => self.fail(2, rets),
                            Some(m) => {
                                let mut b = [0u8; 256];
                                b[0..4].copy_from_slice(&0x7ffu32.to_le_bytes());
                                b[4..8].copy_from_slice(&4096u32.to_le_bytes());
                                b[16] = 1;
                                let mode: u16 = if m.is_dir() { 0o40755 } else { 0o100644 };
                                b[28..30].copy_from_slice(&mode.to_le_bytes());
                                b[32] = 7;
                                b[40..48].copy_from_slice(&m.len().to_le_bytes());
                                self.mem.write_bytes(buf, &b);
                                one(cv(0))
                            }
                        }
                    }
                    _ => Err(End::Error(format!("syscall {nr}"))),
                }
            }
            Errno => {
                let p = self.errno_addr()?;
                one(cv(p as u128))
            }
            Sysconf => {
                let n = conc!(0);
                one(cv(match n {
                    30 => 4096,
                    84 => 4,
                    _ => 200,
                }))
            }
            Overflow(op, signed) => {
                // flattened: n values then n flags for vectors; scalars here
                let w = a[0].1;
                let n = a.len() / 2;
                let mut rs = vec![];
                let mut fs = vec![];
                for k in 0..n {
                    let (x, y) = (v(k), v(n + k));
                    let r = self.op2(op, w, x, y);
                    let o = self.overflow(op, signed, w, x, y, r)?;
                    rs.push(r);
                    fs.push(o);
                }
                rs.extend(fs);
                Ok(rs)
            }
            Sat(op, signed) => {
                let w = a[0].1;
                let n = a.len() / 2;
                let mut rs = vec![];
                for k in 0..n {
                    let (x, y) = (v(k), v(n + k));
                    let r = self.op2(op, w, x, y);
                    let o = self.overflow(op, signed, w, x, y, r)?;
                    let s = if !signed {
                        if op == Op::Add {
                            cv(mask(w))
                        } else {
                            cv(0)
                        }
                    } else {
                        let neg = self.op2(Op::Slt, w, x, cv(0));
                        self.vite(neg, w, cv(1u128 << (w - 1)), cv(mask(w) >> 1))
                    };
                    rs.push(self.vite(o, w, s, r));
                }
                Ok(rs)
            }
            MinMax(op, min) => {
                let w = a[0].1;
                let n = a.len() / 2;
                let mut rs = vec![];
                for k in 0..n {
                    let (x, y) = (v(k), v(n + k));
                    let lt = self.op2(op, w, x, y);
                    rs.push(if min {
                        self.vite(lt, w, x, y)
                    } else {
                        self.vite(lt, w, y, x)
                    });
                }
                Ok(rs)
            }
            Ctlz | Cttz => {
                let w = a[0].1;
                let n = rets.len();
                let mut rs = vec![];
                for k in 0..n {
                    let x = v(k);
                    if x.e == 0 {
                        let r = if b == Ctlz {
                            (x.v.leading_zeros() as u128) - (128 - w as u128)
                        } else if x.v == 0 {
                            w as u128
                        } else {
                            x.v.trailing_zeros() as u128
                        };
                        rs.push(cv(r));
                    } else {
                        let mut r = cv(w as u128);
                        for i in 0..w {
                            let bit = if b == Ctlz { i } else { w - 1 - i };
                            let t = self.vext(x, bit, 1);
                            let val = if b == Ctlz { w - 1 - bit } else { bit };
                            r = self.vite(t, w, cv(val as u128), r);
                        }
                        rs.push(r);
                    }
                }
                Ok(rs)
            }
            Ctpop => {
                let w = a[0].1;
                let mut rs = vec![];
                for k in 0..rets.len() {
                    let x = v(k);
                    if x.e == 0 {
                        rs.push(cv(x.v.count_ones() as u128));
                    } else {
                        let mut r = cv(0);
                        for i in 0..w {
                            let t = self.vext(x, i, 1);
                            let t = self.vzext(t, w);
                            r = self.op2(Op::Add, w, r, t);
                        }
                        rs.push(r);
                    }
                }
                Ok(rs)
            }
            Bswap => {
                let w = a[0].1;
                let mut rs = vec![];
                for k in 0..rets.len() {
                    let x = v(k);
                    let mut acc = self.vext(x, 0, 8);
                    let mut aw = 8;
                    for i in 1..w / 8 {
                        let t = self.vext(x, 8 * i, 8);
                        acc = self.vconcat(acc, aw, t, 8);
                        aw += 8;
                    }
                    rs.push(acc);
                }
                Ok(rs)
            }
            Bitrev => {
                let w = a[0].1;
                let x = v(0);
                let mut acc = self.vext(x, 0, 1);
                for i in 1..w {
                    let t = self.vext(x, i, 1);
                    acc = self.vconcat(acc, i, t, 1);
                }
                one(acc)
            }
            Fsh(left) => {
                let w = a[0].1;
                let n = rets.len();
                let mut rs = vec![];
                for k in 0..n {
                    let (x, y, s) = (v(k), v(n + k), v(2 * n + k));
                    let s = self.op2(Op::URem, w, s, cv(w as u128));
                    let inv = self.op2(Op::Sub, w, cv(w as u128), s);
                    let (l, r) = if left {
                        (self.op2(Op::Shl, w, x, s), self.op2(Op::LShr, w, y, inv))
                    } else {
                        (self.op2(Op::Shl, w, x, inv), self.op2(Op::LShr, w, y, s))
                    };
                    rs.push(self.op2(Op::Or, w, l, r));
                }
                Ok(rs)
            }
            Abs => {
                let w = a[0].1;
                let mut rs = vec![];
                for k in 0..rets.len() {
                    let x = v(k);
                    let neg = self.op2(Op::Slt, w, x, cv(0));
                    let m = self.op2(Op::Sub, w, cv(0), x);
                    rs.push(self.vite(neg, w, m, x));
                }
                Ok(rs)
            }
            Cmp3(signed) => {
                let w = a[0].1;
                let rw = rets[0];
                let op = if signed { Op::Slt } else { Op::Ult };
                let n = rets.len();
                let mut rs = vec![];
                for k in 0..n {
                    let (x, y) = (v(k), v(n + k));
                    let lt = self.op2(op, w, x, y);
                    let eq = self.op2(Op::Eq, w, x, y);
                    let t = self.vite(eq, rw, cv(0), cv(1));
                    rs.push(self.vite(lt, rw, cv(mask(rw)), t));
                }
                Ok(rs)
            }
            LoadRel => {
                let (p, o) = (v(0), v(1));
                let o = if a[1].1 < 64 { self.vsext(o, a[1].1, 64) } else { o };
                let q = self.op2(Op::Add, 64, p, o);
                let x = self.load(q, 0, 32)?;
                let x = self.vsext(x, 32, 64);
                let r = self.op2(Op::Add, 64, p, x);
                one(r)
            }
            Reduce(op) => {
                let w = a[0].1;
                let mut r = v(0);
                for k in 1..a.len() {
                    r = self.op2(op, w, r, v(k));
                }
                one(r)
            }
            ReduceAdd => {
                let w = a[0].1;
                let mut r = v(0);
                for k in 1..a.len() {
                    r = self.op2(Op::Add, w, r, v(k));
                }
                one(r)
            }
            Ptrmask => {
                let r = self.op2(Op::And, 64, v(0), v(1));
                one(r)
            }
            Fpow(k) => {
                let (x, w) = a[0];
                if x.e != 0 {
                    return Err(End::Error("symbolic floating point".into()));
                }
                let d = if w == 64 {
                    f64::from_bits(x.v as u64)
                } else {
                    f32::from_bits(x.v as u32) as f64
                };
                let r = match k {
                    0 => d.ceil(),
                    1 => d.floor(),
                    2 => d.trunc(),
                    3 => d.abs(),
                    4 => d.sqrt(),
                    _ => d.round(),
                };
                one(cv(if w == 64 {
                    r.to_bits() as u128
                } else {
                    (r as f32).to_bits() as u128
                }))
            }
        }
    }
    fn truth(&mut self, a: (Val, u16)) -> Val {
        if a.1 == 1 {
            return a.0;
        }
        let z = self.op2(Op::Eq, a.1, a.0, cv(0));
        self.op2(Op::Xor, 1, z, cv(1))
    }
    fn errno_addr(&mut self) -> R<u64> {
        Ok(crate::mem::STACK_END - 4096)
    }
    /// `&Location` is the last pointer argument of the panic entry points.
    fn location(&self, a: &[(Val, u16)]) -> String {
        for (x, w) in a.iter().rev() {
            if *w != 64 || x.e != 0 {
                continue;
            }
            let p = x.v as u64;
            if p < crate::mem::GLOBALS || p >= crate::mem::HEAP {
                continue;
            }
            let f = self.mem.read(p, 8) as u64;
            let n = self.mem.read(p + 8, 8) as u64;
            let line = self.mem.read(p + 16, 4);
            let col = self.mem.read(p + 20, 4);
            if f >= crate::mem::GLOBALS && f < crate::mem::HEAP && n < 512 && line > 0 && line < 1_000_000 {
                let s = self.cstr(f, n);
                if s.contains(".rs") {
                    return format!("{}:{}:{}", s.trim_end_matches('\0'), line, col);
                }
            }
        }
        "?".into()
    }
    fn overflow(&mut self, op: Op, signed: bool, w: u16, x: Val, y: Val, r: Val) -> R<Val> {
        Ok(match (op, signed) {
            (Op::Add, false) => self.op2(Op::Ult, w, r, x),
            (Op::Sub, false) => self.op2(Op::Ult, w, x, y),
            (Op::Add, true) => {
                let a = self.op2(Op::Xor, w, x, r);
                let b = self.op2(Op::Xor, w, y, r);
                let c = self.op2(Op::And, w, a, b);
                self.vext(c, w - 1, 1)
            }
            (Op::Sub, true) => {
                let a = self.op2(Op::Xor, w, x, y);
                let b = self.op2(Op::Xor, w, x, r);
                let c = self.op2(Op::And, w, a, b);
                self.vext(c, w - 1, 1)
            }
            (Op::Mul, s) => {
                if x.e == 0 && y.e == 0 {
                    if s {
                        let p = sext(x.v, w).checked_mul(sext(y.v, w));
                        return Ok(cv(match p {
                            Some(p) => (sext(p as u128 & mask(w), w) != p) as u128,
                            None => 1,
                        }));
                    }
                    return Ok(cv(match x.v.checked_mul(y.v) {
                        Some(p) => (p > mask(w)) as u128,
                        None => 1,
                    }));
                }
                if 2 * w > 128 {
                    return Err(End::Error("wide symbolic multiplication".into()));
                }
                let (a, b) = if s {
                    (self.vsext(x, w, 2 * w), self.vsext(y, w, 2 * w))
                } else {
                    (self.vzext(x, 2 * w), self.vzext(y, 2 * w))
                };
                let p = self.op2(Op::Mul, 2 * w, a, b);
                let re = if s {
                    self.vsext(r, w, 2 * w)
                } else {
                    self.vzext(r, 2 * w)
                };
                let eq = self.op2(Op::Eq, 2 * w, p, re);
                self.op2(Op::Xor, 1, eq, cv(1))
            }
            _ => unreachable!(),
        })
    }
}

fn host_file(path: &str) -> Option<std::path::PathBuf> {
    let root = std::env::var("VP_REPO").unwrap_or("/repo".into());
    let p = std::path::PathBuf::from(path);
    (p.starts_with(&root) && p.exists()).then_some(p)
}

impl Exec {
    fn fail(&mut self, errno: u32, rets: &[u16]) -> R<Vec<Val>> {
        let p = self.errno_addr()?;
        self.mem.write(p, 4, errno as u128);
        let w = rets[0];
        Ok(vec![cv(if w >= 128 { u128::MAX } else { (1u128 << w) - 1 })])
    }
    pub fn zstr(&self, p: u64) -> String {
        let mut n = 0;
        while n < 4096 && self.mem.read(p + n, 1) as u8 != 0 {
            n += 1;
        }
        self.cstr(p, n)
    }
}
