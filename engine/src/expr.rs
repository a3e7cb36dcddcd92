//! Hash-consed bit-vector expressions (widths 1..=128) with constant folding,
//! local rewriting and an unsigned interval per node.
use std::collections::HashMap;

pub type E = u32; // 0 is reserved: "no expression"

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128, // const value / var id / extract low bit
    pub lo: u128,
    pub hi: u128,
    pub vars: u128,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

#[derive(PartialEq, Eq, Hash, Clone, Copy)]
struct Key(Op, u16, E, E, E, u128);

pub struct Exprs {
    pub nodes: Vec<Node>,
    map: HashMap<Key, E>,
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    gen: u32,
    gen_tag: usize,
}

/// Constant-fold a binary operation.
pub fn fold(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext(a, w);
            let s = if b >= w as u128 { w as u128 - 1 } else { b };
            ((x >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    }
}

impl Exprs {
    pub fn new() -> Self {
        let dummy = Node {
            op: Op::Const,
            w: 1,
            a: 0,
            b: 0,
            c: 0,
            k: 0,
            lo: 0,
            hi: 0,
            vars: 0,
        };
        Exprs {
            nodes: vec![dummy],
            map: HashMap::new(),
            ev_gen: vec![0],
            ev_val: vec![0],
            gen: 1,
            gen_tag: 0,
        }
    }
    #[inline]
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn intern(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
        let key = Key(op, w, a, b, c, k);
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let mut vars = 0;
        for x in [a, b, c] {
            if x != 0 {
                vars |= self.n(x).vars;
            }
        }
        let m = mask(w);
        let (mut lo, mut hi) = (0u128, m);
        let ia = |s: &Self| (s.n(a).lo, s.n(a).hi);
        let ib = |s: &Self| (s.n(b).lo, s.n(b).hi);
        match op {
            Op::Const => {
                lo = k;
                hi = k;
            }
            Op::Var => {
                vars = 1u128 << (k % 128);
            }
            Op::Add => {
                let ((al, ah), (bl, bh)) = (ia(self), ib(self));
                if let (Some(l), Some(h)) = (al.checked_add(bl), ah.checked_add(bh)) {
                    if h <= m {
                        lo = l;
                        hi = h;
                    } else if l > m && h <= m.saturating_mul(2) && w < 127 {
                        lo = l & m;
                        hi = h & m;
                        if lo > hi {
                            lo = 0;
                            hi = m;
                        }
                    }
                }
            }
            Op::Sub => {
                let ((al, ah), (bl, bh)) = (ia(self), ib(self));
                if al >= bh {
                    lo = al - bh;
                    hi = ah - bl;
                }
            }
            Op::Mul => {
                let ((al, ah), (bl, bh)) = (ia(self), ib(self));
                if let Some(h) = ah.checked_mul(bh) {
                    if h <= m {
                        lo = al * bl;
                        hi = h;
                    }
                }
            }
            Op::UDiv => {
                let ((al, ah), (bl, bh)) = (ia(self), ib(self));
                if bl > 0 {
                    lo = al / bh;
                    hi = ah / bl;
                }
            }
            Op::URem => {
                let ((_, ah), (bl, bh)) = (ia(self), ib(self));
                if bl > 0 {
                    hi = ah.min(bh - 1);
                }
            }
            Op::Shl => {
                if let Some(s) = self.as_const(b) {
                    let (al, ah) = ia(self);
                    if s < w as u128 && ah <= (m >> s) {
                        lo = al << s;
                        hi = ah << s;
                    }
                }
            }
            Op::LShr => {
                let (al, ah) = ia(self);
                if let Some(s) = self.as_const(b) {
                    if s < w as u128 {
                        lo = al >> s;
                        hi = ah >> s;
                    }
                } else {
                    hi = ah;
                }
            }
            Op::And => {
                let ((_, ah), (_, bh)) = (ia(self), ib(self));
                hi = ah.min(bh);
            }
            Op::Or | Op::Xor => {
                let ((al, ah), (bl, bh)) = (ia(self), ib(self));
                let top = ah | bh;
                let bits = 128 - top.leading_zeros();
                hi = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
                hi &= m;
                if op == Op::Or {
                    lo = al.max(bl);
                }
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {}
            Op::Ite => {
                let (bl, bh) = ib(self);
                let (cl, ch) = (self.n(c).lo, self.n(c).hi);
                lo = bl.min(cl);
                hi = bh.max(ch);
            }
            Op::Concat => {
                let ((al, ah), (bl, bh)) = (ia(self), ib(self));
                let s = self.w(b);
                lo = (al << s) | bl;
                hi = (ah << s) | bh;
            }
            Op::Extract => {
                let (al, ah) = ia(self);
                if (al >> k) == 0 && ah <= mask(w + k as u16) || (ah >> k) <= m {
                    lo = al >> k;
                    hi = ah >> k;
                }
            }
            Op::ZExt => {
                let (al, ah) = ia(self);
                lo = al;
                hi = ah;
            }
            Op::SExt => {
                let (al, ah) = ia(self);
                let aw = self.w(a);
                if ah < (1u128 << (aw - 1)) {
                    lo = al;
                    hi = ah;
                } else if al >= (1u128 << (aw - 1)) {
                    lo = (sext(al, aw) as u128) & m;
                    hi = (sext(ah, aw) as u128) & m;
                }
            }
            _ => {}
        }
        let e = self.nodes.len() as E;
        self.nodes.push(Node {
            op,
            w,
            a,
            b,
            c,
            k,
            lo,
            hi,
            vars,
        });
        self.map.insert(key, e);
        if lo == hi && op != Op::Const {
            // interval proves the value
            let ce = self.cst(lo, w);
            self.map.insert(key, ce);
            return ce;
        }
        e
    }
    pub fn cst(&mut self, k: u128, w: u16) -> E {
        self.intern(Op::Const, w, 0, 0, 0, k & mask(w))
    }
    pub fn var(&mut self, id: u32, w: u16) -> E {
        self.intern(Op::Var, w, 0, 0, 0, id as u128)
    }
    pub fn not1(&mut self, a: E) -> E {
        debug_assert!(self.w(a) == 1);
        let one = self.cst(1, 1);
        self.bin(Op::Xor, a, one)
    }
    fn is_cmp(op: Op) -> bool {
        matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if Self::is_cmp(op) { 1 } else { w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, w, x, y);
            return self.cst(v, rw);
        }
        // commutative: constant on the right
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let m = mask(w);
        let na = *self.n(a);
        let nb = *self.n(b);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.cst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                    if na.op == Op::Ite {
                        if self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                            let x = self.bin(op, na.b, b);
                            let y = self.bin(op, na.c, b);
                            return self.ite(na.a, x, y);
                        }
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(k) = cb {
                    let c = self.cst(k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, c);
                }
                // (x + k) - x
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                if na.op == Op::Add && na.b == b {
                    return na.a;
                }
                if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                    return self.bin(Op::Sub, na.b, nb.b);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let c = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, c);
                    }
                }
                if w == 1 {
                    return self.bin(Op::And, a, b);
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let c = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, c);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let c = self.cst(k - 1, w);
                        return self.bin(Op::And, a, c);
                    }
                    if na.hi < k {
                        return a;
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 && op != Op::AShr {
                        return self.cst(0, w);
                    }
                    let k = k.min(w as u128 - 1) as u16;
                    match op {
                        Op::LShr => {
                            // zext(extract(a, k..w))
                            let x = self.extract(a, k, w - k);
                            return self.zext(x, w);
                        }
                        Op::Shl => {
                            let x = self.extract(a, 0, w - k);
                            let z = self.cst(0, k);
                            return self.concat(x, z);
                        }
                        _ => {
                            let x = self.extract(a, k, w - k);
                            return self.sext(x, w);
                        }
                    }
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if let Some(k) = cb {
                    // low mask
                    if (k + 1).is_power_of_two() {
                        let bits = (k + 1).trailing_zeros() as u16;
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, w);
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.cst(k & k2, w);
                            return self.bin(Op::And, na.a, c);
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let c = self.cst(k, iw);
                        let x = self.bin(Op::And, na.a, c);
                        return self.zext(x, w);
                    }
                    if na.op == Op::Concat {
                        let lw = self.w(na.b);
                        let ch = self.cst(k >> lw, w - lw);
                        let cl = self.cst(k, lw);
                        let x = self.bin(Op::And, na.a, ch);
                        let y = self.bin(Op::And, na.b, cl);
                        return self.concat(x, y);
                    }
                    if na.op == Op::Ite
                        && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some())
                    {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                    if na.hi <= k && (k + 1).is_power_of_two() {
                        return a;
                    }
                }
                if w == 1 {
                    // x & !x
                    if na.op == Op::Xor && na.a == b || nb.op == Op::Xor && nb.a == a {
                        return self.cst(0, 1);
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 {
                    if na.op == Op::Xor && na.a == b || nb.op == Op::Xor && nb.a == a {
                        return self.cst(1, 1);
                    }
                } else {
                    // disjoint or: zext(x) | concat(y, 0)
                    for (p, q, np, nq) in [(a, b, na, nb), (b, a, nb, na)] {
                        let _ = p;
                        if np.op == Op::Concat {
                            let lw = self.w(np.b);
                            if self.as_const(np.b) == Some(0) && nq.hi <= mask(lw) {
                                let low = self.extract(q, 0, lw);
                                return self.concat(np.a, low);
                            }
                        }
                    }
                    if let Some(k) = cb {
                        if na.op == Op::Concat {
                            let lw = self.w(na.b);
                            let ch = self.cst(k >> lw, w - lw);
                            let cl = self.cst(k, lw);
                            let x = self.bin(Op::Or, na.a, ch);
                            let y = self.bin(Op::Or, na.b, cl);
                            return self.concat(x, y);
                        }
                        if na.op == Op::ZExt {
                            let iw = self.w(na.a);
                            if k <= mask(iw) {
                                let c = self.cst(k, iw);
                                let x = self.bin(Op::Or, na.a, c);
                                return self.zext(x, w);
                            }
                        }
                    }
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(k) = cb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.cst(k ^ k2, w);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                    if w == 1 && k == 1 {
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k <= mask(iw) {
                            let c = self.cst(k, iw);
                            let x = self.bin(Op::Xor, na.a, c);
                            return self.zext(x, w);
                        }
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if na.hi < nb.lo || nb.hi < na.lo {
                    return self.cst(0, 1);
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not1(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.cst(0, 1);
                            }
                            let c = self.cst(k, iw);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let t = k & mask(iw);
                            if (sext(t, iw) as u128) & m != k {
                                return self.cst(0, 1);
                            }
                            let c = self.cst(t, iw);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_const(na.b) {
                                let c = self.cst(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, na.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_const(na.b) {
                                let c = self.cst(k ^ k2, w);
                                return self.bin(Op::Eq, na.a, c);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Sub => {
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let ch = self.cst(k >> lw, w - lw);
                            let cl = self.cst(k, lw);
                            let x = self.bin(Op::Eq, na.a, ch);
                            if self.as_const(x) == Some(0) {
                                return x;
                            }
                            let y = self.bin(Op::Eq, na.b, cl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            let (tb, tc) = (self.n(na.b), self.n(na.c));
                            let simple = tb.op == Op::Const
                                || tc.op == Op::Const
                                || k < tb.lo
                                || k > tb.hi
                                || k < tc.lo
                                || k > tc.hi;
                            if simple {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        Op::Or => {
                            if k == 0 {
                                let z = self.cst(0, w);
                                let x = self.bin(Op::Eq, na.a, z);
                                let y = self.bin(Op::Eq, na.b, z);
                                return self.bin(Op::And, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.cst(0, 1);
                }
                if na.hi < nb.lo {
                    return self.cst(1, 1);
                }
                if na.lo >= nb.hi {
                    return self.cst(0, 1);
                }
                if let Some(k) = cb {
                    if k == 1 {
                        let z = self.cst(0, w);
                        return self.bin(Op::Eq, a, z);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k <= mask(iw) {
                            let c = self.cst(k, iw);
                            return self.bin(Op::Ult, na.a, c);
                        }
                    }
                    if na.op == Op::Ite
                        && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some())
                    {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if let Some(k) = ca {
                    if k == 0 {
                        let z = self.cst(0, w);
                        let e = self.bin(Op::Eq, b, z);
                        return self.not1(e);
                    }
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        if k <= mask(iw) {
                            let c = self.cst(k, iw);
                            return self.bin(Op::Ult, c, nb.a);
                        }
                    }
                    if nb.op == Op::Ite
                        && (self.as_const(nb.b).is_some() || self.as_const(nb.c).is_some())
                    {
                        let x = self.bin(op, a, nb.b);
                        let y = self.bin(op, a, nb.c);
                        return self.ite(nb.a, x, y);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
            }
            Op::Ule => {
                if a == b || na.hi <= nb.lo {
                    return self.cst(1, 1);
                }
                if na.lo > nb.hi {
                    return self.cst(0, 1);
                }
                if let Some(k) = cb {
                    // a <= k  <=> a < k+1
                    let c = self.cst(k + 1, w);
                    return self.bin(Op::Ult, a, c);
                }
                if let Some(k) = ca {
                    // k <= b <=> k-1 < b
                    let c = self.cst(k - 1, w);
                    return self.bin(Op::Ult, c, b);
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.cst((op == Op::Sle) as u128, 1);
                }
                let half = 1u128 << (w - 1);
                if na.hi < half && nb.hi < half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if na.lo >= half && nb.hi < half {
                    return self.cst(1, 1);
                }
                if na.hi < half && nb.lo >= half {
                    return self.cst(0, 1);
                }
                if na.lo >= half && nb.lo >= half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if na.op == Op::SExt && nb.op == Op::Const && op == Op::Slt {
                    let iw = self.w(na.a);
                    let t = nb.k & mask(iw);
                    if (sext(t, iw) as u128) & m == nb.k {
                        let c = self.cst(t, iw);
                        return self.bin(op, na.a, c);
                    }
                }
                if nb.op == Op::Const && na.op == Op::Ite {
                    if self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
            }
            _ => {}
        }
        self.intern(op, rw, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let nc = *self.n(c);
        if nc.op == Op::Xor && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        // ite(c, ite(c, x, y), z)
        let na = *self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = *self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            // ite(c,a,ite(d,a,z)) = ite(c|d,a,z)
            let cd = self.bin(Op::Or, c, nb.a);
            return self.ite(cd, a, nb.c);
        }
        self.intern(Op::Ite, w, c, a, b, 0)
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        let n = *self.n(a);
        match n.op {
            Op::Const => return self.cst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, n.k as u16 + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                // truncation distributes
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        if lo < 128 && (n.hi >> lo) == 0 {
            return self.cst(0, w);
        }
        self.intern(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        assert!(w <= 128, "concat wider than 128 bits");
        let (nh, nl) = (*self.n(h), *self.n(l));
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.cst((nh.k << lw) | nl.k, w);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        if nh.op == Op::Extract
            && nl.op == Op::Extract
            && nh.a == nl.a
            && nh.k == nl.k + lw as u128
        {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // extract(x, lw..) over x's own low part where low is a truncation
        if nh.op == Op::Extract && nh.k == lw as u128 {
            // does l equal extract(nh.a, 0, lw)?
            let low = self.extract(nh.a, 0, lw);
            if low == l {
                return self.extract(nh.a, 0, w);
            }
        }
        // concat(concat(x, ext), ext)
        if nh.op == Op::Concat && nl.op == Op::Extract {
            let m = *self.n(nh.b);
            if m.op == Op::Extract && m.a == nl.a && m.k == nl.k + lw as u128 {
                let lo = self.extract(nl.a, nl.k as u16, self.w(nh.b) + lw);
                return self.concat(nh.a, lo);
            }
        }
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        self.intern(Op::Concat, w, h, l, 0, 0)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = *self.n(a);
        match n.op {
            Op::Const => self.cst(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite
                if self.n(n.b).op == Op::Const && self.n(n.c).op == Op::Const =>
            {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.intern(Op::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = *self.n(a);
        if n.op == Op::Const {
            return self.cst(sext(n.k, aw) as u128, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.hi < (1u128 << (aw - 1)) {
            return self.zext(a, w);
        }
        if aw == 1 {
            let o = self.cst(u128::MAX, w);
            let z = self.cst(0, w);
            return self.ite(a, o, z);
        }
        self.intern(Op::SExt, w, a, 0, 0, 0)
    }

    /// Evaluate under a model (missing variables are zero). `tag` identifies the
    /// model so consecutive evaluations share a memo table.
    pub fn eval(&mut self, e: E, model: &[u128], tag: usize) -> u128 {
        if tag == 0 || tag != self.gen_tag {
            self.gen += 1;
            self.gen_tag = tag;
        }
        if self.ev_gen.len() < self.nodes.len() {
            self.ev_gen.resize(self.nodes.len(), 0);
            self.ev_val.resize(self.nodes.len(), 0);
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u128]) -> u128 {
        let i = e as usize;
        let n = self.nodes[i];
        if n.op == Op::Const {
            return n.k;
        }
        if self.ev_gen[i] == self.gen {
            return self.ev_val[i];
        }
        let v = match n.op {
            Op::Const => n.k,
            Op::Var => model.get(n.k as usize).copied().unwrap_or(0) & mask(n.w),
            Op::Ite => {
                if self.ev(n.a, model) == 1 {
                    self.ev(n.b, model)
                } else {
                    self.ev(n.c, model)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, model) << lw) | self.ev(n.b, model)
            }
            Op::Extract => (self.ev(n.a, model) >> n.k) & mask(n.w),
            Op::ZExt => self.ev(n.a, model),
            Op::SExt => {
                let aw = self.w(n.a);
                (sext(self.ev(n.a, model), aw) as u128) & mask(n.w)
            }
            op => {
                let (x, y) = (self.ev(n.a, model), self.ev(n.b, model));
                let w = self.w(n.a);
                fold(op, w, x, y)
            }
        };
        self.ev_gen[i] = self.gen;
        self.ev_val[i] = v;
        v
    }
    pub fn show(&self, e: E, depth: usize) -> String {
        let n = self.n(e);
        if depth == 0 {
            return "…".into();
        }
        match n.op {
            Op::Const => format!("{:#x}", n.k),
            Op::Var => format!("v{}", n.k),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
            _ => {
                let mut s = format!("({:?}{}", n.op, n.w);
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s += " ";
                        s += &self.show(x, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}
