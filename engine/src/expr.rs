//! Hash-consed bit-vector expressions with a simplifier, an evaluator and a
//! cheap abstract domain (unsigned interval + known zero bits).
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,  // a = high, b = low
    Extract, // a, k = low bit, width w
    ZExt,
    SExt,
    Lut, // a = index expression (var), k = table id
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
    pub vars: u128, // support
    pub kz: u64,    // known zero bits (w <= 64)
    pub umin: u64,
    pub umax: u64,
}

#[derive(Clone)]
pub struct VarInfo {
    pub name: String,
    pub w: u16,
    pub lo: u64,
    pub hi: u64,
    pub id: Id,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn mask64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<(Op, u16, Id, Id, Id, u128), Id>,
    pub vars: Vec<VarInfo>,
    varmap: HashMap<(u32, u16, u64, u64), Id>,
    pub luts: Vec<Rc<Vec<u64>>>,
    lutmap: HashMap<Rc<Vec<u64>>, u32>,
    // evaluator memo
    gen: u32,
    memo_gen: Vec<u32>,
    memo: Vec<u128>,
    pub tru: Id,
    pub fls: Id,
    pub truth: FxMap<Id, [u64; 4]>,
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            map: Default::default(),
            vars: vec![],
            varmap: HashMap::new(),
            luts: vec![],
            lutmap: Default::default(),
            gen: 0,
            memo_gen: vec![],
            memo: vec![],
            tru: 0,
            fls: 0,
            truth: Default::default(),
        };
        // id 0 is reserved (means "no expression" in memory overlays)
        a.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0, vars: 0, kz: 0, umin: 0, umax: 0 });
        a.fls = a.cst(0, 1);
        a.tru = a.cst(1, 1);
        a
    }
    #[inline]
    pub fn n(&self, i: Id) -> &Node {
        &self.nodes[i as usize]
    }
    pub fn w(&self, i: Id) -> u16 {
        self.n(i).w
    }
    pub fn is_const(&self, i: Id) -> Option<u128> {
        let n = self.n(i);
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn cst(&mut self, v: u128, w: u16) -> Id {
        self.raw(Op::Const, w, 0, 0, 0, v & mask(w))
    }
    /// The `seq`-th symbolic input of a path, of width w, ranging over lo..=hi.
    pub fn var(&mut self, seq: u32, w: u16, lo: u64, hi: u64) -> Id {
        assert!(seq < 128, "too many symbolic inputs on one path");
        let key = (seq, w, lo, hi);
        if let Some(i) = self.varmap.get(&key) {
            return *i;
        }
        let idx = self.vars.len();
        let id = self.raw(Op::Var, w, 0, 0, 0, seq as u128 | (idx as u128) << 32);
        self.varmap.insert(key, id);
        self.vars.push(VarInfo { name: format!("v{}", seq), w, lo, hi, id });
        let n = &mut self.nodes[id as usize];
        n.umin = lo;
        n.umax = hi;
        n.kz = !fill(hi) & mask64(w);
        id
    }
    pub fn var_seq(&self, e: Id) -> usize {
        (self.n(e).k & 0xffff_ffff) as usize
    }
    pub fn var_info(&self, e: Id) -> &VarInfo {
        &self.vars[(self.n(e).k >> 32) as usize]
    }
    fn raw(&mut self, op: Op, w: u16, a: Id, b: Id, c: Id, k: u128) -> Id {
        let key = (op, w, a, b, c, k);
        if let Some(&i) = self.map.get(&key) {
            return i;
        }
        let id = self.nodes.len() as Id;
        let mut vars = 0u128;
        if op == Op::Var {
            vars = 1u128 << (k as u32);
        } else {
            for x in [a, b, c] {
                if x != 0 {
                    vars |= self.n(x).vars;
                }
            }
        }
        let (kz, umin, umax) = self.abs(op, w, a, b, c, k);
        self.nodes.push(Node { op, w, a, b, c, k, vars, kz, umin, umax });
        self.map.insert(key, id);
        id
    }
    fn abs(&self, op: Op, w: u16, a: Id, b: Id, c: Id, k: u128) -> (u64, u64, u64) {
        if w > 64 {
            return (0, 0, u64::MAX);
        }
        let m = mask64(w);
        let na = *self.n(a);
        let nb = *self.n(b);
        let nc = *self.n(c);
        let (mut kz, mut lo, mut hi) = (0u64, 0u64, m);
        match op {
            Op::Const => {
                let v = k as u64;
                return (!v & m, v, v);
            }
            Op::And => {
                kz = na.kz | nb.kz;
                hi = na.umax.min(nb.umax);
            }
            Op::Or => {
                kz = na.kz & nb.kz;
                lo = na.umin.max(nb.umin);
            }
            Op::Xor => kz = na.kz & nb.kz,
            Op::Add => {
                let h = na.umax as u128 + nb.umax as u128;
                if h <= m as u128 {
                    lo = na.umin + nb.umin;
                    hi = h as u64;
                } else {
                    // constant negative addend: x + (2^w - c) with umin(x) >= c
                    if let Some(cv) = self.is_const(b) {
                        let neg = (!(cv as u64)).wrapping_add(1) & m;
                        if na.umin >= neg {
                            lo = na.umin - neg;
                            hi = na.umax - neg;
                        }
                    }
                }
            }
            Op::Mul => {
                let h = na.umax as u128 * nb.umax as u128;
                if h <= m as u128 {
                    lo = na.umin * nb.umin;
                    hi = h as u64;
                }
            }
            Op::UDiv => {
                if nb.umin > 0 {
                    hi = na.umax / nb.umin;
                    lo = na.umin / nb.umax;
                }
            }
            Op::URem => {
                if nb.umin > 0 {
                    hi = na.umax.min(nb.umax - 1);
                }
            }
            Op::Ite => {
                kz = nb.kz & nc.kz;
                lo = nb.umin.min(nc.umin);
                hi = nb.umax.max(nc.umax);
            }
            Op::ZExt => {
                let wa = na.w;
                kz = (na.kz & mask64(wa)) | (m & !mask64(wa));
                lo = na.umin;
                hi = na.umax;
            }
            Op::SExt => {
                let wa = na.w;
                if na.umax < (1u64 << (wa - 1)) {
                    kz = (na.kz & mask64(wa)) | (m & !mask64(wa));
                    lo = na.umin;
                    hi = na.umax;
                } else {
                    kz = na.kz & mask64(wa - 1);
                }
            }
            Op::Concat => {
                let wb = nb.w;
                kz = (na.kz << wb) | nb.kz;
                lo = (na.umin << wb) | nb.umin;
                hi = (na.umax << wb) | nb.umax;
            }
            Op::Extract => {
                if na.w <= 64 {
                    kz = (na.kz >> k as u32) & m;
                    let l = na.umin >> k as u32;
                    let h = na.umax >> k as u32;
                    if h <= m {
                        lo = l;
                        hi = h;
                    }
                }
            }
            Op::Lut => {
                let t = &self.luts[k as usize];
                lo = *t.iter().min().unwrap();
                hi = *t.iter().max().unwrap();
                let o = t.iter().fold(0, |x, y| x | y);
                kz = !o & m;
            }
            Op::Shl | Op::LShr | Op::AShr | Op::SDiv | Op::SRem => {
                if op == Op::LShr {
                    hi = na.umax;
                }
            }
            _ => {}
        }
        hi = hi.min(!kz & m);
        kz |= m & !fill(hi);
        if lo > hi {
            lo = 0;
        }
        (kz, lo, hi)
    }

    // ---------- constructors -------------
    pub fn boolc(&self, b: bool) -> Id {
        if b {
            self.tru
        } else {
            self.fls
        }
    }
    pub fn add(&mut self, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        if let Some(x) = self.is_const(a) {
            if let Some(y) = self.is_const(b) {
                return self.cst(x.wrapping_add(y), w);
            }
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.is_const(b) {
            if y == 0 {
                return a;
            }
            let na = *self.n(a);
            if na.op == Op::Add {
                if let Some(z) = self.is_const(na.b) {
                    let c = self.cst(y.wrapping_add(z), w);
                    return self.add(na.a, c);
                }
            }
            // zext(x) + c where no overflow: keep
        } else {
            // (x + c) + y  ->  (x + y) + c
            let na = *self.n(a);
            let nb = *self.n(b);
            if na.op == Op::Add && self.is_const(na.b).is_some() {
                let s = self.add(na.a, b);
                return self.add(s, na.b);
            }
            if nb.op == Op::Add && self.is_const(nb.b).is_some() {
                let s = self.add(a, nb.a);
                return self.add(s, nb.b);
            }
            // x + (-x) where -x is Mul(x, -1)
            let m1 = mask(w);
            if nb.op == Op::Mul && self.is_const(nb.b) == Some(m1) {
                if nb.a == a {
                    return self.cst(0, w);
                }
                // (p + q) - p
                if na.op == Op::Add {
                    if na.a == nb.a {
                        return na.b;
                    }
                    if na.b == nb.a {
                        return na.a;
                    }
                }
            }
            if na.op == Op::Mul && self.is_const(na.b) == Some(m1) {
                if na.a == b {
                    return self.cst(0, w);
                }
                if nb.op == Op::Add {
                    if nb.a == na.a {
                        return nb.b;
                    }
                    if nb.b == na.a {
                        return nb.a;
                    }
                }
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.raw(Op::Add, w, a, b, 0, 0)
    }
    pub fn neg(&mut self, a: Id) -> Id {
        let w = self.w(a);
        let m1 = self.cst(mask(w), w);
        self.mul(a, m1)
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.cst(0, w);
        }
        if let Some(y) = self.is_const(b) {
            let c = self.cst(0u128.wrapping_sub(y), w);
            return self.add(a, c);
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        if let Some(x) = self.is_const(a) {
            if let Some(y) = self.is_const(b) {
                return self.cst(x.wrapping_mul(y), w);
            }
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.is_const(b) {
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            let na = *self.n(a);
            if na.op == Op::Mul {
                if let Some(z) = self.is_const(na.b) {
                    let c = self.cst(y.wrapping_mul(z), w);
                    return self.mul(na.a, c);
                }
            }
            if na.op == Op::Add && y == mask(w) {
                // -(x + c) -> -x + -c
                let x = self.mul(na.a, b);
                let z = self.mul(na.b, b);
                return self.add(x, z);
            }
            if y.is_power_of_two() && y != mask(w) {
                let c = self.cst(y.trailing_zeros() as u128, w);
                return self.shl(a, c);
            }
        } else if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.raw(Op::Mul, w, a, b, 0, 0)
    }
    pub fn divrem(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.cst(ev_bin(op, w, x, y), w);
        }
        if let Some(y) = self.is_const(b) {
            if y == 1 && matches!(op, Op::UDiv | Op::SDiv) {
                return a;
            }
            if y.is_power_of_two() {
                if op == Op::UDiv {
                    let c = self.cst(y.trailing_zeros() as u128, w);
                    return self.lshr(a, c);
                }
                if op == Op::URem {
                    let c = self.cst(y - 1, w);
                    return self.and(a, c);
                }
            }
            if w <= 64 && op == Op::URem && self.n(a).umax < y as u64 {
                return a;
            }
        }
        if w <= 64 && matches!(op, Op::SDiv | Op::SRem) {
            let h = 1u64 << (w - 1);
            if self.n(a).umax < h && self.n(b).umax < h {
                return self.divrem(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
            }
        }
        self.raw(op, w, a, b, 0, 0)
    }
    pub fn and(&mut self, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if let Some(x) = self.is_const(a) {
            if let Some(y) = self.is_const(b) {
                return self.cst(x & y, w);
            }
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.is_const(b) {
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            let na = *self.n(a);
            if w <= 64 {
                let y = y as u64;
                let m = mask64(w);
                // bits of y that matter
                if y & !na.kz == 0 {
                    return self.cst(0, w);
                }
                if (!y & m) & !na.kz == 0 {
                    return a;
                }
            }
            match na.op {
                Op::And => {
                    if let Some(z) = self.is_const(na.b) {
                        let c = self.cst(y & z, w);
                        return self.and(na.a, c);
                    }
                }
                Op::ZExt => {
                    let wa = self.w(na.a);
                    let c = self.cst(y, wa);
                    let r = self.and(na.a, c);
                    return self.zext(r, w);
                }
                Op::Concat => {
                    let wb = self.w(na.b);
                    let wa = self.w(na.a);
                    let ch = self.cst(y >> wb, wa);
                    let cl = self.cst(y, wb);
                    let h = self.and(na.a, ch);
                    let l = self.and(na.b, cl);
                    return self.concat(h, l);
                }
                Op::Or | Op::Xor if self.is_const(na.b).is_some() => {
                    let l = self.and(na.a, b);
                    let r = self.and(na.b, b);
                    return if na.op == Op::Or { self.or(l, r) } else { self.xor(l, r) };
                }
                Op::Ite if self.is_const(na.b).is_some() && self.is_const(na.c).is_some() => {
                    let l = self.and(na.b, b);
                    let r = self.and(na.c, b);
                    return self.ite(na.a, l, r);
                }
                _ => {}
            }
            // contiguous low mask: zext(extract)
            if (y + 1).is_power_of_two() {
                let k = (y + 1).trailing_zeros() as u16;
                let e = self.extract(a, 0, k);
                return self.zext(e, w);
            }
            // contiguous high mask
            let z = (!y) & mask(w);
            if (z + 1).is_power_of_two() {
                let k = (z + 1).trailing_zeros() as u16;
                let e = self.extract(a, k, w - k);
                let zz = self.cst(0, k);
                return self.concat(e, zz);
            }
        } else {
            if w == 1 {
                if self.is_not_of(a, b) {
                    return self.fls;
                }
                // absorption: x & (x & y)
                let nb = *self.n(b);
                if nb.op == Op::And && (nb.a == a || nb.b == a) {
                    return b;
                }
                let na = *self.n(a);
                if na.op == Op::And && (na.a == b || na.b == b) {
                    return a;
                }
            }
            let (na, nb) = (*self.n(a), *self.n(b));
            if w > 1 && na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                let r = self.and(na.a, nb.a);
                return self.zext(r, w);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.and(na.a, nb.a);
                let l = self.and(na.b, nb.b);
                return self.concat(h, l);
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.raw(Op::And, w, a, b, 0, 0)
    }
    fn is_not_of(&self, a: Id, b: Id) -> bool {
        let nb = self.n(b);
        let na = self.n(a);
        (nb.op == Op::Xor && nb.a == a && self.is_const(nb.b) == Some(mask(nb.w)))
            || (na.op == Op::Xor && na.a == b && self.is_const(na.b) == Some(mask(na.w)))
    }
    pub fn or(&mut self, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if let Some(x) = self.is_const(a) {
            if let Some(y) = self.is_const(b) {
                return self.cst(x | y, w);
            }
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.is_const(b) {
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
            let na = *self.n(a);
            match na.op {
                Op::Or => {
                    if let Some(z) = self.is_const(na.b) {
                        let c = self.cst(y | z, w);
                        return self.or(na.a, c);
                    }
                }
                Op::Concat => {
                    let wb = self.w(na.b);
                    let wa = self.w(na.a);
                    let ch = self.cst(y >> wb, wa);
                    let cl = self.cst(y, wb);
                    let h = self.or(na.a, ch);
                    let l = self.or(na.b, cl);
                    return self.concat(h, l);
                }
                Op::ZExt => {
                    let wa = self.w(na.a);
                    let ch = self.cst(y >> wa, w - wa);
                    let cl = self.cst(y, wa);
                    let l = self.or(na.a, cl);
                    return self.concat(ch, l);
                }
                _ => {}
            }
        } else {
            if w == 1 && self.is_not_of(a, b) {
                return self.tru;
            }
            let (na, nb) = (*self.n(a), *self.n(b));
            if w > 1 {
                // split on a common boundary
                if na.op == Op::Concat || nb.op == Op::Concat {
                    let cut = if na.op == Op::Concat && nb.op == Op::Concat {
                        let (x, y) = (self.w(na.b), self.w(nb.b));
                        if x == y {
                            Some(x)
                        } else {
                            None
                        }
                    } else if na.op == Op::Concat && nb.op == Op::ZExt && self.w(nb.a) <= self.w(na.b) {
                        Some(self.w(na.b))
                    } else if nb.op == Op::Concat && na.op == Op::ZExt && self.w(na.a) <= self.w(nb.b) {
                        Some(self.w(nb.b))
                    } else {
                        None
                    };
                    if let Some(c) = cut {
                        let ah = self.extract(a, c, w - c);
                        let bh = self.extract(b, c, w - c);
                        let al = self.extract(a, 0, c);
                        let bl = self.extract(b, 0, c);
                        let h = self.or(ah, bh);
                        let l = self.or(al, bl);
                        return self.concat(h, l);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let r = self.or(na.a, nb.a);
                    return self.zext(r, w);
                }
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.raw(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.cst(0, w);
        }
        if let Some(x) = self.is_const(a) {
            if let Some(y) = self.is_const(b) {
                return self.cst(x ^ y, w);
            }
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.is_const(b) {
            if y == 0 {
                return a;
            }
            let na = *self.n(a);
            if na.op == Op::Xor {
                if let Some(z) = self.is_const(na.b) {
                    let c = self.cst(y ^ z, w);
                    return self.xor(na.a, c);
                }
            }
            if w == 1 {
                match na.op {
                    Op::Ult => return self.ule(na.b, na.a),
                    Op::Ule => return self.ult(na.b, na.a),
                    Op::Slt => return self.sle(na.b, na.a),
                    Op::Sle => return self.slt(na.b, na.a),
                    _ => {}
                }
            }
            if na.op == Op::ZExt {
                let wa = self.w(na.a);
                if y >> wa == 0 {
                    let c = self.cst(y, wa);
                    let l = self.xor(na.a, c);
                    return self.zext(l, w);
                }
            }
            if na.op == Op::Concat {
                let wb = self.w(na.b);
                let wa = self.w(na.a);
                let ch = self.cst(y >> wb, wa);
                let cl = self.cst(y, wb);
                let h = self.xor(na.a, ch);
                let l = self.xor(na.b, cl);
                return self.concat(h, l);
            }
            if na.op == Op::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                let l = self.xor(na.b, b);
                let r = self.xor(na.c, b);
                return self.ite(na.a, l, r);
            }
        } else {
            let (na, nb) = (*self.n(a), *self.n(b));
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.xor(na.a, nb.a);
                let l = self.xor(na.b, nb.b);
                return self.concat(h, l);
            }
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                let r = self.xor(na.a, nb.a);
                return self.zext(r, w);
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.raw(Op::Xor, w, a, b, 0, 0)
    }
    pub fn not(&mut self, a: Id) -> Id {
        let w = self.w(a);
        let m = self.cst(mask(w), w);
        self.xor(a, m)
    }
    pub fn shl(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.cst(0, w);
            }
            let k = k as u16;
            let z = self.cst(0, k);
            let l = self.extract(a, 0, w - k);
            return self.concat(l, z);
        }
        self.raw(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.cst(0, w);
            }
            let k = k as u16;
            let h = self.extract(a, k, w - k);
            return self.zext(h, w);
        }
        self.raw(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            let k = k.min(w as u128 - 1) as u16;
            let h = self.extract(a, k, w - k);
            return self.sext(h, w);
        }
        self.raw(Op::AShr, w, a, b, 0, 0)
    }
    pub fn zext(&mut self, a: Id, w: u16) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        assert!(wa < w);
        if let Some(v) = self.is_const(a) {
            return self.cst(v, w);
        }
        let na = *self.n(a);
        if na.op == Op::ZExt {
            return self.zext(na.a, w);
        }
        self.raw(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: Id, w: u16) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(v) = self.is_const(a) {
            return self.cst(sx(v, wa) as u128, w);
        }
        let na = *self.n(a);
        if wa <= 64 && na.kz >> (wa - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        if na.op == Op::SExt {
            return self.sext(na.a, w);
        }
        self.raw(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, a: Id, lo: u16, w: u16) -> Id {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        assert!(lo + w <= wa, "extract {} {} of {}", lo, w, wa);
        if let Some(v) = self.is_const(a) {
            return self.cst(v >> lo, w);
        }
        let na = *self.n(a);
        if wa <= 64 {
            let m = mask64(w) << lo;
            if m & !na.kz == 0 {
                return self.cst(0, w);
            }
        }
        match na.op {
            Op::Extract => return self.extract(na.a, lo + na.k as u16, w),
            Op::Concat => {
                let wb = self.w(na.b);
                if lo >= wb {
                    return self.extract(na.a, lo - wb, w);
                }
                if lo + w <= wb {
                    return self.extract(na.b, lo, w);
                }
                let h = self.extract(na.a, 0, lo + w - wb);
                let l = self.extract(na.b, lo, wb - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(na.a);
                if lo >= wi {
                    return self.cst(0, w);
                }
                if lo + w <= wi {
                    return self.extract(na.a, lo, w);
                }
                let l = self.extract(na.a, lo, wi - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let wi = self.w(na.a);
                if lo + w <= wi {
                    return self.extract(na.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(na.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(na.a, lo, w);
                let y = self.extract(na.b, lo, w);
                return match na.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Add | Op::Mul if lo == 0 => {
                let x = self.extract(na.a, 0, w);
                let y = self.extract(na.b, 0, w);
                return if na.op == Op::Add { self.add(x, y) } else { self.mul(x, y) };
            }
            Op::Ite => {
                let leaf = |s: &Arena, i: Id| matches!(s.n(i).op, Op::Const);
                if leaf(self, na.b) || leaf(self, na.c) {
                    let x = self.extract(na.b, lo, w);
                    let y = self.extract(na.c, lo, w);
                    return self.ite(na.a, x, y);
                }
            }
            Op::Lut if w <= 64 => {
                let t: Vec<u64> = self.luts[na.k as usize].iter().map(|v| (v >> lo) & mask64(w)).collect();
                return self.lut(na.a, t, w);
            }
            _ => {}
        }
        self.raw(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        assert!(w <= 128, "concat too wide");
        if let Some(x) = self.is_const(h) {
            if let Some(y) = self.is_const(l) {
                return self.cst(x << wl | y, w);
            }
            if x == 0 {
                return self.zext(l, w);
            }
        }
        let nh = *self.n(h);
        let nl = *self.n(l);
        // adjacent extracts
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k as u16 == nl.k as u16 + wl {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // extract of the part above the low piece of x, where l == extract(x,0..) simplified
        if nh.op == Op::Extract && nl.op == Op::Concat {
            let nla = *self.n(nl.a);
            if nla.op == Op::Extract && nla.a == nh.a && nh.k as u16 == nla.k as u16 + nla.w {
                let m = self.extract(nh.a, nla.k as u16, wh + nla.w);
                return self.concat(m, nl.b);
            }
        }
        if nh.op == Op::Const && nl.op == Op::Concat {
            if let Some(y) = self.is_const(nl.a) {
                let wla = self.w(nl.a);
                let c = self.cst(nh.k << wla | y, wh + wla);
                return self.concat(c, nl.b);
            }
        }
        if nh.op == Op::ZExt {
            // zext(x) ++ l -> zext(x ++ l)
            let c = self.concat(nh.a, l);
            return self.zext(c, w);
        }
        if nh.op == Op::Concat {
            // right-assoc normal form
            let t = self.concat(nh.b, l);
            return self.concat(nh.a, t);
        }
        self.raw(Op::Concat, w, h, l, 0, 0)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(v) = self.is_const(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if w > 1 {
            if let (Some(1), Some(0)) = (self.is_const(a), self.is_const(b)) {
                return self.zext(c, w);
            }
        }
        let nc = *self.n(c);
        if nc.op == Op::Xor && self.is_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let nb = *self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        let na = *self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, mut a: Id, mut b: Id) -> Id {
        if a == b {
            return self.tru;
        }
        let w = self.w(a);
        if let Some(x) = self.is_const(a) {
            if let Some(y) = self.is_const(b) {
                return self.boolc(x == y);
            }
            std::mem::swap(&mut a, &mut b);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if w <= 64 && (na.umax < nb.umin || nb.umax < na.umin) {
            return self.fls;
        }
        if let Some(y) = self.is_const(b) {
            if w <= 64 && (y as u64) & na.kz != 0 {
                return self.fls;
            }
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::ZExt => {
                    let wi = self.w(na.a);
                    if y >> wi != 0 {
                        return self.fls;
                    }
                    let c = self.cst(y, wi);
                    return self.eq(na.a, c);
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    let t = y & mask(wi);
                    if (sx(t, wi) as u128) & mask(w) != y {
                        return self.fls;
                    }
                    let c = self.cst(t, wi);
                    return self.eq(na.a, c);
                }
                Op::Add => {
                    if let Some(z) = self.is_const(na.b) {
                        let c = self.cst(y.wrapping_sub(z), w);
                        return self.eq(na.a, c);
                    }
                    if y == 0 {
                        // x + (-y) == 0
                        let (p, q) = (*self.n(na.a), *self.n(na.b));
                        if q.op == Op::Mul && self.is_const(q.b) == Some(mask(w)) {
                            return self.eq(na.a, q.a);
                        }
                        if p.op == Op::Mul && self.is_const(p.b) == Some(mask(w)) {
                            return self.eq(na.b, p.a);
                        }
                    }
                }
                Op::Mul => {
                    if self.is_const(na.b) == Some(mask(w)) {
                        let c = self.cst(0u128.wrapping_sub(y), w);
                        return self.eq(na.a, c);
                    }
                }
                Op::Xor => {
                    if let Some(z) = self.is_const(na.b) {
                        let c = self.cst(y ^ z, w);
                        return self.eq(na.a, c);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Or => {
                    if y == 0 {
                        let z = self.cst(0, w);
                        let l = self.eq(na.a, z);
                        let r = self.eq(na.b, z);
                        return self.and(l, r);
                    }
                }
                Op::Concat => {
                    let wb = self.w(na.b);
                    let wa = self.w(na.a);
                    let ch = self.cst(y >> wb, wa);
                    let cl = self.cst(y, wb);
                    let h = self.eq(na.a, ch);
                    if h == self.fls {
                        return h;
                    }
                    let l = self.eq(na.b, cl);
                    return self.and(h, l);
                }
                Op::Ite => {
                    let (p, q) = (self.is_const(na.b), self.is_const(na.c));
                    if p.is_some() || q.is_some() {
                        let l = self.eq(na.b, b);
                        let r = self.eq(na.c, b);
                        return self.ite(na.a, l, r);
                    }
                }
                Op::Lut => {
                    let t: Vec<u64> = self.luts[na.k as usize].iter().map(|v| (*v as u128 == y) as u64).collect();
                    return self.lut(na.a, t, 1);
                }
                _ => {}
            }
        } else {
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (x, y) = (self.w(na.a), self.w(nb.a));
                let m = x.max(y);
                let p = self.zext(na.a, m);
                let q = self.zext(nb.a, m);
                return self.eq(p, q);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a);
                if h == self.fls {
                    return h;
                }
                let l = self.eq(na.b, nb.b);
                return self.and(h, l);
            }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            // x + c == x
            if na.op == Op::Add && na.a == b {
                let z = self.cst(0, w);
                return self.eq(na.b, z);
            }
            if nb.op == Op::Add && nb.a == a {
                let z = self.cst(0, w);
                return self.eq(nb.b, z);
            }
            if w == 1 {
                let x = self.xor(a, b);
                return self.not(x);
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.raw(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.fls;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.boolc(x < y);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if w <= 64 {
            if na.umax < nb.umin {
                return self.tru;
            }
            if na.umin >= nb.umax {
                return self.fls;
            }
        }
        if self.is_const(b) == Some(1) {
            let z = self.cst(0, w);
            return self.eq(a, z);
        }
        if self.is_const(a) == Some(0) {
            let z = self.eq(b, a);
            return self.not(z);
        }
        if let Some((x, y)) = self.narrow(a, b) {
            return self.ult(x, y);
        }
        if let Some(r) = self.nowrap_cmp(a, b, w) {
            return self.ult(r.0, r.1);
        }
        if let Some(r) = self.lut_cmp(Op::Ult, a, b) {
            return r;
        }
        self.raw(Op::Ult, 1, a, b, 0, 0)
    }
    // x + c1 < c2 with no wrap of x + c1  =>  x < c2 - c1
    fn nowrap_cmp(&mut self, a: Id, b: Id, w: u16) -> Option<(Id, Id)> {
        if w > 64 {
            return None;
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        let m = mask64(w) as u128;
        if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
            if let Some(c) = self.is_const(na.b) {
                let (pa, pb) = (*self.n(na.a), *self.n(nb.a));
                if pa.umax as u128 + c <= m && pb.umax as u128 + c <= m {
                    return Some((na.a, nb.a));
                }
            }
        }
        if na.op == Op::Add {
            if let (Some(c), Some(k)) = (self.is_const(na.b), self.is_const(b)) {
                let p = *self.n(na.a);
                if p.umax as u128 + c <= m && k >= c {
                    let kk = self.cst(k - c, w);
                    return Some((na.a, kk));
                }
            }
        }
        if nb.op == Op::Add {
            if let (Some(c), Some(k)) = (self.is_const(nb.b), self.is_const(a)) {
                let p = *self.n(nb.a);
                if p.umax as u128 + c <= m && k >= c {
                    let kk = self.cst(k - c, w);
                    return Some((kk, nb.a));
                }
            }
        }
        None
    }
    fn lut_cmp(&mut self, op: Op, a: Id, b: Id) -> Option<Id> {
        let (na, nb) = (*self.n(a), *self.n(b));
        let w = na.w;
        if na.op == Op::Lut {
            if let Some(y) = self.is_const(b) {
                let t: Vec<u64> = self.luts[na.k as usize].iter().map(|v| ev_bin(op, w, *v as u128, y) as u64).collect();
                return Some(self.lut(na.a, t, 1));
            }
        }
        if nb.op == Op::Lut {
            if let Some(x) = self.is_const(a) {
                let t: Vec<u64> = self.luts[nb.k as usize].iter().map(|v| ev_bin(op, w, x, *v as u128) as u64).collect();
                return Some(self.lut(nb.a, t, 1));
            }
        }
        None
    }
    // both operands representable in fewer bits: drop the zero extension
    fn narrow(&mut self, a: Id, b: Id) -> Option<(Id, Id)> {
        let (na, nb) = (*self.n(a), *self.n(b));
        let ok = |s: &Arena, i: Id| s.n(i).op == Op::ZExt || s.n(i).op == Op::Const;
        if !(ok(self, a) && ok(self, b)) {
            return None;
        }
        let need = |s: &Arena, n: &Node| {
            if n.op == Op::ZExt {
                s.w(n.a)
            } else {
                (128 - n.k.leading_zeros()).max(1) as u16
            }
        };
        let k = need(self, &na).max(need(self, &nb));
        if k < na.w {
            let x = self.extract(a, 0, k);
            let y = self.extract(b, 0, k);
            return Some((x, y));
        }
        None
    }
    pub fn ule(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.tru;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.boolc(x <= y);
        }
        // canonical form with constants: x <= c  ->  x < c+1 ; c <= x -> c-1 < x
        if let Some(y) = self.is_const(b) {
            if y == mask(w) {
                return self.tru;
            }
            let c = self.cst(y + 1, w);
            return self.ult(a, c);
        }
        if let Some(x) = self.is_const(a) {
            if x == 0 {
                return self.tru;
            }
            let c = self.cst(x - 1, w);
            return self.ult(c, b);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if w <= 64 {
            if na.umax <= nb.umin {
                return self.tru;
            }
            if na.umin > nb.umax {
                return self.fls;
            }
        }
        if let Some((x, y)) = self.narrow(a, b) {
            return self.ule(x, y);
        }
        if let Some(r) = self.nowrap_cmp(a, b, w) {
            return self.ule(r.0, r.1);
        }
        self.raw(Op::Ule, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.fls;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.boolc(sx(x, w) < sx(y, w));
        }
        if let Some(r) = self.signed_range(a, b, w) {
            return match r {
                0 => self.ult(a, b),
                1 => self.tru,
                _ => self.fls,
            };
        }
        if let Some(r) = self.lut_cmp(Op::Slt, a, b) {
            return r;
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::SExt && (nb.op == Op::SExt && self.w(na.a) == self.w(nb.a)) {
            return self.slt(na.a, nb.a);
        }
        if na.op == Op::SExt {
            if let Some(y) = self.is_const(b) {
                let wi = self.w(na.a);
                let s = sx(y, w);
                if s >= -(1i128 << (wi - 1)) && s < (1i128 << (wi - 1)) {
                    let c = self.cst(y, wi);
                    return self.slt(na.a, c);
                }
            }
        }
        self.raw(Op::Slt, 1, a, b, 0, 0)
    }
    // 0: same sign region (unsigned comparison is right); 1: a<b; 2: a>=b
    fn signed_range(&self, a: Id, b: Id, w: u16) -> Option<u8> {
        if w > 64 {
            return None;
        }
        let h = 1u64 << (w - 1);
        let (na, nb) = (self.n(a), self.n(b));
        let sa = if na.umax < h {
            Some(false)
        } else if na.umin >= h {
            Some(true)
        } else {
            None
        };
        let sb = if nb.umax < h {
            Some(false)
        } else if nb.umin >= h {
            Some(true)
        } else {
            None
        };
        match (sa, sb) {
            (Some(x), Some(y)) if x == y => Some(0),
            (Some(true), Some(false)) => Some(1),
            (Some(false), Some(true)) => Some(2),
            _ => None,
        }
    }
    pub fn sle(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.tru;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.boolc(sx(x, w) <= sx(y, w));
        }
        if let Some(r) = self.signed_range(a, b, w) {
            return match r {
                0 => self.ule(a, b),
                1 => self.tru,
                _ => self.fls,
            };
        }
        if let Some(y) = self.is_const(b) {
            if sx(y, w) == (mask(w) >> 1) as i128 {
                return self.tru;
            }
            let c = self.cst(y.wrapping_add(1), w);
            return self.slt(a, c);
        }
        if let Some(x) = self.is_const(a) {
            if x == 1u128 << (w - 1) {
                return self.tru;
            }
            let c = self.cst(x.wrapping_sub(1), w);
            return self.slt(c, b);
        }
        self.raw(Op::Sle, 1, a, b, 0, 0)
    }
    /// table[v - lo(var)] for the variable expression `idx`
    pub fn lut(&mut self, idx: Id, t: Vec<u64>, w: u16) -> Id {
        let f = t[0];
        if t.iter().all(|x| *x == f) {
            return self.cst(f as u128, w);
        }
        let t = Rc::new(t);
        let k = match self.lutmap.get(&t) {
            Some(k) => *k,
            None => {
                let k = self.luts.len() as u32;
                self.luts.push(t.clone());
                self.lutmap.insert(t, k);
                k
            }
        };
        self.raw(Op::Lut, w, idx, 0, 0, k as u128)
    }
    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        match op {
            Op::Add => self.add(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv | Op::SDiv | Op::URem | Op::SRem => self.divrem(op, a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Ule => self.ule(a, b),
            Op::Slt => self.slt(a, b),
            Op::Sle => self.sle(a, b),
            _ => panic!("bin"),
        }
    }

    // ---------- evaluation -------------
    pub fn new_eval(&mut self) {
        self.gen += 1;
        if self.memo.len() < self.nodes.len() {
            let n = self.nodes.len() + self.nodes.len() / 2;
            self.memo.resize(n, 0);
            self.memo_gen.resize(n, 0);
        }
    }
    pub fn eval(&mut self, e: Id, env: &[u64]) -> u128 {
        self.new_eval();
        self.ev(e, env)
    }
    /// call new_eval first when env changed
    pub fn ev(&mut self, e: Id, env: &[u64]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return env[n.k as u32 as usize] as u128,
            _ => {}
        }
        if self.memo_gen[e as usize] == self.gen {
            return self.memo[e as usize];
        }
        let r = match n.op {
            Op::Ite => {
                if self.ev(n.a, env) == 1 {
                    self.ev(n.b, env)
                } else {
                    self.ev(n.c, env)
                }
            }
            Op::Concat => {
                let wl = self.w(n.b);
                let h = self.ev(n.a, env);
                h << wl | self.ev(n.b, env)
            }
            Op::Extract => (self.ev(n.a, env) >> n.k as u32) & mask(n.w),
            Op::ZExt => self.ev(n.a, env),
            Op::SExt => {
                let wi = self.w(n.a);
                (sx(self.ev(n.a, env), wi) as u128) & mask(n.w)
            }
            Op::Lut => {
                let vk = self.nodes[n.a as usize].k;
                let lo = self.vars[(vk >> 32) as usize].lo;
                let i = (env[vk as u32 as usize].wrapping_sub(lo)) as usize;
                self.luts[n.k as usize][i] as u128
            }
            Op::And if n.w == 1 => {
                if self.ev(n.a, env) == 0 {
                    0
                } else {
                    self.ev(n.b, env)
                }
            }
            op => {
                let x = self.ev(n.a, env);
                let y = self.ev(n.b, env);
                let w = self.w(n.a);
                ev_bin(op, w, x, y)
            }
        };
        self.memo[e as usize] = r;
        self.memo_gen[e as usize] = self.gen;
        r
    }
    pub fn show(&self, e: Id, d: u32) -> String {
        let n = self.n(e);
        if d == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("{}", self.vars[(n.k >> 32) as usize].name),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.k, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
            Op::Lut => format!("lut{}({})", n.k, self.show(n.a, d - 1)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}

fn fill(v: u64) -> u64 {
    if v == 0 {
        0
    } else {
        u64::MAX >> v.leading_zeros()
    }
}

pub fn ev_bin(op: Op, w: u16, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y as u32) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y as u32
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            ((sx(x, w) >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sx(x, w) < sx(y, w)) as u128,
        Op::Sle => (sx(x, w) <= sx(y, w)) as u128,
        _ => panic!("ev_bin {:?}", op),
    }
}
