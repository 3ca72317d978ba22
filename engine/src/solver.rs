//! Path conditions: per-input domains, multi-input constraints, feasibility.
use crate::expr::{Arena, Id, Op};
use crate::z3::{Res, Z3};

#[derive(Clone, Copy, Debug)]
pub enum Dom {
    Bits { lo: u64, b: [u64; 4] },
    Range { lo: u64, hi: u64 },
}

impl Dom {
    pub fn new(lo: u64, hi: u64) -> Dom {
        if hi - lo < 256 {
            let n = (hi - lo + 1) as usize;
            let mut b = [0u64; 4];
            for i in 0..n {
                b[i / 64] |= 1 << (i % 64);
            }
            Dom::Bits { lo, b }
        } else {
            Dom::Range { lo, hi }
        }
    }
    pub fn ranges(&self) -> Vec<(u64, u64)> {
        match self {
            Dom::Range { lo, hi } => vec![(*lo, *hi)],
            Dom::Bits { lo, b } => {
                let mut r: Vec<(u64, u64)> = vec![];
                for i in bits(b) {
                    let v = lo + i as u64;
                    match r.last_mut() {
                        Some(l) if l.1 + 1 == v => l.1 = v,
                        _ => r.push((v, v)),
                    }
                }
                r
            }
        }
    }
}

pub fn bits(b: &[u64; 4]) -> impl Iterator<Item = usize> + '_ {
    (0..4).flat_map(move |k| {
        let mut x = b[k];
        std::iter::from_fn(move || {
            if x == 0 {
                None
            } else {
                let i = x.trailing_zeros() as usize;
                x &= x - 1;
                Some(k * 64 + i)
            }
        })
    })
}
fn count(b: &[u64; 4]) -> u32 {
    b.iter().map(|x| x.count_ones()).sum()
}

/// The symbolic part of a path.
#[derive(Clone)]
pub struct Pc {
    pub vars: Vec<Id>,  // by sequence number
    pub doms: Vec<Dom>, // by sequence number
    pub model: Vec<u64>,
    pub cons: Vec<Id>, // constraints over several inputs (or wide ones)
    pub single: u128,  // inputs with one value left
    pub multi: u128,   // inputs occurring in cons
}

#[derive(Default, Clone)]
pub struct Stats {
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub z3_us: u64,
    pub dom_queries: u64,
    pub cross: u64,
}

pub struct Solver {
    z3: Option<(u32, Z3)>,
    pub stats: Stats,
    pub unknown: bool,
    pub cross_every: u64,
    pub mismatch: Option<String>,
}

impl Pc {
    pub fn new() -> Pc {
        Pc { vars: vec![], doms: vec![], model: vec![], cons: vec![], single: 0, multi: 0 }
    }
    pub fn fresh(&mut self, ar: &mut Arena, w: u16, lo: u64, hi: u64) -> Id {
        let seq = self.vars.len() as u32;
        let v = ar.var(seq, w, lo, hi);
        self.vars.push(v);
        self.doms.push(Dom::new(lo, hi));
        self.model.push(lo);
        if lo == hi {
            self.single |= 1 << seq;
        }
        v
    }
}

impl Solver {
    pub fn new() -> Solver {
        Solver { z3: None, stats: Stats::default(), unknown: false, cross_every: 64, mismatch: None }
    }
    fn z3(&mut self) -> &mut Z3 {
        let pid = std::process::id();
        if self.z3.as_ref().map(|x| x.0) != Some(pid) {
            if let Some(old) = self.z3.take() {
                std::mem::forget(old);
            }
            self.z3 = Some((pid, Z3::new(30_000)));
        }
        &mut self.z3.as_mut().unwrap().1
    }
    // truth set of a boolean expression over the single unfixed input `seq`
    fn truth(&mut self, ar: &mut Arena, pc: &Pc, e: Id, seq: usize) -> [u64; 4] {
        let n = *ar.n(e);
        let pure = n.vars == 1u128 << seq;
        if pure {
            if let Some(t) = ar.truth.get(&e) {
                return *t;
            }
        }
        let (lo, hi, dom) = match &pc.doms[seq] {
            Dom::Bits { lo, b } => {
                let info = ar.var_info(pc.vars[seq]);
                (*lo, info.hi, *b)
            }
            _ => unreachable!(),
        };
        let mut env = pc.model.clone();
        let mut r = [0u64; 4];
        for i in 0..=(hi - lo) as usize {
            // impure sets are only needed on the current domain
            if !pure && dom[i / 64] >> (i % 64) & 1 == 0 {
                continue;
            }
            env[seq] = lo + i as u64;
            ar.new_eval();
            if ar.ev(e, &env) == 1 {
                r[i / 64] |= 1 << (i % 64);
            }
        }
        if pure {
            ar.truth.insert(e, r);
        }
        r
    }
    fn eff(&self, ar: &Arena, pc: &Pc, e: Id) -> u128 {
        ar.n(e).vars & !pc.single
    }
    fn is_bits(&self, pc: &Pc, seq: usize) -> bool {
        matches!(pc.doms[seq], Dom::Bits { .. })
    }
    /// Assume c (known to be consistent with the path; pc.model satisfies it).
    pub fn assume(&mut self, ar: &mut Arena, pc: &mut Pc, c: Id) {
        let n = *ar.n(c);
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::And && n.w == 1 {
            self.assume(ar, pc, n.a);
            self.assume(ar, pc, n.b);
            return;
        }
        if n.op == Op::Xor && ar.is_const(n.b) == Some(1) {
            // not (a or b)
            let m = *ar.n(n.a);
            if m.op == Op::Or {
                let x = ar.not(m.a);
                let y = ar.not(m.b);
                self.assume(ar, pc, x);
                self.assume(ar, pc, y);
                return;
            }
        }
        let eff = self.eff(ar, pc, c);
        if eff == 0 {
            return;
        }
        if eff.count_ones() == 1 {
            let s = eff.trailing_zeros() as usize;
            if self.is_bits(pc, s) {
                let t = self.truth(ar, pc, c, s);
                if let Dom::Bits { b, .. } = &mut pc.doms[s] {
                    for i in 0..4 {
                        b[i] &= t[i];
                    }
                    let k = count(b);
                    assert!(k > 0, "empty domain after assume");
                    if k == 1 {
                        pc.single |= 1 << s;
                    }
                }
                return;
            }
        }
        if !pc.cons.contains(&c) {
            pc.cons.push(c);
            pc.multi |= n.vars;
        }
    }
    /// Is path ∧ c satisfiable? Returns a model.
    pub fn feasible(&mut self, ar: &mut Arena, pc: &Pc, c: Id) -> Option<Vec<u64>> {
        match ar.is_const(c) {
            Some(0) => return None,
            Some(_) => return Some(pc.model.clone()),
            None => {}
        }
        if ar.eval(c, &pc.model) == 1 {
            return Some(pc.model.clone());
        }
        match self.quick(ar, pc, c) {
            Some(r) => {
                self.stats.dom_queries += 1;
                if (self.stats.dom_queries + std::process::id() as u64) % self.cross_every == 0 {
                    // cross-check the finite-domain verdict with Z3
                    self.stats.cross += 1;
                    let z = self.z3check(ar, pc, &[c]);
                    if z.is_some() != r.is_some() && !self.unknown {
                        self.mismatch = Some(format!("domain/z3 disagreement on {}", ar.show(c, 8)));
                    }
                }
                r
            }
            None => self.z3check(ar, pc, &[c]),
        }
    }
    // Some(verdict) when the finite-domain procedure decides
    fn quick(&mut self, ar: &mut Arena, pc: &Pc, c: Id) -> Option<Option<Vec<u64>>> {
        let n = *ar.n(c);
        let eff = n.vars & !pc.single;
        if eff == 0 {
            return Some(if ar.eval(c, &pc.model) == 1 { Some(pc.model.clone()) } else { None });
        }
        if eff.count_ones() == 1 {
            let s = eff.trailing_zeros() as usize;
            if let Dom::Bits { lo, b } = pc.doms[s] {
                let t = self.truth(ar, pc, c, s);
                let r = [b[0] & t[0], b[1] & t[1], b[2] & t[2], b[3] & t[3]];
                if r == [0; 4] {
                    return Some(None);
                }
                let mut m = pc.model.clone();
                if pc.multi >> s & 1 == 0 {
                    m[s] = lo + bits(&r).next().unwrap() as u64;
                    return Some(Some(m));
                }
                for i in bits(&r) {
                    m[s] = lo + i as u64;
                    if self.cons_ok(ar, pc, &m, 1u128 << s) {
                        return Some(Some(m));
                    }
                }
                return None;
            }
            return None;
        }
        // disjunction
        let disj = match n.op {
            Op::Or if n.w == 1 => Some((n.a, n.b)),
            Op::Xor if ar.is_const(n.b) == Some(1) && ar.n(n.a).op == Op::And => {
                let m = *ar.n(n.a);
                let x = ar.not(m.a);
                let y = ar.not(m.b);
                Some((x, y))
            }
            _ => None,
        };
        if let Some((x, y)) = disj {
            let p = self.quick(ar, pc, x);
            if let Some(Some(m)) = p {
                return Some(Some(m));
            }
            let q = self.quick(ar, pc, y);
            if let Some(Some(m)) = q {
                return Some(Some(m));
            }
            if let (Some(None), Some(None)) = (p, q) {
                return Some(None);
            }
            return None;
        }
        // conjunction of single-input conditions
        let mut conj = vec![];
        flat_and(ar, c, &mut conj);
        if conj.len() > 1 {
            let mut sets: Vec<(usize, u64, [u64; 4])> = vec![];
            let mut exact = true;
            for k in conj {
                let e = self.eff(ar, pc, k);
                if e == 0 {
                    if ar.eval(k, &pc.model) == 0 {
                        return Some(None);
                    }
                    continue;
                }
                if e.count_ones() != 1 {
                    exact = false;
                    continue;
                }
                let s = e.trailing_zeros() as usize;
                if !self.is_bits(pc, s) {
                    exact = false;
                    continue;
                }
                let t = self.truth(ar, pc, k, s);
                if let Dom::Bits { lo, b } = pc.doms[s] {
                    let ent = match sets.iter_mut().position(|x| x.0 == s) {
                        Some(i) => &mut sets[i],
                        None => {
                            sets.push((s, lo, b));
                            sets.last_mut().unwrap()
                        }
                    };
                    for i in 0..4 {
                        ent.2[i] &= t[i];
                    }
                    if ent.2 == [0; 4] {
                        return Some(None);
                    }
                }
            }
            if exact {
                let mut m = pc.model.clone();
                let mut touched = 0u128;
                for (s, lo, b) in &sets {
                    // keep the current value when allowed
                    let cur = m[*s].wrapping_sub(*lo) as usize;
                    if !(cur < 256 && b[cur / 64] >> (cur % 64) & 1 == 1) {
                        m[*s] = lo + bits(b).next().unwrap() as u64;
                        touched |= 1 << *s;
                    }
                }
                if pc.multi & touched == 0 || self.cons_ok(ar, pc, &m, touched) {
                    return Some(Some(m));
                }
            }
        }
        None
    }
    fn cons_ok(&mut self, ar: &mut Arena, pc: &Pc, m: &[u64], touched: u128) -> bool {
        ar.new_eval();
        for k in &pc.cons {
            if ar.n(*k).vars & touched != 0 && ar.ev(*k, m) == 0 {
                return false;
            }
        }
        true
    }
    /// Z3: path (the slice connected with `extra`) ∧ extra.
    pub fn z3check(&mut self, ar: &mut Arena, pc: &Pc, extra: &[Id]) -> Option<Vec<u64>> {
        let mut vars = 0u128;
        for e in extra {
            vars |= ar.n(*e).vars;
        }
        let all = extra.is_empty();
        if all {
            vars = if pc.vars.len() == 128 { u128::MAX } else { (1u128 << pc.vars.len()) - 1 };
        }
        let mut used = vec![false; pc.cons.len()];
        loop {
            let mut ch = false;
            for (i, k) in pc.cons.iter().enumerate() {
                let kv = ar.n(*k).vars;
                if !used[i] && kv & vars & !pc.single != 0 {
                    used[i] = true;
                    vars |= kv;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut cons: Vec<Id> = pc.cons.iter().zip(used.iter()).filter(|(_, u)| **u).map(|(c, _)| *c).collect();
        cons.extend_from_slice(extra);
        let mut doms = vec![];
        let mut seqs = vec![];
        for s in 0..pc.vars.len() {
            if vars >> s & 1 == 1 {
                seqs.push(s);
                doms.push((pc.vars[s], pc.doms[s].ranges()));
            }
        }
        let t0 = std::time::Instant::now();
        let (r, vals) = self.z3().check(ar, &doms, &cons);
        self.stats.z3_us += t0.elapsed().as_micros() as u64;
        self.stats.z3_queries += 1;
        match r {
            Res::Sat => {
                self.stats.z3_sat += 1;
                let mut m = pc.model.clone();
                for (s, v) in seqs.iter().zip(vals) {
                    m[*s] = v;
                }
                // the model must satisfy what was asked (checks the translation)
                ar.new_eval();
                for k in &cons {
                    if ar.ev(*k, &m) != 1 {
                        self.mismatch = Some(format!("z3 model does not satisfy {}", ar.show(*k, 10)));
                    }
                }
                Some(m)
            }
            Res::Unsat => {
                self.stats.z3_unsat += 1;
                None
            }
            Res::Unknown => {
                self.stats.z3_unknown += 1;
                self.unknown = true;
                None
            }
        }
    }
}

fn flat_and(ar: &mut Arena, c: Id, out: &mut Vec<Id>) {
    let n = *ar.n(c);
    if n.op == Op::And && n.w == 1 {
        flat_and(ar, n.a, out);
        flat_and(ar, n.b, out);
        return;
    }
    if n.op == Op::Xor && n.w == 1 && ar.is_const(n.b) == Some(1) {
        let m = *ar.n(n.a);
        if m.op == Op::Or {
            let x = ar.not(m.a);
            let y = ar.not(m.b);
            flat_and(ar, x, out);
            flat_and(ar, y, out);
            return;
        }
    }
    out.push(c);
}
