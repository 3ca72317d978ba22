//! Symbolic interpreter over the lowered IR.
use crate::ext;
use crate::expr::{mask, mask64, sx, Arena, Id, Op};
use crate::ir::*;
use crate::mem::{Fault, Mem};
use crate::solver::{Dom, Pc, Solver};
use std::collections::HashMap;

pub const HEAP: u64 = 0x0400_0000;
pub const HEAP_END: u64 = 0x1c00_0000;
pub const STACK_TOP: u64 = 0x2000_0000;
pub const STACK_LOW: u64 = 0x1e00_0000;
pub const CTX_STACK: u64 = 0x0040_0000;
pub const CTX_MAX: usize = 8;
pub const LIMIT: u64 = 0x2000_0000;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub base: u32,
    pub dst: u32,
    pub sp: u64,
    pub va: u64,
    pub uid: u32,
}

/// A thread of control which does not run now.
#[derive(Clone)]
pub struct Ctx {
    pub regs: Vec<Val>,
    pub frames: Vec<Frame>,
    pub f: &'static Func,
    pub pc: u32,
    pub base: usize,
    pub sp: u64,
    pub va: u64,
    pub uid: u32,
}

#[derive(Clone)]
pub struct Jmp {
    pub depth: usize,
    pub uid: u32,
    pub f: &'static Func,
    pub pc: u32,
    pub dst: u32,
    pub sp: u64,
}

#[derive(Clone)]
pub struct FileObj {
    pub path: String,
    pub pos: u64,
    pub eof: bool,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub regs: Vec<Val>,
    pub frames: Vec<Frame>, // callers
    pub f: &'static Func,
    pub pc: u32,
    pub base: usize,
    pub sp: u64,
    pub va: u64,
    pub uid: u32,
    pub next_uid: u32,
    pub brk: u64,
    pub free: [u64; 96],
    pub guarded: bool,
    pub p: Pc,
    pub inputs: Vec<Id>, // what a replay needs, in order
    pub obs: Vec<Vec<(u8, Id)>>,
    pub jmp: HashMap<u64, Jmp>,
    pub vfs: std::rc::Rc<HashMap<String, Vec<(u8, Id)>>>,
    pub fds: Vec<Option<FileObj>>,
    pub forced: Option<(Id, bool)>,
    pub insns: u64,
    pub forks: u32,
    pub covers: Vec<u32>,
    pub clock: u64,
    pub dirs: Vec<(Vec<String>, usize)>,
    pub ctxs: Vec<Ctx>, // the others keep their place, the current one's is stale
    pub cur: usize,
}

/// The stack of a thread of control: its lowest address and its end.
pub fn stack_of(k: usize) -> (u64, u64) {
    if k == 0 {
        (STACK_LOW, STACK_TOP)
    } else {
        (HEAP_END + CTX_STACK * (k as u64 - 1), HEAP_END + CTX_STACK * k as u64)
    }
}

pub enum Stop {
    Done,
    Discard,
    Violation(String, String), // kind, message
    Fatal(String),             // engine limitation
}

impl From<Fault> for Stop {
    fn from(_: Fault) -> Stop {
        Stop::Violation("fault".into(), "memory fault".into())
    }
}

pub type R<T> = Result<T, Stop>;

#[derive(Default)]
pub struct Counters {
    pub paths: u64,
    pub discarded: u64,
    pub insns: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub concretized: u64,
}

pub struct Engine {
    pub m: Module,
    pub ar: Arena,
    pub so: Solver,
    pub work: Vec<State>,
    pub c: Counters,
    pub exts: Vec<ext::ExtFn>,
    pub covers: HashMap<String, u64>,
    pub cover_names: Vec<String>,
    pub asserts_seen: HashMap<String, (u64, u64)>,
    pub violations: Vec<Violation>,
    pub max_insns: u64,
    pub trace: bool,
    pub prof: HashMap<String, u64>,
    pub profile: bool,
    pub samples: Vec<(Vec<(u16, u64)>, u64)>,
    pub sample_max: usize,
    pub vcount: HashMap<String, u64>,
    pub fault_addr: u64,
    pub env: ext::Env,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u16, u64)>,
    pub stack: Vec<String>,
}

#[inline(always)]
fn reg(st: &State, f: &Func, o: i32) -> Val {
    unsafe {
        if o >= 0 {
            *st.regs.get_unchecked(st.base + o as usize)
        } else {
            *f.consts.get_unchecked((-o - 1) as usize)
        }
    }
}

impl Engine {
    pub fn ex(&mut self, v: Val, w: u16) -> Id {
        match v {
            Val::I(x) => self.ar.cst(x as u128, w),
            Val::S(e) => e,
        }
    }
    pub fn val(&self, e: Id) -> Val {
        let n = self.ar.n(e);
        if n.op == Op::Const && n.w <= 64 {
            Val::I(n.k as u64)
        } else {
            Val::S(e)
        }
    }
    /// Decide a boolean; forks the state when both sides are feasible.
    pub fn decide(&mut self, st: &mut State, c: Id) -> R<bool> {
        if let Some(v) = self.ar.is_const(c) {
            return Ok(v == 1);
        }
        if let Some((e, b)) = st.forced {
            if e == c {
                st.forced = None;
                return Ok(b);
            }
        }
        let v = self.ar.eval(c, &st.p.model) == 1;
        let nc = self.ar.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        if let Some(m) = self.so.feasible(&mut self.ar, &st.p, other) {
            let mut o = st.clone();
            o.p.model = m;
            self.so.assume(&mut self.ar, &mut o.p, other);
            o.forced = Some((c, !v));
            o.forks += 1;
            st.forks += 1;
            self.c.forks += 1;
            self.note_fork(st);
            self.work.push(o);
        }
        self.chk()?;
        self.so.assume(&mut self.ar, &mut st.p, mine);
        Ok(v)
    }
    fn note_fork(&mut self, st: &State) {
        if self.profile {
            let n = self.m.funcs[st.f.idx as usize].name.clone();
            let caller = st.frames.last().map(|f| self.m.funcs[f.f.idx as usize].name.clone()).unwrap_or_default();
            *self.prof.entry(format!("{} <- {}", n, caller)).or_default() += 1;
        }
    }
    pub fn chk(&self) -> R<()> {
        if self.so.unknown {
            return Err(Stop::Fatal("solver returned unknown (timeout)".into()));
        }
        if let Some(m) = &self.so.mismatch {
            return Err(Stop::Fatal(format!("internal: {}", m)));
        }
        Ok(())
    }
    /// Fix a value; other feasible values are explored by clones re-executing the instruction.
    pub fn conc(&mut self, st: &mut State, v: Val, _w: u16) -> R<u64> {
        let e = match v {
            Val::I(x) => return Ok(x),
            Val::S(e) => e,
        };
        let w = self.ar.w(e);
        if self.ar.n(e).vars & !st.p.single == 0 {
            return Ok(self.ar.eval(e, &st.p.model) as u64);
        }
        let x = self.ar.eval(e, &st.p.model);
        let k = self.ar.cst(x, w);
        let eq = self.ar.eq(e, k);
        let ne = self.ar.not(eq);
        if let Some(m) = self.so.feasible(&mut self.ar, &st.p, ne) {
            let mut o = st.clone();
            o.p.model = m;
            self.so.assume(&mut self.ar, &mut o.p, ne);
            o.forced = None;
            o.forks += 1;
            st.forks += 1;
            self.c.forks += 1;
            self.c.concretized += 1;
            self.note_fork(st);
            self.work.push(o);
        }
        self.chk()?;
        self.so.assume(&mut self.ar, &mut st.p, eq);
        Ok(x as u64)
    }
    pub fn conc128(&mut self, st: &mut State, v: Val) -> R<u128> {
        match v {
            Val::I(x) => Ok(x as u128),
            Val::S(e) => {
                if let Some(k) = self.ar.is_const(e) {
                    return Ok(k);
                }
                self.conc(st, v, 128).map(|_| self.ar.eval(e, &st.p.model))
            }
        }
    }
    pub fn assume(&mut self, st: &mut State, c: Id) -> R<()> {
        if let Some(v) = self.ar.is_const(c) {
            return if v == 1 { Ok(()) } else { Err(Stop::Discard) };
        }
        match self.so.feasible(&mut self.ar, &st.p, c) {
            Some(m) => {
                self.chk()?;
                st.p.model = m;
                self.so.assume(&mut self.ar, &mut st.p, c);
                Ok(())
            }
            None => {
                self.chk()?;
                Err(Stop::Discard)
            }
        }
    }
    /// Property assertion: the solver decides whether it can fail here.
    pub fn assert(&mut self, st: &mut State, c: Id, tag: &str) -> R<()> {
        self.c.asserts += 1;
        let n = self.asserts_seen.entry(tag.to_string()).or_default();
        n.0 += 1;
        match self.ar.is_const(c) {
            Some(1) => return Ok(()),
            Some(_) => return Err(Stop::Violation("assert".into(), tag.to_string())),
            None => {}
        }
        self.asserts_seen.get_mut(tag).unwrap().1 += 1;
        self.c.asserts_sym += 1;
        let nc = self.ar.not(c);
        // the verdict on a property always comes from the SMT solver
        if let Some(m) = self.so.z3check(&mut self.ar, &st.p, &[nc]) {
            self.chk()?;
            self.violation(st, &m, "assert", tag);
        }
        self.chk()?;
        self.assume(st, c)
    }
    pub fn fresh(&mut self, st: &mut State, w: u16, lo: u64, hi: u64) -> Val {
        let v = st.p.fresh(&mut self.ar, w, lo, hi);
        st.inputs.push(v);
        if lo == hi {
            return Val::I(lo);
        }
        Val::S(v)
    }
    pub fn input_values(&mut self, st: &State, model: &[u64]) -> Vec<(u16, u64)> {
        st.inputs.iter().map(|v| (self.ar.w(*v), model[self.ar.var_seq(*v)])).collect()
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut r = vec![self.m.funcs[st.f.idx as usize].name.clone()];
        for f in st.frames.iter().rev() {
            r.push(self.m.funcs[f.f.idx as usize].name.clone());
        }
        r
    }
    pub fn violation(&mut self, st: &State, model: &[u64], kind: &str, msg: &str) {
        let key = format!("{}:{}", kind, msg);
        let n = self.vcount.entry(key).or_default();
        *n += 1;
        if *n > 3 {
            return;
        }
        let inputs = self.input_values(st, model);
        let stack = self.backtrace(st);
        self.violations.push(Violation { kind: kind.into(), msg: msg.into(), inputs, stack });
    }

    // ---------------- memory ----------------
    pub fn load(&mut self, st: &mut State, addr: u64, w: u16) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        if n <= 8 {
            match st.mem.read(addr, n) {
                Ok(Some(v)) => return Ok(Val::I(v & mask64(w))),
                Ok(None) => {}
                Err(_) => {
                    self.fault_addr = addr;
                    return Err(Stop::Violation("fault".into(), format!("invalid read at {:#x}", addr)));
                }
            }
        }
        let mut acc: Option<Id> = None;
        for k in 0..n {
            let (b, s) = st.mem.byte(addr + k as u64)?;
            let e = if s != 0 { s } else { self.ar.cst(b as u128, 8) };
            acc = Some(match acc {
                None => e,
                Some(a) => self.ar.concat(e, a),
            });
        }
        let mut e = acc.unwrap();
        if (n * 8) as u16 != w {
            e = self.ar.extract(e, 0, w);
        }
        Ok(self.val(e))
    }
    pub fn store(&mut self, st: &mut State, addr: u64, v: Val, w: u16) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        match v {
            Val::I(x) if n <= 8 => st.mem.write(addr, n, x).map_err(|_| Stop::Violation("fault".into(), format!("invalid write at {:#x}", addr))),
            _ => {
                let mut e = self.ex(v, w);
                if (n * 8) as u16 != w {
                    e = self.ar.zext(e, (n * 8) as u16);
                }
                for k in 0..n {
                    let b = self.ar.extract(e, (k * 8) as u16, 8);
                    match self.ar.is_const(b) {
                        Some(c) => st.mem.wbyte(addr + k as u64, c as u8, 0)?,
                        None => st.mem.wbyte(addr + k as u64, 0, b)?,
                    }
                }
                Ok(())
            }
        }
    }
    /// Load through a symbolic address: a lookup table when the address depends
    /// on one small input and the contents are concrete; otherwise case split.
    fn load_sym(&mut self, st: &mut State, a: Id, w: u16) -> R<Val> {
        let eff = self.ar.n(a).vars & !st.p.single;
        if eff.count_ones() == 1 && w < 64 {
            let s = eff.trailing_zeros() as usize;
            if let Dom::Bits { lo, b } = st.p.doms[s] {
                let hi = self.ar.var_info(st.p.vars[s]).hi;
                let mut t = vec![0u64; (hi - lo + 1) as usize];
                let mut env = st.p.model.clone();
                let mut ok = true;
                let mut last = 0;
                let mut have = vec![false; t.len()];
                for i in crate::solver::bits(&b) {
                    env[s] = lo + i as u64;
                    let addr = self.ar.eval(a, &env) as u64;
                    match st.mem.read(addr, ((w + 7) / 8) as usize) {
                        Ok(Some(v)) => {
                            t[i] = v & mask64(w);
                            have[i] = true;
                            last = t[i];
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    for i in 0..t.len() {
                        if !have[i] {
                            t[i] = last;
                        }
                    }
                    let var = st.p.vars[s];
                    let e = self.ar.lut(var, t, w);
                    return Ok(self.val(e));
                }
            }
        }
        let x = self.conc(st, Val::S(a), 64)?;
        self.load(st, x, w)
    }

    // ---------------- heap ----------------
    fn class(n: u64) -> (usize, u64) {
        if n <= 1024 {
            let k = ((n + 15) / 16).max(1);
            (k as usize, k * 16)
        } else {
            let p = n.next_power_of_two();
            (54 + p.trailing_zeros() as usize, p)
        }
    }
    pub fn malloc(&mut self, st: &mut State, n: u64, align: u64) -> R<u64> {
        if st.guarded {
            let pages = (n.max(1) + 4095) / 4096 + 1;
            let start = (st.brk + 4095) & !4095;
            let end = start + pages * 4096;
            st.brk = end + 4096;
            if st.brk > HEAP_END {
                return Err(Stop::Fatal("heap exhausted".into()));
            }
            st.mem.map(start, pages * 4096);
            let mut a = 1u64;
            while a < 16 && n % (a * 2) == 0 {
                a *= 2;
            }
            let a = a.max(align);
            let p = (end - n.max(1)) & !(a - 1);
            // bookkeeping in the first page: size at its start
            let hp = p & !4095;
            let hdr = if hp >= start + 4096 { hp - 4096 } else { start };
            let _ = hdr;
            st.mem.write(start, 8, n)?;
            st.mem.write(start + 8, 8, pages)?;
            // remember the start of the block just below the guard: use jmp-like table
            let vfs = std::rc::Rc::make_mut(&mut st.vfs);
            vfs.insert(format!("\0blk{:x}", p), vec![((start >> 12) as u8, (start >> 12) as Id)]);
            return Ok(p);
        }
        if n > HEAP_END {
            return Err(Stop::Violation("alloc".into(), format!("allocation of {} bytes", n)));
        }
        if align > 16 {
            // over-aligned: never reused
            let p = (st.brk + 16 + align - 1) & !(align - 1);
            let end = p + n;
            if end > HEAP_END {
                return Err(Stop::Fatal("heap exhausted".into()));
            }
            st.mem.map(st.brk, end + 4096 - st.brk);
            st.mem.write(p - 8, 8, n)?;
            st.mem.write(p - 16, 8, 95)?;
            st.brk = (end + 15) & !15;
            return Ok(p);
        }
        let (cl, sz) = Self::class(n);
        let p = st.free[cl];
        if p != 0 {
            st.free[cl] = st.mem.read(p, 8)?.expect("free list");
            st.mem.write(p - 8, 8, n)?;
            return Ok(p);
        }
        let p = st.brk + 16;
        st.brk = p + sz;
        if st.brk > HEAP_END {
            return Err(Stop::Fatal("heap exhausted".into()));
        }
        st.mem.map(p - 16, sz + 16);
        st.mem.write(p - 16, 8, cl as u64)?;
        st.mem.write(p - 8, 8, n)?;
        Ok(p)
    }
    pub fn block_size(&self, st: &State, p: u64) -> R<u64> {
        if let Some(b) = st.vfs.get(&format!("\0blk{:x}", p)) {
            let start = (b[0].1 as u64) << 12;
            return Ok(st.mem.read(start, 8)?.unwrap());
        }
        Ok(st.mem.read(p - 8, 8)?.expect("size"))
    }
    pub fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        if let Some(b) = st.vfs.get(&format!("\0blk{:x}", p)) {
            let start = (b[0].1 as u64) << 12;
            let pages = st.mem.read(start + 8, 8)?.unwrap();
            st.mem.unmap(start, pages * 4096);
            std::rc::Rc::make_mut(&mut st.vfs).remove(&format!("\0blk{:x}", p));
            return Ok(());
        }
        if p < HEAP || p >= HEAP_END {
            return Err(Stop::Violation("fault".into(), format!("free of {:#x}", p)));
        }
        let cl = st.mem.read(p - 16, 8)?.expect("class") as usize;
        if cl == 95 {
            return Ok(());
        }
        if cl > 95 {
            return Err(Stop::Violation("fault".into(), "double or invalid free".into()));
        }
        let n = st.free[cl];
        st.mem.write(p, 8, n)?;
        st.free[cl] = p;
        Ok(())
    }

    // ---------------- expressions over values ----------------
    fn bin(&mut self, op: Op, w: u16, a: Val, b: Val) -> Val {
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.ar.bin(op, x, y);
        self.val(e)
    }

    fn enter(&mut self, st: &mut State, fi: u32, dst: u32, args: &[Val], ws: &[u16]) -> R<()> {
        let f = match self.m.funcs[fi as usize].compiled.get() {
            Some(f) => f,
            None => self.m.compile(&mut self.ar, fi),
        };
        self.m.funcs[fi as usize].executed.set(true);
        if st.frames.len() > 3000 {
            return Err(Stop::Violation("stack".into(), "call depth".into()));
        }
        let mut va = 0;
        let np = f.nparams as usize;
        if f.vararg && args.len() > np {
            let n = (args.len() - np) as u64;
            let a = (st.sp - n * 8) & !15;
            self.ensure_stack(st, a)?;
            for i in 0..n as usize {
                let v = args[np + i];
                let w = ws[np + i];
                let v = match v {
                    Val::I(x) => Val::I(x),
                    Val::S(e) => Val::S(self.ar.zext(e, 64.max(w))),
                };
                self.store(st, a + 8 * i as u64, v, 64)?;
            }
            va = a;
        }
        let new_sp = if va != 0 { va } else { st.sp };
        st.frames.push(Frame { f: st.f, pc: st.pc, base: st.base as u32, dst, sp: st.sp, va: st.va, uid: st.uid });
        st.sp = new_sp;
        st.va = va;
        st.next_uid += 1;
        st.uid = st.next_uid;
        let base = st.base + st.f.nregs as usize;
        st.regs.resize(base + f.nregs as usize, Val::I(0));
        let k = np.min(args.len());
        st.regs[base..base + k].copy_from_slice(&args[..k]);
        st.base = base;
        st.f = f;
        st.pc = 0;
        Ok(())
    }
    /// A thread of control which starts with a function of one argument, once switched to.
    pub fn spawn(&mut self, st: &mut State, fi: u32, arg: u64) -> R<u64> {
        let here = self.context(st);
        if st.ctxs.is_empty() {
            st.ctxs.push(here);
        }
        let k = st.ctxs.len();
        if k > CTX_MAX {
            return Err(Stop::Fatal("too many threads of control".into()));
        }
        let f = match self.m.funcs[fi as usize].compiled.get() {
            Some(f) => f,
            None => self.m.compile(&mut self.ar, fi),
        };
        self.m.funcs[fi as usize].executed.set(true);
        let mut regs = vec![Val::I(0); f.nregs as usize];
        regs[0] = Val::I(arg);
        let top = stack_of(k).1;
        st.mem.map(top - 0x4000, 0x4000);
        st.next_uid += 1;
        st.ctxs.push(Ctx { regs, frames: vec![], f, pc: 0, base: 0, sp: top - 256, va: 0, uid: st.next_uid });
        Ok(k as u64)
    }
    fn context(&mut self, st: &mut State) -> Ctx {
        Ctx { regs: vec![], frames: vec![], f: st.f, pc: st.pc, base: st.base, sp: st.sp, va: st.va, uid: st.uid }
    }
    /// Goes on with another thread of control; this one goes on after the call when switched to.
    pub fn switch(&mut self, st: &mut State, k: usize) -> R<()> {
        if k >= st.ctxs.len() {
            return Err(Stop::Fatal("no such thread of control".into()));
        }
        if k == st.cur {
            st.pc += 1;
            return Ok(());
        }
        let mut here = self.context(st);
        here.pc = st.pc + 1;
        here.regs = std::mem::take(&mut st.regs);
        here.frames = std::mem::take(&mut st.frames);
        st.ctxs[st.cur] = here;
        let c = &mut st.ctxs[k];
        st.regs = std::mem::take(&mut c.regs);
        st.frames = std::mem::take(&mut c.frames);
        st.f = c.f;
        st.pc = c.pc;
        st.base = c.base;
        st.sp = c.sp;
        st.va = c.va;
        st.uid = c.uid;
        st.cur = k;
        Ok(())
    }
    pub fn ensure_stack(&mut self, st: &mut State, a: u64) -> R<()> {
        let (low, top) = stack_of(st.cur);
        if a < low {
            return Err(Stop::Violation("stack".into(), "stack overflow".into()));
        }
        let mut p = a & !4095;
        while !st.mem.mapped(p) {
            st.mem.map(p, 1);
            p += 4096;
            if p >= top {
                break;
            }
        }
        Ok(())
    }

    pub fn initial(&mut self, entry: u32, args: &[u64]) -> State {
        let mut mem = Mem::new(LIMIT);
        // globals
        let gend = self.m.gend;
        mem.map(GBASE, gend - GBASE + 64);
        for i in 0..self.m.globals.len() {
            let (addr, ty, init) = {
                let g = &self.m.globals[i];
                (g.addr, g.ty, g.init)
            };
            if init == 0 {
                continue;
            }
            let size = self.m.info(ty).size as usize;
            let mut buf = vec![0u8; size];
            self.m.write_init(init, ty, &mut buf);
            let _ = mem.put(addr, &buf);
        }
        mem.map(STACK_TOP - 0x4000, 0x4000);
        let f = self.m.compile(&mut self.ar, entry);
        let mut st = State {
            mem,
            regs: vec![],
            frames: vec![],
            f,
            pc: 0,
            base: 0,
            sp: STACK_TOP - 256,
            va: 0,
            uid: 1,
            next_uid: 1,
            brk: HEAP,
            free: [0; 96],
            guarded: false,
            p: Pc::new(),
            inputs: vec![],
            obs: vec![],
            jmp: HashMap::new(),
            vfs: std::rc::Rc::new(environment()),
            fds: vec![],
            forced: None,
            insns: 0,
            forks: 0,
            covers: vec![],
            clock: 1,
            dirs: vec![],
            ctxs: vec![],
            cur: 0,
        };
        st.regs.resize(f.nregs as usize, Val::I(0));
        for (i, a) in args.iter().enumerate() {
            st.regs[i] = Val::I(*a);
        }
        ext::setup(self, &mut st);
        st
    }

    fn goto(&mut self, st: &mut State, f: &'static Func, e: u32) -> u32 {
        let e = unsafe { f.edges.get_unchecked(e as usize) };
        match e.moves.len() {
            0 => {}
            1 => {
                let (d, s) = e.moves[0];
                let v = reg(st, f, s);
                let b = st.base;
                st.regs[b + d as usize] = v;
            }
            n => {
                let mut buf = [Val::I(0); 16];
                let b = st.base;
                if n <= 16 {
                    for (i, (_, s)) in e.moves.iter().enumerate() {
                        buf[i] = reg(st, f, *s);
                    }
                    for (i, (d, _)) in e.moves.iter().enumerate() {
                        st.regs[b + *d as usize] = buf[i];
                    }
                } else {
                    let v: Vec<Val> = e.moves.iter().map(|(_, s)| reg(st, f, *s)).collect();
                    for (i, (d, _)) in e.moves.iter().enumerate() {
                        st.regs[b + *d as usize] = v[i];
                    }
                }
            }
        }
        e.pc
    }

    /// Run a state until its path ends. Forked states go to self.work.
    pub fn run(&mut self, st: &mut State) -> Stop {
        match self.run_inner(st) {
            Ok(()) => Stop::Done,
            Err(s) => s,
        }
    }

    fn run_inner(&mut self, st: &mut State) -> R<()> {
        let mut f = st.f;
        let mut pc = st.pc as usize;
        let mut icount: u64 = 0;
        macro_rules! g {
            ($o:expr) => {
                reg(st, f, $o)
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let i = st.base + $d as usize;
                unsafe {
                    *st.regs.get_unchecked_mut(i) = v;
                }
            }};
        }
        loop {
            let u = unsafe { f.code.get_unchecked(pc) };
            // st.pc always names the current instruction (clones re-execute it)
            st.pc = pc as u32;
            pc += 1;
            icount += 1;
            if icount & 0xfff == 0 {
                st.insns += 0x1000;
                self.c.insns += 0x1000;
                if st.insns > self.max_insns {
                    return Err(Stop::Violation("hang".into(), format!("no result after {} instructions", st.insns)));
                }
            }
            if self.trace {
                let n = (f.nregs as usize).min(24);
                let rs: Vec<String> = (0..n).map(|k| match st.regs[st.base + k] { Val::I(x) => format!("{:x}", x), Val::S(e) => self.ar.show(e, 3) }).collect();
                eprintln!("{} {}: {:?}   | {}", ext::short_name(&self.m.funcs[f.idx as usize].name), pc - 1, u, rs.join(" "));
            }
            match u {
                U::Bin { op, w, dst, a, b } => {
                    let (x, y) = (g!(*a), g!(*b));
                    let r = match (x, y) {
                        (Val::I(x), Val::I(y)) if *w <= 64 => {
                            let m = mask64(*w);
                            Val::I(match op {
                                Op::Add => x.wrapping_add(y) & m,
                                Op::And => x & y,
                                Op::Or => x | y,
                                Op::Xor => x ^ y,
                                Op::Mul => x.wrapping_mul(y) & m,
                                Op::Shl => {
                                    if y >= *w as u64 {
                                        0
                                    } else {
                                        (x << y) & m
                                    }
                                }
                                Op::LShr => {
                                    if y >= *w as u64 {
                                        0
                                    } else {
                                        x >> y
                                    }
                                }
                                Op::UDiv | Op::URem | Op::SDiv | Op::SRem => {
                                    if y == 0 {
                                        return Err(Stop::Violation("fault".into(), "division by zero".into()));
                                    }
                                    crate::expr::ev_bin(*op, *w, x as u128, y as u128) as u64
                                }
                                _ => crate::expr::ev_bin(*op, *w, x as u128, y as u128) as u64,
                            })
                        }
                        _ => {
                            if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                                if let Val::S(_) = y {
                                    let e = self.ex(y, *w);
                                    let z = self.ar.cst(0, *w);
                                    let c = self.ar.eq(e, z);
                                    if self.decide(st, c)? {
                                        return Err(Stop::Violation("fault".into(), "division by zero".into()));
                                    }
                                }
                            }
                            self.bin(*op, *w, x, y)
                        }
                    };
                    set!(*dst, r);
                }
                U::Sub { w, dst, a, b } => {
                    let r = match (g!(*a), g!(*b)) {
                        (Val::I(x), Val::I(y)) => Val::I(x.wrapping_sub(y) & mask64(*w)),
                        (x, y) => {
                            let x = self.ex(x, *w);
                            let y = self.ex(y, *w);
                            let e = self.ar.sub(x, y);
                            self.val(e)
                        }
                    };
                    set!(*dst, r);
                }
                U::Cmp { op, neg, w, dst, a, b } => {
                    let r = match (g!(*a), g!(*b)) {
                        (Val::I(x), Val::I(y)) => {
                            let r = match op {
                                Op::Eq => x == y,
                                Op::Ult => x < y,
                                Op::Ule => x <= y,
                                _ => {
                                    let (x, y) = if *w == 64 {
                                        (x as i64, y as i64)
                                    } else {
                                        (sx(x as u128, *w) as i64, sx(y as u128, *w) as i64)
                                    };
                                    if *op == Op::Slt {
                                        x < y
                                    } else {
                                        x <= y
                                    }
                                }
                            };
                            Val::I((r ^ *neg) as u64)
                        }
                        (x, y) => {
                            let x = self.ex(x, *w);
                            let y = self.ex(y, *w);
                            let mut e = self.ar.bin(*op, x, y);
                            if *neg {
                                e = self.ar.not(e);
                            }
                            self.val(e)
                        }
                    };
                    set!(*dst, r);
                }
                U::Sel { w, dst, c, a, b } => {
                    let r = match g!(*c) {
                        Val::I(c) => {
                            if c & 1 == 1 {
                                g!(*a)
                            } else {
                                g!(*b)
                            }
                        }
                        Val::S(c) => {
                            let (x, y) = (g!(*a), g!(*b));
                            let x = self.ex(x, *w);
                            let y = self.ex(y, *w);
                            if *w == 64 && self.ar.is_const(x).map(|v| v > 0xffff).unwrap_or(false) && x != y {
                                // choosing between addresses: split the path
                                if self.decide(st, c)? {
                                    self.val(x)
                                } else {
                                    self.val(y)
                                }
                            } else {
                                let e = self.ar.ite(c, x, y);
                                self.val(e)
                            }
                        }
                    };
                    set!(*dst, r);
                }
                U::Mov { dst, a } => {
                    let v = g!(*a);
                    set!(*dst, v);
                }
                U::ZExt { dst, a, w } => {
                    let r = match g!(*a) {
                        Val::I(x) if *w <= 64 => Val::I(x),
                        Val::I(x) => Val::S(self.ar.cst(x as u128, *w)),
                        Val::S(e) => {
                            let e = self.ar.zext(e, *w);
                            self.val(e)
                        }
                    };
                    set!(*dst, r);
                }
                U::SExt { dst, a, sw, w } => {
                    let r = match g!(*a) {
                        Val::I(x) if *w <= 64 => Val::I(sx(x as u128, *sw) as u64 & mask64(*w)),
                        v => {
                            let e = self.ex(v, *sw);
                            let e = self.ar.sext(e, *w);
                            self.val(e)
                        }
                    };
                    set!(*dst, r);
                }
                U::Bits { dst, a, sw: _, lo, w } => {
                    let r = match g!(*a) {
                        Val::I(x) => Val::I((x >> *lo) & mask64(*w)),
                        Val::S(e) => {
                            let e = self.ar.extract(e, *lo, *w);
                            self.val(e)
                        }
                    };
                    set!(*dst, r);
                }
                U::Pack { dst, parts } => {
                    let total: u16 = parts.iter().map(|p| p.1).sum();
                    let mut all = true;
                    let mut acc = 0u64;
                    let mut sh = 0;
                    if total <= 64 {
                        for (o, w) in parts.iter() {
                            match g!(*o) {
                                Val::I(x) => acc |= x << sh,
                                _ => {
                                    all = false;
                                    break;
                                }
                            }
                            sh += w;
                        }
                    } else {
                        all = false;
                    }
                    let r = if all {
                        Val::I(acc)
                    } else {
                        let mut e: Option<Id> = None;
                        for (o, w) in parts.iter() {
                            let v = g!(*o);
                            let x = self.ex(v, *w);
                            e = Some(match e {
                                None => x,
                                Some(l) => self.ar.concat(x, l),
                            });
                        }
                        self.val(e.unwrap())
                    };
                    set!(*dst, r);
                }
                U::Load { dst, addr, off, w } => {
                    let v = match g!(*addr) {
                        Val::I(a) => {
                            let a = a.wrapping_add(*off as u64);
                            match w {
                                64 | 32 | 8 | 16 => match st.mem.read(a, (*w / 8) as usize) {
                                    Ok(Some(v)) => Val::I(v),
                                    _ => self.load(st, a, *w)?,
                                },
                                _ => self.load(st, a, *w)?,
                            }
                        }
                        Val::S(e) => {
                            let o = self.ar.cst(*off as u128, 64);
                            let e = self.ar.add(e, o);
                            self.load_sym(st, e, *w)?
                        }
                    };
                    set!(*dst, v);
                }
                U::Store { v, addr, off, w } => {
                    let a = match g!(*addr) {
                        Val::I(a) => a,
                        s => self.conc(st, s, 64)?,
                    }
                    .wrapping_add(*off as u64);
                    let v = g!(*v);
                    self.store(st, a, v, *w)?;
                }
                U::Gep0 { dst, base, off } => {
                    let r = match g!(*base) {
                        Val::I(b) => Val::I(b.wrapping_add(*off as u64)),
                        Val::S(e) => {
                            let o = self.ar.cst(*off as u64 as u128, 64);
                            let e = self.ar.add(e, o);
                            self.val(e)
                        }
                    };
                    set!(*dst, r);
                }
                U::Gep { dst, base, off, idx, iw, scale } => {
                    let r = match (g!(*base), g!(*idx)) {
                        (Val::I(b), Val::I(i)) => {
                            let i = if *iw == 64 { i } else { sx(i as u128, *iw) as u64 };
                            Val::I(b.wrapping_add(*off as u64).wrapping_add(i.wrapping_mul(*scale as u64)))
                        }
                        (b, i) => {
                            let b = self.ex(b, 64);
                            let mut i = self.ex(i, *iw);
                            if *iw < 64 {
                                i = self.ar.sext(i, 64);
                            }
                            let s = self.ar.cst(*scale as u64 as u128, 64);
                            let m = self.ar.mul(i, s);
                            let o = self.ar.cst(*off as u64 as u128, 64);
                            let x = self.ar.add(b, m);
                            let e = self.ar.add(x, o);
                            self.val(e)
                        }
                    };
                    set!(*dst, r);
                }
                U::Alloca { dst, size, align } => {
                    let a = (st.sp - *size as u64) & !(*align as u64 - 1);
                    st.sp = a;
                    self.ensure_stack(st, a)?;
                    set!(*dst, Val::I(a));
                }
                U::AllocaDyn { dst, n, size, align } => {
                    let v = g!(*n);
                    let n = self.conc(st, v, 64)?;
                    let a = (st.sp - *size as u64 * n) & !((*align).max(16) as u64 - 1);
                    st.sp = a;
                    self.ensure_stack(st, a)?;
                    set!(*dst, Val::I(a));
                }
                U::Br { e } => pc = self.goto(st, f, *e) as usize,
                U::CBr { c, t, f: fe } => {
                    let b = match g!(*c) {
                        Val::I(x) => x & 1 == 1,
                        Val::S(e) => self.decide(st, e)?,
                    };
                    pc = self.goto(st, f, if b { *t } else { *fe }) as usize;
                }
                U::Switch { w, v, def, cases } => {
                    let v = g!(*v);
                    let mut e = *def;
                    match v {
                        Val::I(x) => {
                            for (k, t) in cases.iter() {
                                if *k == x as u128 {
                                    e = *t;
                                    break;
                                }
                            }
                        }
                        Val::S(x) => {
                            // group the cases by target: one decision per target
                            let mut groups: Vec<(u32, Id)> = vec![];
                            for (k, t) in cases.iter() {
                                let kk = self.ar.cst(*k, *w);
                                let c = self.ar.eq(x, kk);
                                let tpc = f.edges[*t as usize].pc;
                                let plain = f.edges[*t as usize].moves.is_empty();
                                match groups.iter_mut().find(|g| plain && f.edges[g.0 as usize].pc == tpc && f.edges[g.0 as usize].moves.is_empty()) {
                                    Some(g) => g.1 = self.ar.or(g.1, c),
                                    None => groups.push((*t, c)),
                                }
                            }
                            for (t, c) in groups {
                                if self.decide(st, c)? {
                                    e = t;
                                    break;
                                }
                            }
                        }
                    }
                    pc = self.goto(st, f, e) as usize;
                }
                U::Ret { ops } => {
                    let fr = match st.frames.pop() {
                        Some(f) => f,
                        None if st.cur != 0 => return Err(Stop::Fatal("a thread of control returned".into())),
                        None => {
                            st.insns += icount & 0xfff;
                            self.c.insns += icount & 0xfff;
                            return Ok(());
                        }
                    };
                    let nb = fr.base as usize + fr.dst as usize;
                    for (i, o) in ops.iter().enumerate() {
                        let v = g!(*o);
                        st.regs[nb + i] = v;
                    }
                    st.regs.truncate(fr.base as usize + fr.f.nregs as usize);
                    st.base = fr.base as usize;
                    st.f = fr.f;
                    st.sp = fr.sp;
                    st.va = fr.va;
                    st.uid = fr.uid;
                    f = fr.f;
                    pc = fr.pc as usize + 1;
                }
                U::Call { .. } | U::CallInd { .. } => {
                    let (fi, dst, args, ws) = match u {
                        U::Call { f: fi, dst, args, ws } => (*fi, *dst, args, ws),
                        U::CallInd { f: fo, dst, args, ws } => {
                            let v = g!(*fo);
                            let a = self.conc(st, v, 64)?;
                            if a < FBASE || a % 16 != 0 || (a - FBASE) / 16 >= self.m.funcs.len() as u64 {
                                return Err(Stop::Violation("fault".into(), format!("call of {:#x}", a)));
                            }
                            (((a - FBASE) / 16) as u32, *dst, args, ws)
                        }
                        _ => unreachable!(),
                    };
                    let mut buf = [Val::I(0); 24];
                    let vec;
                    let av: &[Val] = if args.len() <= 24 {
                        for (i, o) in args.iter().enumerate() {
                            buf[i] = g!(*o);
                        }
                        &buf[..args.len()]
                    } else {
                        vec = args.iter().map(|o| g!(*o)).collect::<Vec<_>>();
                        &vec
                    };
                    let x = self.m.funcs[fi as usize].ext.get();
                    if x != 0 {
                        let e = self.exts[x as usize];
                        let r = e(self, st, av, ws, fi)?;
                        match r {
                            ext::Ret::None => {}
                            ext::Ret::V(v) => set!(dst, v),
                            ext::Ret::Jumped => {
                                f = st.f;
                                pc = st.pc as usize;
                            }
                            ext::Ret::SetJmp(buf) => {
                                st.jmp.insert(
                                    buf,
                                    Jmp { depth: st.frames.len(), uid: st.uid, f: st.f, pc: pc as u32, dst, sp: st.sp },
                                );
                                set!(dst, Val::I(0));
                            }
                        }
                    } else {
                        if self.m.funcs[fi as usize].body.is_none() {
                            return Err(Stop::Fatal(format!("unmodelled external {}", self.m.funcs[fi as usize].name)));
                        }
                        self.enter(st, fi, dst, av, ws)?;
                        f = st.f;
                        pc = 0;
                    }
                }
                U::Intr { i, w, dst, args } => {
                    self.intr(st, f, *i, *w, *dst, args)?;
                }
                U::F { op, is32, dst, a, b } => {
                    let (x, y) = (g!(*a), g!(*b));
                    let x = self.conc(st, x, 64)?;
                    let y = self.conc(st, y, 64)?;
                    let r = fop(*op, *is32, x, y);
                    set!(*dst, Val::I(r));
                }
                U::Unreachable => {
                    return Err(Stop::Violation("fault".into(), "unreachable code reached".into()));
                }
                U::Bad(s) => {
                    return Err(Stop::Fatal(format!("unsupported instruction in {}: {}", self.m.funcs[f.idx as usize].name, s)));
                }
            }
        }
    }

    fn intr(&mut self, st: &mut State, f: &'static Func, i: Intr, w: u16, dst: u32, args: &[i32]) -> R<()> {
        let a0 = args.first().map(|o| reg(st, f, *o)).unwrap_or(Val::I(0));
        let a1 = args.get(1).map(|o| reg(st, f, *o)).unwrap_or(Val::I(0));
        let a2 = args.get(2).map(|o| reg(st, f, *o)).unwrap_or(Val::I(0));
        let d = st.base + dst as usize;
        match i {
            Intr::MemCpy | Intr::MemMove => {
                let n = self.conc(st, a2, 64)?;
                if n == 0 {
                    return Ok(());
                }
                let x = self.conc(st, a0, 64)?;
                let y = self.conc(st, a1, 64)?;
                if n > LIMIT {
                    return Err(Stop::Violation("fault".into(), format!("memcpy of {} bytes", n)));
                }
                st.mem.copy(x, y, n).map_err(|_| Stop::Violation("fault".into(), format!("memcpy {:#x} <- {:#x} ({})", x, y, n)))?;
            }
            Intr::MemSet => {
                let n = self.conc(st, a2, 64)?;
                if n == 0 {
                    return Ok(());
                }
                let x = self.conc(st, a0, 64)?;
                if n > LIMIT {
                    return Err(Stop::Violation("fault".into(), format!("memset of {} bytes", n)));
                }
                match a1 {
                    Val::I(v) => st.mem.set(x, v as u8, 0, n)?,
                    Val::S(e) => st.mem.set(x, 0, e, n)?,
                }
            }
            Intr::Ov(op, signed) => {
                if let (Val::I(x), Val::I(y)) = (a0, a1) {
                    let m = mask64(w);
                    let (r, o) = if signed {
                        let (x, y) = (sx(x as u128, w), sx(y as u128, w));
                        let r = match op {
                            Op::Add => x + y,
                            Op::Xor => x - y,
                            _ => x * y,
                        };
                        (r as u64 & m, sx(r as u128 & mask(w), w) != r)
                    } else {
                        let (x, y) = (x as u128, y as u128);
                        match op {
                            Op::Add => ((x + y) as u64 & m, x + y > m as u128),
                            Op::Xor => ((x.wrapping_sub(y)) as u64 & m, x < y),
                            _ => ((x * y) as u64 & m, x * y > m as u128),
                        }
                    };
                    st.regs[d] = Val::I(r);
                    st.regs[d + 1] = Val::I(o as u64);
                    return Ok(());
                }
                let x = self.ex(a0, w);
                let y = self.ex(a1, w);
                let r = match op {
                    Op::Add => self.ar.add(x, y),
                    Op::Xor => self.ar.sub(x, y),
                    _ => self.ar.mul(x, y),
                };
                let (nx, ny) = (*self.ar.n(x), *self.ar.n(y));
                let o = if !signed {
                    match op {
                        Op::Add => {
                            if nx.umax as u128 + ny.umax as u128 <= mask(w) {
                                self.ar.fls
                            } else {
                                self.ar.ult(r, x)
                            }
                        }
                        Op::Xor => self.ar.ult(x, y),
                        _ => {
                            if nx.umax as u128 * ny.umax as u128 <= mask(w) {
                                self.ar.fls
                            } else {
                                let xx = self.ar.zext(x, 2 * w);
                                let yy = self.ar.zext(y, 2 * w);
                                let p = self.ar.mul(xx, yy);
                                let h = self.ar.extract(p, w, w);
                                let z = self.ar.cst(0, w);
                                let e = self.ar.eq(h, z);
                                self.ar.not(e)
                            }
                        }
                    }
                } else {
                    let ww = if op == Op::Mul { 2 * w } else { w + 1 };
                    let xx = self.ar.sext(x, ww);
                    let yy = self.ar.sext(y, ww);
                    let p = match op {
                        Op::Add => self.ar.add(xx, yy),
                        Op::Xor => self.ar.sub(xx, yy),
                        _ => self.ar.mul(xx, yy),
                    };
                    let back = self.ar.sext(r, ww);
                    let e = self.ar.eq(p, back);
                    self.ar.not(e)
                };
                st.regs[d] = self.val(r);
                st.regs[d + 1] = self.val(o);
            }
            Intr::Sat(op, signed) => {
                let x = self.ex(a0, w);
                let y = self.ex(a1, w);
                let r = if !signed {
                    if op == Op::Add {
                        let s = self.ar.add(x, y);
                        let o = self.ar.ult(s, x);
                        let m = self.ar.cst(mask(w), w);
                        self.ar.ite(o, m, s)
                    } else {
                        let s = self.ar.sub(x, y);
                        let o = self.ar.ult(x, y);
                        let z = self.ar.cst(0, w);
                        self.ar.ite(o, z, s)
                    }
                } else {
                    let xx = self.ar.sext(x, w + 1);
                    let yy = self.ar.sext(y, w + 1);
                    let p = if op == Op::Add { self.ar.add(xx, yy) } else { self.ar.sub(xx, yy) };
                    let mx = self.ar.cst(mask(w) >> 1, w + 1);
                    let mn = self.ar.cst(!(mask(w) >> 1), w + 1);
                    let hi = self.ar.slt(mx, p);
                    let lo = self.ar.slt(p, mn);
                    let t = self.ar.extract(p, 0, w);
                    let mxw = self.ar.extract(mx, 0, w);
                    let mnw = self.ar.extract(mn, 0, w);
                    let q = self.ar.ite(lo, mnw, t);
                    self.ar.ite(hi, mxw, q)
                };
                st.regs[d] = self.val(r);
            }
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                let x = self.ex(a0, w);
                let y = self.ex(a1, w);
                let c = match i {
                    Intr::UMin => self.ar.ule(x, y),
                    Intr::UMax => self.ar.ule(y, x),
                    Intr::SMin => self.ar.sle(x, y),
                    _ => self.ar.sle(y, x),
                };
                let r = self.ar.ite(c, x, y);
                st.regs[d] = self.val(r);
            }
            Intr::Abs => {
                let x = self.ex(a0, w);
                let z = self.ar.cst(0, w);
                let c = self.ar.slt(x, z);
                let n = self.ar.neg(x);
                let r = self.ar.ite(c, n, x);
                st.regs[d] = self.val(r);
            }
            Intr::CtPop | Intr::Ctlz | Intr::Cttz | Intr::BitRev | Intr::BSwap => {
                if let Val::I(x) = a0 {
                    let x = x & mask64(w);
                    let r = match i {
                        Intr::CtPop => x.count_ones() as u64,
                        Intr::Ctlz => {
                            if x == 0 {
                                w as u64
                            } else {
                                (x.leading_zeros() - (64 - w as u32)) as u64
                            }
                        }
                        Intr::Cttz => {
                            if x == 0 {
                                w as u64
                            } else {
                                x.trailing_zeros() as u64
                            }
                        }
                        Intr::BitRev => x.reverse_bits() >> (64 - w),
                        _ => x.swap_bytes() >> (64 - w),
                    };
                    st.regs[d] = Val::I(r);
                    return Ok(());
                }
                let x = self.ex(a0, w);
                let r = match i {
                    Intr::BSwap => {
                        let mut acc: Option<Id> = None;
                        for k in 0..w / 8 {
                            let b = self.ar.extract(x, k * 8, 8);
                            acc = Some(match acc {
                                None => b,
                                Some(h) => self.ar.concat(h, b),
                            });
                        }
                        acc.unwrap()
                    }
                    Intr::CtPop => {
                        let mut acc = self.ar.cst(0, w);
                        for k in 0..w {
                            let b = self.ar.extract(x, k, 1);
                            let b = self.ar.zext(b, w);
                            acc = self.ar.add(acc, b);
                        }
                        acc
                    }
                    Intr::Cttz => {
                        let mut acc = self.ar.cst(w as u128, w);
                        for k in (0..w).rev() {
                            let b = self.ar.extract(x, k, 1);
                            let v = self.ar.cst(k as u128, w);
                            acc = self.ar.ite(b, v, acc);
                        }
                        acc
                    }
                    Intr::Ctlz => {
                        let mut acc = self.ar.cst(w as u128, w);
                        for k in 0..w {
                            let b = self.ar.extract(x, k, 1);
                            let v = self.ar.cst((w - 1 - k) as u128, w);
                            acc = self.ar.ite(b, v, acc);
                        }
                        acc
                    }
                    _ => {
                        let mut acc: Option<Id> = None;
                        for k in 0..w {
                            let b = self.ar.extract(x, k, 1);
                            acc = Some(match acc {
                                None => b,
                                Some(h) => self.ar.concat(h, b),
                            });
                        }
                        acc.unwrap()
                    }
                };
                st.regs[d] = self.val(r);
            }
            Intr::Fshl | Intr::Fshr => {
                let k = self.conc(st, a2, w)? % w as u64;
                let k = if i == Intr::Fshr { (w as u64 - k) % w as u64 } else { k } as u16;
                let x = self.ex(a0, w);
                let y = self.ex(a1, w);
                let r = if k == 0 {
                    if i == Intr::Fshl {
                        x
                    } else {
                        y
                    }
                } else {
                    let h = self.ar.extract(x, 0, w - k);
                    let l = self.ar.extract(y, w - k, k);
                    self.ar.concat(h, l)
                };
                st.regs[d] = self.val(r);
            }
            Intr::UCmp(rw) | Intr::SCmp(rw) => {
                let x = self.ex(a0, w);
                let y = self.ex(a1, w);
                let lt = if matches!(i, Intr::UCmp(_)) { self.ar.ult(x, y) } else { self.ar.slt(x, y) };
                let eq = self.ar.eq(x, y);
                let m1 = self.ar.cst(mask(rw), rw);
                let z = self.ar.cst(0, rw);
                let o = self.ar.cst(1, rw);
                let t = self.ar.ite(eq, z, o);
                let r = self.ar.ite(lt, m1, t);
                st.regs[d] = self.val(r);
            }
            Intr::Trap => return Err(Stop::Violation("panic".into(), "trap".into())),
            Intr::VaStart => {
                let p = self.conc(st, a0, 64)?;
                st.mem.write(p, 4, 48)?;
                st.mem.write(p + 4, 4, 304)?;
                st.mem.write(p + 8, 8, st.va)?;
                st.mem.write(p + 16, 8, 0)?;
            }
            Intr::VaCopy => {
                let x = self.conc(st, a0, 64)?;
                let y = self.conc(st, a1, 64)?;
                st.mem.copy(x, y, 24)?;
            }
            Intr::LoadRel => {
                // llvm.load.relative(base, offset): the offset may be symbolic
                let b = self.conc(st, a0, 64)?;
                let o = self.conc(st, a1, 64)?;
                let v = self.load(st, b.wrapping_add(o), 32)?;
                let v = self.conc(st, v, 32)?;
                st.regs[d] = Val::I(b.wrapping_add(v as u32 as i32 as i64 as u64));
            }
            Intr::StackSave => st.regs[d] = Val::I(st.sp),
            Intr::StackRestore => {
                let x = self.conc(st, a0, 64)?;
                st.sp = x;
            }
            Intr::Cpuid => {
                for k in 0..w as usize {
                    st.regs[d + k] = Val::I(0);
                }
            }
            _ => return Err(Stop::Fatal(format!("intrinsic {:?}", i))),
        }
        Ok(())
    }
}

fn fop(op: FOp, is32: bool, x: u64, y: u64) -> u64 {
    let fx = |v: u64| if is32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
    let back = |v: f64| if is32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
    let (a, b) = (fx(x), fx(y));
    let un = a.is_nan() || b.is_nan();
    match op {
        FOp::Add => {
            if is32 {
                (f32::from_bits(x as u32) + f32::from_bits(y as u32)).to_bits() as u64
            } else {
                back(a + b)
            }
        }
        FOp::Sub => {
            if is32 {
                (f32::from_bits(x as u32) - f32::from_bits(y as u32)).to_bits() as u64
            } else {
                back(a - b)
            }
        }
        FOp::Mul => {
            if is32 {
                (f32::from_bits(x as u32) * f32::from_bits(y as u32)).to_bits() as u64
            } else {
                back(a * b)
            }
        }
        FOp::Div => {
            if is32 {
                (f32::from_bits(x as u32) / f32::from_bits(y as u32)).to_bits() as u64
            } else {
                back(a / b)
            }
        }
        FOp::Rem => back(a % b),
        FOp::Neg => {
            if is32 {
                x ^ (1 << 31)
            } else {
                x ^ (1 << 63)
            }
        }
        FOp::Abs => back(a.abs()),
        FOp::Floor => back(a.floor()),
        FOp::Ceil => back(a.ceil()),
        FOp::Trunc => back(a.trunc()),
        FOp::Sqrt => back(a.sqrt()),
        FOp::CmpOeq => (a == b) as u64,
        FOp::CmpOgt => (a > b) as u64,
        FOp::CmpOge => (a >= b) as u64,
        FOp::CmpOlt => (a < b) as u64,
        FOp::CmpOle => (a <= b) as u64,
        FOp::CmpOne => (!un && a != b) as u64,
        FOp::CmpOrd => !un as u64,
        FOp::CmpUeq => (un || a == b) as u64,
        FOp::CmpUgt => (un || a > b) as u64,
        FOp::CmpUge => (un || a >= b) as u64,
        FOp::CmpUlt => (un || a < b) as u64,
        FOp::CmpUle => (un || a <= b) as u64,
        FOp::CmpUne => (un || a != b) as u64,
        FOp::CmpUno => un as u64,
        FOp::FromS(w) => {
            let v = sx(x as u128, w) as i64;
            if is32 {
                (v as f32).to_bits() as u64
            } else {
                (v as f64).to_bits()
            }
        }
        FOp::FromU(_) => {
            if is32 {
                (x as f32).to_bits() as u64
            } else {
                (x as f64).to_bits()
            }
        }
        FOp::ToS(w) => (a as i64) as u64 & mask64(w),
        FOp::ToU(w) => (a as u64) & mask64(w),
        FOp::Ext => (f32::from_bits(x as u32) as f64).to_bits(),
        FOp::Narrow => (f64::from_bits(x) as f32).to_bits() as u64,
    }
}

/// The environment of the program, the same as that of native runs (check.py).
fn environment() -> HashMap<String, Vec<(u8, Id)>> {
    [("USER", "u"), ("TMPDIR", "/tmp/cedsym-w/t"), ("HOME", "/tmp/cedsym-w"), ("PATH", "/usr/bin:/bin"), ("LANG", "C.UTF-8")]
        .iter()
        .map(|(k, v)| (format!("\0env{}", k), v.bytes().map(|b| (b, 0)).collect()))
        .collect()
}
