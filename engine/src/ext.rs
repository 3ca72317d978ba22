//! Models of the functions the program imports, and the harness interface.
use crate::exec::*;
use crate::expr::{mask64, Id};
use crate::ir::*;
use std::collections::HashMap;

pub enum Ret {
    None,
    V(Val),
    Jumped,
    SetJmp(u64),
}

pub type ExtFn = fn(&mut Engine, &mut State, &[Val], &[u16], u32) -> R<Ret>;

#[derive(Default)]
pub struct Env {
    pub errno: u64,
    pub ctype_b: u64,
    pub ctype_lower: u64,
    pub ctype_upper: u64,
    pub lconv: u64,
    pub errstr: u64,
    pub pass: Vec<String>, // real directories readable by the program
    pub cwd: String,
    pub files_read: std::collections::BTreeSet<String>,
    pub used: HashMap<String, u64>,
}

extern "C" {
    fn __ctype_b_loc() -> *const *const u16;
    fn __ctype_tolower_loc() -> *const *const i32;
    fn __ctype_toupper_loc() -> *const *const i32;
    fn strtod(s: *const i8, end: *mut *mut i8) -> f64;
    fn snprintf(buf: *mut u8, n: usize, fmt: *const i8, ...) -> i32;
    fn frexp(x: f64, e: *mut i32) -> f64;
    fn fmod(x: f64, y: f64) -> f64;
    fn pow(x: f64, y: f64) -> f64;
}

type SB = Vec<(u8, Id)>;

const ENOENT: u64 = 2;
const EBADF: u64 = 9;
const EISDIR: u64 = 21;
const ENOTDIR: u64 = 20;

fn i(v: u64) -> R<Ret> {
    Ok(Ret::V(Val::I(v)))
}

impl Engine {
    fn c(&mut self, st: &mut State, v: Val, w: u16) -> R<u64> {
        Ok(self.conc(st, v, w)? & mask64(w))
    }
    fn errno(&mut self, st: &mut State, e: u64) -> R<()> {
        st.mem.write(self.env.errno, 4, e)?;
        Ok(())
    }
    fn fail(&mut self, st: &mut State, e: u64, r: u64) -> R<Ret> {
        self.errno(st, e)?;
        i(r)
    }
    fn byte(&mut self, st: &mut State, a: u64) -> R<Id> {
        let (b, s) = st.mem.byte(a)?;
        Ok(if s != 0 { s } else { self.ar.cst(b as u128, 8) })
    }
    /// Is the byte at `a` equal to `k`? Splits the path when undetermined.
    fn byte_is(&mut self, st: &mut State, a: u64, k: u8) -> R<bool> {
        let (b, s) = st.mem.byte(a)?;
        if s == 0 {
            return Ok(b == k);
        }
        let kk = self.ar.cst(k as u128, 8);
        let e = self.ar.eq(s, kk);
        self.decide_re(st, e)
    }
    /// `decide` for models that may ask several questions in one call: the
    /// call is re-executed by the forked state, so earlier answers must hold
    /// there too; they do, because they are part of its path condition.
    pub fn decide_re(&mut self, st: &mut State, c: Id) -> R<bool> {
        if let Some(v) = self.ar.is_const(c) {
            return Ok(v == 1);
        }
        let v = self.ar.eval(c, &st.p.model) == 1;
        let nc = self.ar.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        if let Some(m) = self.so.feasible(&mut self.ar, &st.p, other) {
            let mut o = st.clone();
            o.p.model = m;
            self.so.assume(&mut self.ar, &mut o.p, other);
            o.forced = None;
            o.forks += 1;
            st.forks += 1;
            self.c.forks += 1;
            self.work.push(o);
        }
        self.chk()?;
        self.so.assume(&mut self.ar, &mut st.p, mine);
        Ok(v)
    }
    fn strlen(&mut self, st: &mut State, a: u64) -> R<u64> {
        let mut n = 0;
        while !self.byte_is(st, a + n, 0)? {
            n += 1;
        }
        Ok(n)
    }
    /// Concrete C string (symbolic bytes are split).
    fn cstr(&mut self, st: &mut State, a: u64) -> R<Vec<u8>> {
        let mut r = vec![];
        let mut p = a;
        loop {
            let e = self.byte(st, p)?;
            let v = self.val(e);
            let b = self.c(st, v, 8)? as u8;
            if b == 0 {
                return Ok(r);
            }
            r.push(b);
            p += 1;
        }
    }
    fn concbytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<u8>> {
        let mut r = vec![];
        for k in 0..n {
            let e = self.byte(st, a + k)?;
            let v = self.val(e);
            r.push(self.c(st, v, 8)? as u8);
        }
        Ok(r)
    }
    fn put(&mut self, st: &mut State, a: u64, b: &[u8]) -> R<()> {
        st.mem.put(a, b)?;
        Ok(())
    }
    fn cstring(&mut self, st: &mut State, b: &[u8]) -> R<u64> {
        let p = self.malloc(st, b.len() as u64 + 1, 1)?;
        self.put(st, p, b)?;
        st.mem.write(p + b.len() as u64, 1, 0)?;
        Ok(p)
    }
    // ---- files ----
    fn path(&mut self, b: &[u8]) -> String {
        let s = String::from_utf8_lossy(b).to_string();
        let full = if s.starts_with('/') { s } else { format!("{}/{}", self.env.cwd, s) };
        let mut parts: Vec<&str> = vec![];
        for p in full.split('/') {
            match p {
                "" | "." => {}
                ".." => {
                    parts.pop();
                }
                x => parts.push(x),
            }
        }
        format!("/{}", parts.join("/"))
    }
    fn lookup(&mut self, st: &mut State, p: &str) -> bool {
        if st.vfs.contains_key(p) {
            return true;
        }
        if self.env.pass.iter().any(|d| p.starts_with(d.as_str())) {
            if std::fs::metadata(p).map(|m| m.is_file()).unwrap_or(false) {
                if let Ok(b) = std::fs::read(p) {
                    self.env.files_read.insert(p.to_string());
                    std::rc::Rc::make_mut(&mut st.vfs).insert(p.to_string(), b.into_iter().map(|x| (x, 0)).collect());
                    return true;
                }
            }
        }
        false
    }
    fn is_dir(&self, st: &State, p: &str) -> bool {
        if p == "/" || p == self.env.cwd {
            return true;
        }
        let pre = format!("{}/", p);
        if format!("{}/", self.env.cwd).starts_with(&pre) {
            return true;
        }
        st.vfs.keys().any(|k| k.starts_with(&pre))
    }
    fn not_found(&self, st: &State, p: &str) -> u64 {
        // a path below a regular file
        let mut q = p;
        while let Some(k) = q.rfind('/') {
            q = &q[..k];
            if q.is_empty() {
                break;
            }
            if st.vfs.contains_key(q) {
                return ENOTDIR;
            }
        }
        ENOENT
    }
    fn open(&mut self, st: &mut State, p: String) -> R<Result<u64, u64>> {
        if !self.lookup(st, &p) {
            if self.is_dir(st, &p) {
                return Ok(Err(EISDIR));
            }
            let e = self.not_found(st, &p);
            return Ok(Err(e));
        }
        let o = Some(FileObj { path: p, pos: 0, eof: false });
        let k = match st.fds.iter().position(|x| x.is_none()) {
            Some(k) => {
                st.fds[k] = o;
                k
            }
            None => {
                st.fds.push(o);
                st.fds.len() - 1
            }
        };
        Ok(Ok(k as u64 + 3))
    }
    fn read_fd(&mut self, st: &mut State, fd: u64, buf: u64, n: u64) -> R<Option<u64>> {
        let k = fd.wrapping_sub(3) as usize;
        let (path, pos) = match st.fds.get(k) {
            Some(Some(f)) => (f.path.clone(), f.pos),
            _ => return Ok(None),
        };
        let data = match st.vfs.get(&path) {
            Some(d) => d,
            None => return Ok(None),
        };
        let left = (data.len() as u64).saturating_sub(pos);
        let m = left.min(n);
        let data: SB = data[pos as usize..(pos + m) as usize].to_vec();
        for (j, (b, s)) in data.into_iter().enumerate() {
            st.mem.wbyte(buf + j as u64, b, s)?;
        }
        let f = st.fds[k].as_mut().unwrap();
        f.pos += m;
        if m < n {
            f.eof = true;
        }
        Ok(Some(m))
    }
    fn stat(&mut self, st: &mut State, p: &str, buf: u64) -> R<Ret> {
        let (mode, size) = if self.lookup(st, p) {
            (0o100644u64, st.vfs[p].len() as u64)
        } else if self.is_dir(st, p) {
            (0o040755, 4096)
        } else {
            let e = self.not_found(st, p);
            return self.fail(st, e, mask64(32));
        };
        st.mem.set(buf, 0, 0, 144)?;
        st.mem.write(buf, 8, 1)?;
        let ino = p.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)) & 0xffffff;
        st.mem.write(buf + 8, 8, ino)?;
        st.mem.write(buf + 16, 8, 1)?;
        st.mem.write(buf + 24, 4, mode)?;
        st.mem.write(buf + 48, 8, size)?;
        st.mem.write(buf + 56, 8, 4096)?;
        st.mem.write(buf + 64, 8, (size + 511) / 512)?;
        let clock = match st.vfs.get(&format!("\0mtime{}", p)) {
            Some(b) => b.iter().rev().fold(0u64, |a, x| a << 8 | x.0 as u64),
            None => 0,
        };
        for o in [72, 88, 104] {
            st.mem.write(buf + o, 8, 1_600_000_000 + clock / 1000)?;
            st.mem.write(buf + o + 8, 8, clock % 1000 * 1_000_000)?;
        }
        i(0)
    }
    fn file_fd(&mut self, st: &mut State, fp: u64) -> R<u64> {
        if fp == 0 {
            return Ok(0);
        }
        Ok(st.mem.read(fp, 8)?.unwrap_or(0))
    }

    /// printf-style formatting of concrete arguments.
    fn format(&mut self, st: &mut State, fmt: &[u8], args: &[Val], ws: &[u16]) -> R<Vec<u8>> {
        let mut out = vec![];
        let mut k = 0;
        let mut ai = 0;
        while k < fmt.len() {
            if fmt[k] != b'%' {
                out.push(fmt[k]);
                k += 1;
                continue;
            }
            if fmt.get(k + 1) == Some(&b'%') {
                out.push(b'%');
                k += 2;
                continue;
            }
            let s = k;
            k += 1;
            let mut star = vec![];
            while k < fmt.len() && !fmt[k].is_ascii_alphabetic() {
                if fmt[k] == b'*' {
                    let v = args[ai];
                    star.push(self.c(st, v, 32)? as i32);
                    ai += 1;
                }
                k += 1;
            }
            while k < fmt.len() && matches!(fmt[k], b'l' | b'h' | b'z' | b'L' | b'j' | b't') {
                k += 1;
            }
            let conv = fmt[k];
            k += 1;
            let mut spec: Vec<u8> = vec![];
            let mut si = 0;
            for b in &fmt[s..k] {
                if *b == b'*' {
                    spec.extend(star[si].to_string().bytes());
                    si += 1;
                } else {
                    spec.push(*b);
                }
            }
            spec.push(0);
            let v = args[ai];
            let w = ws[ai].max(32);
            ai += 1;
            let mut buf = vec![0u8; 2048];
            let fp = spec.as_ptr() as *const i8;
            let n = match conv {
                b's' => {
                    let a = self.c(st, v, 64)?;
                    let mut b = self.cstr(st, a)?;
                    b.push(0);
                    buf = vec![0u8; 2048 + b.len()];
                    unsafe { snprintf(buf.as_mut_ptr(), buf.len(), fp, b.as_ptr()) }
                }
                b'f' | b'g' | b'e' | b'G' | b'E' | b'a' | b'A' | b'F' => {
                    let a = self.c(st, v, 64)?;
                    unsafe { snprintf(buf.as_mut_ptr(), buf.len(), fp, f64::from_bits(a)) }
                }
                _ => {
                    let a = self.c(st, v, w)?;
                    unsafe { snprintf(buf.as_mut_ptr(), buf.len(), fp, a) }
                }
            };
            out.extend_from_slice(&buf[..(n as usize).min(buf.len())]);
        }
        Ok(out)
    }

    /// memcmp as an expression (or a value), from the last byte backwards.
    fn cmp_expr(&mut self, st: &mut State, a: u64, b: u64, n: u64, only_eq: bool) -> R<Val> {
        let one = self.ar.cst(1, 32);
        let m1 = self.ar.cst(mask64(32) as u128, 32);
        let mut acc = self.ar.cst(0, 32);
        if only_eq {
            let mut all = self.ar.tru;
            for k in 0..n {
                let (x, xs) = st.mem.byte(a + k)?;
                let (y, ys) = st.mem.byte(b + k)?;
                if xs == 0 && ys == 0 {
                    if x != y {
                        return Ok(Val::I(1));
                    }
                    continue;
                }
                let x = if xs != 0 { xs } else { self.ar.cst(x as u128, 8) };
                let y = if ys != 0 { ys } else { self.ar.cst(y as u128, 8) };
                let e = self.ar.eq(x, y);
                all = self.ar.and(all, e);
            }
            let ne = self.ar.not(all);
            let e = self.ar.zext(ne, 32);
            return Ok(self.val(e));
        }
        let mut stop = n;
        for k in 0..n {
            let (x, xs) = st.mem.byte(a + k)?;
            let (y, ys) = st.mem.byte(b + k)?;
            if xs == 0 && ys == 0 && x != y {
                acc = if x < y { m1 } else { one };
                stop = k;
                break;
            }
        }
        for k in (0..stop).rev() {
            let (x, xs) = st.mem.byte(a + k)?;
            let (y, ys) = st.mem.byte(b + k)?;
            if xs == 0 && ys == 0 {
                continue;
            }
            let x = if xs != 0 { xs } else { self.ar.cst(x as u128, 8) };
            let y = if ys != 0 { ys } else { self.ar.cst(y as u128, 8) };
            let e = self.ar.eq(x, y);
            let l = self.ar.ult(x, y);
            let d = self.ar.ite(l, m1, one);
            acc = self.ar.ite(e, acc, d);
        }
        Ok(self.val(acc))
    }
    fn strcmp(&mut self, st: &mut State, a: u64, b: u64, n: u64) -> R<Ret> {
        for k in 0..n {
            let x = self.byte(st, a + k)?;
            let y = self.byte(st, b + k)?;
            let e = self.ar.eq(x, y);
            if !self.decide_re(st, e)? {
                let l = self.ar.ult(x, y);
                let m1 = self.ar.cst(mask64(32) as u128, 32);
                let one = self.ar.cst(1, 32);
                let r = self.ar.ite(l, m1, one);
                return Ok(Ret::V(self.val(r)));
            }
            if self.byte_is(st, a + k, 0)? {
                break;
            }
        }
        i(0)
    }
    fn sb(&mut self, st: &mut State, p: u64, n: u64) -> R<SB> {
        Ok(st.mem.bytes(p, n)?)
    }
    fn tag(&mut self, st: &mut State, p: u64, n: u64) -> R<String> {
        let b = self.concbytes(st, p, n)?;
        Ok(String::from_utf8_lossy(&b).to_string())
    }
}

pub fn setup(en: &mut Engine, st: &mut State) {
    let a = en.malloc(st, 16384, 16).ok().unwrap();
    let mut p = a;
    let mut take = |n: u64| {
        let r = p;
        p += (n + 15) & !15;
        r
    };
    en.env.errno = take(16);
    let tb = take(384 * 2);
    let tl = take(384 * 4);
    let tu = take(384 * 4);
    unsafe {
        for k in 0..384usize {
            let b = *(*__ctype_b_loc()).offset(k as isize - 128);
            let l = *(*__ctype_tolower_loc()).offset(k as isize - 128);
            let u = *(*__ctype_toupper_loc()).offset(k as isize - 128);
            let _ = st.mem.write(tb + 2 * k as u64, 2, b as u64);
            let _ = st.mem.write(tl + 4 * k as u64, 4, l as u32 as u64);
            let _ = st.mem.write(tu + 4 * k as u64, 4, u as u32 as u64);
        }
    }
    en.env.ctype_b = take(8);
    en.env.ctype_lower = take(8);
    en.env.ctype_upper = take(8);
    let _ = st.mem.write(en.env.ctype_b, 8, tb + 256);
    let _ = st.mem.write(en.env.ctype_lower, 8, tl + 512);
    let _ = st.mem.write(en.env.ctype_upper, 8, tu + 512);
    let dot = take(16);
    let _ = st.mem.write(dot, 8, b'.' as u64);
    en.env.lconv = take(128);
    let _ = st.mem.write(en.env.lconv, 8, dot);
    let _ = st.mem.write(en.env.lconv + 8, 8, dot + 8);
    en.env.errstr = take(32);
    let _ = st.mem.put(en.env.errstr, b"error\0");
}

/// Substrings of names of functions that mean "the program panicked".
fn panic_name(n: &str) -> bool {
    if !n.starts_with("_R") {
        return n == "rust_begin_unwind" || n == "_RNvCsdBezzDwma51_7___rustc17rust_begin_unwind";
    }
    (n.contains("4core9panicking") && !n.contains("AssertKind"))
        || n.contains("17rust_begin_unwind")
        || n.contains("16slice_error_fail")
        || n.contains("_3std9panicking11begin_panic")
        || n.contains("_3std9panicking20rust_panic_with_hook")
        || n.contains("18handle_alloc_error")
        || n.contains("4core6option13unwrap_failed")
        || n.contains("4core6option13expect_failed")
        || n.contains("4core6result13unwrap_failed")
        || n.contains("14handle_error") && n.contains("5alloc7raw_vec")
        || n.contains("17capacity_overflow")
}

pub fn resolve(en: &mut Engine) {
    let table: &[(&str, ExtFn)] = &[
        // harness interface
        ("sym_u8", |e, st, a, _, _| {
            let lo = e.c(st, a[0], 8)?;
            let hi = e.c(st, a[1], 8)?;
            Ok(Ret::V(e.fresh(st, 8, lo, hi)))
        }),
        ("sym_u32", |e, st, a, _, _| {
            let lo = e.c(st, a[0], 32)?;
            let hi = e.c(st, a[1], 32)?;
            Ok(Ret::V(e.fresh(st, 32, lo, hi)))
        }),
        ("sym_u64", |e, st, a, _, _| {
            let lo = e.c(st, a[0], 64)?;
            let hi = e.c(st, a[1], 64)?;
            Ok(Ret::V(e.fresh(st, 64, lo, hi)))
        }),
        ("sym_conc", |e, st, a, _, _| {
            let v = e.c(st, a[0], 64)?;
            i(v)
        }),
        ("sym_assume", |e, st, a, w, _| {
            let mut c = e.ex(a[0], w[0]);
            if w[0] != 1 {
                let z = e.ar.cst(0, w[0]);
                let q = e.ar.eq(c, z);
                c = e.ar.not(q);
            }
            e.assume(st, c)?;
            Ok(Ret::None)
        }),
        ("sym_assert", |e, st, a, w, _| {
            let p = e.c(st, a[1], 64)?;
            let n = e.c(st, a[2], 64)?;
            let tag = e.tag(st, p, n)?;
            let mut c = e.ex(a[0], w[0]);
            if w[0] != 1 {
                let z = e.ar.cst(0, w[0]);
                let q = e.ar.eq(c, z);
                c = e.ar.not(q);
            }
            e.assert(st, c, &tag)?;
            Ok(Ret::None)
        }),
        ("sym_cover", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let n = e.c(st, a[1], 64)?;
            let tag = e.tag(st, p, n)?;
            let k = match e.cover_names.iter().position(|x| *x == tag) {
                Some(k) => k,
                None => {
                    e.cover_names.push(tag);
                    e.cover_names.len() - 1
                }
            } as u32;
            if !st.covers.contains(&k) {
                st.covers.push(k);
            }
            Ok(Ret::None)
        }),
        ("sym_observe", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let n = e.c(st, a[1], 64)?;
            let b = e.sb(st, p, n)?;
            st.obs.push(b);
            Ok(Ret::None)
        }),
        ("sym_file", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let n = e.c(st, a[1], 64)?;
            let path = e.concbytes(st, p, n)?;
            let path = e.path(&path);
            let p = e.c(st, a[2], 64)?;
            let n = e.c(st, a[3], 64)?;
            let b = e.sb(st, p, n)?;
            st.clock += 1;
            let t = st.clock.to_le_bytes().iter().map(|x| (*x, 0)).collect();
            let v = std::rc::Rc::make_mut(&mut st.vfs);
            v.insert(format!("\0mtime{}", path), t);
            // the directories it is in
            let mut dir = path.as_str();
            while let Some(k) = dir.rfind('/').filter(|k| *k > 0) {
                dir = &dir[..k];
                v.insert(format!("{}/", dir), vec![].into_iter().collect());
            }
            v.insert(path, b);
            Ok(Ret::None)
        }),
        ("sym_unfile", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let n = e.c(st, a[1], 64)?;
            let path = e.concbytes(st, p, n)?;
            let path = e.path(&path);
            std::rc::Rc::make_mut(&mut st.vfs).remove(&path);
            Ok(Ret::None)
        }),
        ("sym_spawn", |e, st, a, _, _| {
            let f = e.c(st, a[0], 64)?;
            let arg = e.c(st, a[1], 64)?;
            if f < FBASE || f % 16 != 0 || (f - FBASE) / 16 >= e.m.funcs.len() as u64 {
                return Err(Stop::Fatal("no function to start".into()));
            }
            let k = e.spawn(st, ((f - FBASE) / 16) as u32, arg)?;
            i(k)
        }),
        ("sym_switch", |e, st, a, _, _| {
            let k = e.c(st, a[0], 64)?;
            e.switch(st, k as usize)?;
            Ok(Ret::Jumped)
        }),
        ("sym_guard", |e, st, a, _, _| {
            st.guarded = e.c(st, a[0], 32)? != 0;
            Ok(Ret::None)
        }),
        // memory
        ("malloc", |e, st, a, _, _| {
            let n = e.c(st, a[0], 64)?;
            let p = e.malloc(st, n, 16)?;
            i(p)
        }),
        ("calloc", |e, st, a, _, _| {
            let n = e.c(st, a[0], 64)?;
            let m = e.c(st, a[1], 64)?;
            let p = e.malloc(st, n * m, 16)?;
            st.mem.set(p, 0, 0, n * m)?;
            i(p)
        }),
        ("realloc", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let n = e.c(st, a[1], 64)?;
            if p == 0 {
                let q = e.malloc(st, n, 16)?;
                return i(q);
            }
            let old = e.block_size(st, p)?;
            let q = e.malloc(st, n, 16)?;
            if old.min(n) > 0 {
                st.mem.copy(q, p, old.min(n))?;
            }
            e.free(st, p)?;
            i(q)
        }),
        ("free", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            e.free(st, p)?;
            Ok(Ret::None)
        }),
        ("posix_memalign", |e, st, a, _, _| {
            let pp = e.c(st, a[0], 64)?;
            let al = e.c(st, a[1], 64)?;
            let n = e.c(st, a[2], 64)?;
            let p = e.malloc(st, n, al)?;
            st.mem.write(pp, 8, p)?;
            i(0)
        }),
        ("memcmp", |e, st, a, _, _| {
            let n = e.c(st, a[2], 64)?;
            if n == 0 {
                return i(0);
            }
            let x = e.c(st, a[0], 64)?;
            let y = e.c(st, a[1], 64)?;
            Ok(Ret::V(e.cmp_expr(st, x, y, n, false)?))
        }),
        ("bcmp", |e, st, a, _, _| {
            let n = e.c(st, a[2], 64)?;
            if n == 0 {
                return i(0);
            }
            let x = e.c(st, a[0], 64)?;
            let y = e.c(st, a[1], 64)?;
            Ok(Ret::V(e.cmp_expr(st, x, y, n, true)?))
        }),
        ("memchr", |e, st, a, _, _| {
            let n = e.c(st, a[2], 64)?;
            let x = e.c(st, a[0], 64)?;
            let k = e.c(st, a[1], 32)? as u8;
            for j in 0..n {
                if e.byte_is(st, x + j, k)? {
                    return i(x + j);
                }
            }
            i(0)
        }),
        ("strlen", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            let n = e.strlen(st, x)?;
            i(n)
        }),
        ("strcmp", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            let y = e.c(st, a[1], 64)?;
            e.strcmp(st, x, y, u64::MAX)
        }),
        ("strcoll", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            let y = e.c(st, a[1], 64)?;
            e.strcmp(st, x, y, u64::MAX)
        }),
        ("strncmp", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            let y = e.c(st, a[1], 64)?;
            let n = e.c(st, a[2], 64)?;
            e.strcmp(st, x, y, n)
        }),
        ("strchr", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            let k = e.c(st, a[1], 32)? as u8;
            let mut p = x;
            loop {
                if e.byte_is(st, p, k)? {
                    return i(p);
                }
                if e.byte_is(st, p, 0)? {
                    return i(0);
                }
                p += 1;
            }
        }),
        ("strcpy", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            let y = e.c(st, a[1], 64)?;
            let n = e.strlen(st, y)?;
            st.mem.copy(x, y, n)?;
            st.mem.write(x + n, 1, 0)?;
            i(x)
        }),
        ("strspn", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            let y = e.c(st, a[1], 64)?;
            let s = e.cstr(st, x)?;
            let set = e.cstr(st, y)?;
            i(s.iter().take_while(|b| set.contains(b)).count() as u64)
        }),
        ("strpbrk", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            let y = e.c(st, a[1], 64)?;
            let s = e.cstr(st, x)?;
            let set = e.cstr(st, y)?;
            i(s.iter().position(|b| set.contains(b)).map(|k| x + k as u64).unwrap_or(0))
        }),
        ("strstr", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            let y = e.c(st, a[1], 64)?;
            let s = e.cstr(st, x)?;
            let t = e.cstr(st, y)?;
            if t.is_empty() {
                return i(x);
            }
            i(s.windows(t.len()).position(|w| w == &t[..]).map(|k| x + k as u64).unwrap_or(0))
        }),
        ("strerror", |e, _, _, _, _| i(e.env.errstr)),
        ("__xpg_strerror_r", |e, st, a, _, _| {
            let p = e.c(st, a[1], 64)?;
            e.put(st, p, b"error\0")?;
            i(0)
        }),
        ("__errno_location", |e, _, _, _, _| i(e.env.errno)),
        ("__ctype_b_loc", |e, _, _, _, _| i(e.env.ctype_b)),
        ("__ctype_tolower_loc", |e, _, _, _, _| i(e.env.ctype_lower)),
        ("__ctype_toupper_loc", |e, _, _, _, _| i(e.env.ctype_upper)),
        ("localeconv", |e, _, _, _, _| i(e.env.lconv)),
        ("setlocale", |_, _, _, _, _| i(0)),
        ("strtod", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            let end = e.c(st, a[1], 64)?;
            let mut s = e.cstr(st, x)?;
            s.push(0);
            let (v, n) = unsafe {
                let mut ep: *mut i8 = std::ptr::null_mut();
                let v = strtod(s.as_ptr() as *const i8, &mut ep);
                (v, ep as u64 - s.as_ptr() as u64)
            };
            if end != 0 {
                st.mem.write(end, 8, x + n)?;
            }
            i(v.to_bits())
        }),
        ("snprintf", |e, st, a, w, _| {
            let p = e.c(st, a[0], 64)?;
            let n = e.c(st, a[1], 64)?;
            let f = e.c(st, a[2], 64)?;
            let f = e.cstr(st, f)?;
            let out = e.format(st, &f, &a[3..], &w[3..])?;
            if n > 0 {
                let m = out.len().min(n as usize - 1);
                e.put(st, p, &out[..m])?;
                st.mem.write(p + m as u64, 1, 0)?;
            }
            i(out.len() as u64)
        }),
        // program state
        ("getenv", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let k = e.cstr(st, p)?;
            let key = format!("\0env{}", String::from_utf8_lossy(&k));
            match st.vfs.get(&key) {
                None => i(0),
                Some(b) => {
                    let b: Vec<u8> = b.iter().map(|x| x.0).collect();
                    let p = e.cstring(st, &b)?;
                    i(p)
                }
            }
        }),
        ("setenv", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let k = e.cstr(st, p)?;
            let p = e.c(st, a[1], 64)?;
            let v = e.cstr(st, p)?;
            let key = format!("\0env{}", String::from_utf8_lossy(&k));
            std::rc::Rc::make_mut(&mut st.vfs).insert(key, v.into_iter().map(|b| (b, 0)).collect());
            i(0)
        }),
        ("unsetenv", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let k = e.cstr(st, p)?;
            let key = format!("\0env{}", String::from_utf8_lossy(&k));
            std::rc::Rc::make_mut(&mut st.vfs).remove(&key);
            i(0)
        }),
        ("getuid", |_, _, _, _, _| i(0)),
        ("getpid", |_, _, _, _, _| i(1)),
        ("getpwuid_r", |e, st, a, _, _| {
            let p = e.c(st, a[4], 64)?;
            st.mem.write(p, 8, 0)?;
            i(0)
        }),
        ("sysconf", |e, st, a, _, _| {
            let k = e.c(st, a[0], 32)?;
            i(if k == 30 { 4096 } else if k == 84 || k == 83 { 1 } else { mask64(64) })
        }),
        ("getauxval", |_, _, _, _, _| i(0)),
        ("syscall", |e, st, a, _, _| {
            let n = e.c(st, a[0], 64)?;
            match n {
                318 => {
                    let p = e.c(st, a[1], 64)?;
                    let n = e.c(st, a[2], 64)?;
                    for k in 0..n {
                        st.mem.wbyte(p + k, (k * 37 + 11) as u8, 0)?;
                    }
                    i(n)
                }
                202 => i(0), // futex
                186 => i(1), // gettid
                332 => e.fail(st, 38, mask64(64)), // statx: not there, std falls back to stat
                _ => Err(Stop::Fatal(format!("syscall {}", n))),
            }
        }),
        ("getrandom", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let n = e.c(st, a[1], 64)?;
            for k in 0..n {
                st.mem.wbyte(p + k, (k * 37 + 11) as u8, 0)?;
            }
            i(n)
        }),
        ("__cxa_thread_atexit_impl", |_, _, _, _, _| i(0)),
        ("pthread_key_create", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            st.mem.write(p, 4, 1)?;
            i(0)
        }),
        ("pthread_setspecific", |_, _, _, _, _| i(0)),
        ("pthread_key_delete", |_, _, _, _, _| i(0)),
        ("pthread_self", |_, _, _, _, _| i(1)),
        ("sched_yield", |_, _, _, _, _| i(0)),
        ("flockfile", |_, _, _, _, _| Ok(Ret::None)),
        ("funlockfile", |_, _, _, _, _| Ok(Ret::None)),
        ("signal", |_, _, _, _, _| i(0)),
        ("dl_iterate_phdr", |_, _, _, _, _| i(0)),
        ("_Unwind_Backtrace", |_, _, _, _, _| i(5)),
        ("clock", |_, st, _, _, _| {
            st.clock += 1;
            i(st.clock)
        }),
        ("time", |e, st, a, _, _| {
            st.clock += 1;
            let p = e.c(st, a[0], 64)?;
            let t = 1_600_000_000 + st.clock / 1000;
            if p != 0 {
                st.mem.write(p, 8, t)?;
            }
            i(t)
        }),
        ("clock_gettime", |e, st, a, _, _| {
            st.clock += 1;
            let p = e.c(st, a[1], 64)?;
            st.mem.write(p, 8, 1_600_000_000 + st.clock / 1000)?;
            st.mem.write(p + 8, 8, st.clock % 1000 * 1_000_000)?;
            i(0)
        }),
        ("random", |_, st, _, _, _| {
            st.clock += 1;
            i(st.clock * 2654435761 & 0x7fff_ffff)
        }),
        ("srandom", |_, _, _, _, _| Ok(Ret::None)),
        ("abort", |e, st, _, _, _| {
            let _ = (e, st);
            Err(Stop::Violation("panic".into(), "abort".into()))
        }),
        ("exit", |_, _, _, _, _| Err(Stop::Violation("exit".into(), "process exit".into()))),
        ("_setjmp", |e, st, a, _, _| {
            let b = e.c(st, a[0], 64)?;
            Ok(Ret::SetJmp(b))
        }),
        ("_longjmp", |e, st, a, _, _| {
            let b = e.c(st, a[0], 64)?;
            let v = e.c(st, a[1], 32)?;
            let j = match st.jmp.get(&b) {
                Some(j) => j.clone(),
                None => return Err(Stop::Fatal("longjmp without setjmp".into())),
            };
            let d = st.frames.len();
            if j.depth > d {
                return Err(Stop::Violation("fault".into(), "longjmp to a dead frame".into()));
            }
            let (base, va, uid) = if j.depth == d {
                (st.base, st.va, st.uid)
            } else {
                let f = &st.frames[j.depth];
                (f.base as usize, f.va, f.uid)
            };
            if uid != j.uid {
                return Err(Stop::Violation("fault".into(), "longjmp to a dead frame".into()));
            }
            st.frames.truncate(j.depth);
            st.f = j.f;
            st.base = base;
            st.va = va;
            st.uid = uid;
            st.sp = j.sp;
            st.regs.truncate(base + j.f.nregs as usize);
            st.regs[base + j.dst as usize] = Val::I(if v == 0 { 1 } else { v });
            st.pc = j.pc;
            Ok(Ret::Jumped)
        }),
        // files
        ("open64", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let s = e.cstr(st, p)?;
            let fl = e.c(st, a[1], 32)?;
            let path = e.path(&s);
            if fl & 3 != 0 && s.first() != Some(&b'/') {
                // the current directory of a scenario which writes is one which is gone
                return e.fail(st, ENOENT, mask64(32));
            }
            if fl & 3 != 0 {
                return Err(Stop::Fatal(format!("opening {} for writing", path)));
            }
            if !e.lookup(st, &path) && e.is_dir(st, &path) {
                // a directory can be opened; reads fail with EISDIR
                st.fds.push(Some(FileObj { path, pos: 0, eof: false }));
                return i(st.fds.len() as u64 + 2);
            }
            match e.open(st, path)? {
                Ok(fd) => i(fd),
                Err(c) => e.fail(st, c, mask64(32)),
            }
        }),
        ("close", |e, st, a, _, _| {
            let fd = e.c(st, a[0], 32)?;
            let k = fd.wrapping_sub(3) as usize;
            if k < st.fds.len() && st.fds[k].is_some() {
                st.fds[k] = None;
                return i(0);
            }
            e.fail(st, EBADF, mask64(32))
        }),
        ("read", |e, st, a, _, _| {
            let fd = e.c(st, a[0], 32)?;
            let b = e.c(st, a[1], 64)?;
            let n = e.c(st, a[2], 64)?;
            match e.read_fd(st, fd, b, n)? {
                Some(m) => i(m),
                None => {
                    let k = fd.wrapping_sub(3) as usize;
                    let c = if k < st.fds.len() && st.fds[k].is_some() { EISDIR } else { EBADF };
                    e.fail(st, c, mask64(64))
                }
            }
        }),
        ("write", |e, st, a, _, _| {
            let n = e.c(st, a[2], 64)?;
            i(n)
        }),
        ("writev", |e, st, a, _, _| {
            let p = e.c(st, a[1], 64)?;
            let n = e.c(st, a[2], 32)?;
            let mut t = 0;
            for k in 0..n {
                t += st.mem.read(p + 16 * k + 8, 8)?.unwrap_or(0);
            }
            i(t)
        }),
        ("lseek64", |e, st, a, _, _| {
            let fd = e.c(st, a[0], 32)?;
            let off = e.c(st, a[1], 64)? as i64;
            let wh = e.c(st, a[2], 32)?;
            let k = fd.wrapping_sub(3) as usize;
            let path = match st.fds.get(k) {
                Some(Some(f)) => f.path.clone(),
                _ => return e.fail(st, EBADF, mask64(64)),
            };
            let len = st.vfs.get(&path).map(|b| b.len()).unwrap_or(0) as i64;
            let f = st.fds[k].as_mut().unwrap();
            let np = match wh {
                0 => off,
                1 => f.pos as i64 + off,
                _ => len + off,
            };
            f.pos = np as u64;
            i(np as u64)
        }),
        ("fstat64", |e, st, a, _, _| {
            let fd = e.c(st, a[0], 32)?;
            let b = e.c(st, a[1], 64)?;
            let k = fd.wrapping_sub(3) as usize;
            let path = match st.fds.get(k) {
                Some(Some(f)) => f.path.clone(),
                _ => return e.fail(st, EBADF, mask64(32)),
            };
            e.stat(st, &path, b)
        }),
        ("stat64", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let s = e.cstr(st, p)?;
            let path = e.path(&s);
            let b = e.c(st, a[1], 64)?;
            e.stat(st, &path, b)
        }),
        ("lstat64", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let s = e.cstr(st, p)?;
            let path = e.path(&s);
            let b = e.c(st, a[1], 64)?;
            e.stat(st, &path, b)
        }),
        ("fcntl", |_, _, _, _, _| i(0)),
        ("readlink", |e, st, _, _, _| e.fail(st, 22, mask64(64))),
        ("realpath", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let s = e.cstr(st, p)?;
            let path = e.path(&s);
            if s.is_empty() || !(e.lookup(st, &path) || e.is_dir(st, &path)) {
                return e.fail(st, ENOENT, 0);
            }
            let p = e.cstring(st, path.as_bytes())?;
            i(p)
        }),
        ("getcwd", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let mut b = e.env.cwd.clone().into_bytes();
            b.push(0);
            e.put(st, p, &b)?;
            i(p)
        }),
        ("opendir", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let s = e.cstr(st, p)?;
            let path = e.path(&s);
            if !e.is_dir(st, &path) {
                let c = if e.lookup(st, &path) { ENOTDIR } else { ENOENT };
                return e.fail(st, c, 0);
            }
            let pre = if path == "/" { "/".to_string() } else { format!("{}/", path) };
            let mut names: Vec<String> = vec![];
            let mut keys: Vec<String> = st.vfs.keys().filter(|k| k.starts_with('/')).cloned().collect();
            keys.push(format!("{}/", e.env.cwd));
            keys.sort();
            for k in keys {
                if let Some(r) = k.strip_prefix(&pre) {
                    if r.is_empty() {
                        continue;
                    }
                    let (n, d) = match r.find('/') {
                        Some(x) => (&r[..x], "d"),
                        None => (r, "f"),
                    };
                    let ent = format!("{}{}", d, n);
                    if !names.contains(&ent) {
                        names.push(ent);
                    }
                }
            }
            let h = e.malloc(st, 320, 16)?;
            st.dirs.push((names, 0));
            st.mem.write(h, 8, st.dirs.len() as u64 - 1)?;
            i(h)
        }),
        ("readdir64", |e, st, a, _, _| {
            let h = e.c(st, a[0], 64)?;
            let k = st.mem.read(h, 8)?.unwrap() as usize;
            let (ref names, pos) = st.dirs[k];
            if pos >= names.len() {
                return i(0);
            }
            let n = names[pos].clone();
            st.dirs[k].1 += 1;
            let d = h + 16;
            st.mem.set(d, 0, 0, 280)?;
            st.mem.write(d, 8, 1 + pos as u64)?;
            st.mem.write(d + 16, 2, 280)?;
            st.mem.write(d + 18, 1, if n.starts_with('d') { 4 } else { 8 })?;
            e.put(st, d + 19, &n.as_bytes()[1..])?;
            i(d)
        }),
        ("dirfd", |_, _, _, _, _| i(1000)),
        ("closedir", |_, _, _, _, _| i(0)),
        ("unlink", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let s = e.cstr(st, p)?;
            let path = e.path(&s);
            if !e.lookup(st, &path) {
                let c = if e.is_dir(st, &path) { EISDIR } else { e.not_found(st, &path) };
                return e.fail(st, c, mask64(32));
            }
            std::rc::Rc::make_mut(&mut st.vfs).remove(&path);
            i(0)
        }),
        ("rmdir", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let s = e.cstr(st, p)?;
            let path = e.path(&s);
            let pre = format!("{}/", path);
            if !e.is_dir(st, &path) {
                let c = if e.lookup(st, &path) { ENOTDIR } else { e.not_found(st, &path) };
                return e.fail(st, c, mask64(32));
            }
            if path == e.env.cwd || st.vfs.keys().any(|k| k.starts_with(&pre) && *k != pre) {
                return e.fail(st, 39, mask64(32));
            }
            std::rc::Rc::make_mut(&mut st.vfs).remove(&pre);
            i(0)
        }),
        ("mkdir", |e, st, _, _, _| e.fail(st, 13, mask64(32))),
        ("fopen64", |e, st, a, _, _| {
            let p = e.c(st, a[0], 64)?;
            let s = e.cstr(st, p)?;
            let path = e.path(&s);
            match e.open(st, path)? {
                Ok(fd) => {
                    let h = e.malloc(st, 232, 16)?;
                    st.mem.set(h, 0, 0, 232)?;
                    st.mem.write(h, 8, fd)?;
                    i(h)
                }
                Err(c) => e.fail(st, c, 0),
            }
        }),
        ("fclose", |e, st, a, _, _| {
            let h = e.c(st, a[0], 64)?;
            let fd = e.file_fd(st, h)?;
            let k = fd.wrapping_sub(3) as usize;
            if k < st.fds.len() {
                st.fds[k] = None;
                e.free(st, h)?;
            }
            i(0)
        }),
        ("getc", |e, st, a, _, _| {
            let h = e.c(st, a[0], 64)?;
            let fd = e.file_fd(st, h)?;
            let b = h + 16;
            match e.read_fd(st, fd, b, 1)? {
                Some(1) => {
                    let x = e.byte(st, b)?;
                    let x = e.ar.zext(x, 32);
                    Ok(Ret::V(e.val(x)))
                }
                _ => i(mask64(32)),
            }
        }),
        ("ungetc", |e, st, a, _, _| {
            let c = e.c(st, a[0], 32)?;
            let h = e.c(st, a[1], 64)?;
            let fd = e.file_fd(st, h)?;
            if let Some(Some(f)) = st.fds.get_mut(fd.wrapping_sub(3) as usize) {
                if c != mask64(32) {
                    f.pos -= 1;
                    f.eof = false;
                }
            }
            i(c)
        }),
        ("fread", |e, st, a, _, _| {
            let b = e.c(st, a[0], 64)?;
            let sz = e.c(st, a[1], 64)?;
            let n = e.c(st, a[2], 64)?;
            let h = e.c(st, a[3], 64)?;
            let fd = e.file_fd(st, h)?;
            let m = e.read_fd(st, fd, b, sz * n)?.unwrap_or(0);
            i(m / sz.max(1))
        }),
        ("feof", |e, st, a, _, _| {
            let h = e.c(st, a[0], 64)?;
            let fd = e.file_fd(st, h)?;
            let r = matches!(st.fds.get(fd.wrapping_sub(3) as usize), Some(Some(f)) if f.eof);
            i(r as u64)
        }),
        ("ferror", |_, _, _, _, _| i(0)),
        ("clearerr", |_, _, _, _, _| Ok(Ret::None)),
        ("fflush", |_, _, _, _, _| i(0)),
        ("fwrite", |e, st, a, _, _| {
            let n = e.c(st, a[2], 64)?;
            i(n)
        }),
        ("fputc", |e, st, a, _, _| {
            let n = e.c(st, a[0], 32)?;
            i(n)
        }),
        ("fprintf", |_, _, _, _, _| i(0)),
        ("dlclose", |_, _, _, _, _| i(0)),
        ("sqrt", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            i(f64::from_bits(x).sqrt().to_bits())
        }),
        ("fmod", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            let y = e.c(st, a[1], 64)?;
            i(unsafe { fmod(f64::from_bits(x), f64::from_bits(y)) }.to_bits())
        }),
        ("pow", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            let y = e.c(st, a[1], 64)?;
            i(unsafe { pow(f64::from_bits(x), f64::from_bits(y)) }.to_bits())
        }),
        ("frexp", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            let p = e.c(st, a[1], 64)?;
            let mut k = 0i32;
            let r = unsafe { frexp(f64::from_bits(x), &mut k) };
            st.mem.write(p, 4, k as u32 as u64)?;
            i(r.to_bits())
        }),
        ("log2", |e, st, a, _, _| {
            let x = e.c(st, a[0], 64)?;
            i(f64::from_bits(x).log2().to_bits())
        }),
    ];
    let panic_fn: ExtFn = |e, st, a, w, fi| {
        let n = e.m.funcs[fi as usize].name.clone();
        let _ = w;
        let mut msg = String::new();
        // panic(msg, len, ..), str-like first arguments
        if a.len() >= 2 {
            if let (Val::I(p), Val::I(l)) = (a[0], a[1]) {
                if l < 400 && l > 0 {
                    if let Ok(b) = st.mem.bytes(p, l) {
                        if b.iter().all(|x| x.1 == 0 && (x.0 == 10 || (32..127).contains(&x.0))) {
                            msg = b.iter().map(|x| x.0 as char).collect();
                        }
                    }
                }
            }
        }
        let short = short_name(&n);
        let at = e.backtrace(st).iter().map(|x| short_name(x)).find(|x| !x.starts_with("core::") && !x.starts_with("std::") && !x.starts_with("alloc::")).unwrap_or_default();
        Err(Stop::Violation("panic".into(), format!("{} in {}{}{}", short, at, if msg.is_empty() { "" } else { ": " }, msg)))
    };
    let map: HashMap<&str, usize> = table.iter().enumerate().map(|(k, (n, _))| (*n, k + 1)).collect();
    en.exts.clear();
    en.exts.push(panic_fn);
    for (_, f) in table {
        en.exts.push(*f);
    }
    let pk = en.exts.len() as u32;
    en.exts.push(panic_fn);
    for f in &en.m.funcs {
        if f.body.is_none() || f.name.starts_with("sym_") {
            if let Some(k) = map.get(f.name.as_str()) {
                f.ext.set(*k as u32);
            }
        }
        if panic_name(&f.name) {
            f.ext.set(pk);
        }
    }
}

/// Readable form of a v0-mangled name: the identifier path.
pub fn short_name(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut k = 2;
    let mut parts: Vec<String> = vec![];
    while k < b.len() {
        if b[k] == b's' {
            // disambiguator s<base62>_
            let mut j = k + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && (j - k) < 14 {
                k = j + 1;
                continue;
            }
        }
        if b[k].is_ascii_digit() && b[k] != b'0' {
            let mut l = 0usize;
            let mut j = k;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + l <= b.len() {
                let id = &n[j..j + l];
                if l > 0 && id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    parts.push(id.to_string());
                    k = j + l;
                    continue;
                }
            }
            k = j;
            continue;
        }
        k += 1;
    }
    parts.join("::")
}
