//! Paged copy-on-write memory with an optional symbolic byte overlay.
use crate::expr::Id;
use std::rc::Rc;

pub const PG: usize = 4096;
const CH: usize = 64; // pages per chunk

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PG],
    pub nsym: u32,
    pub sym: Option<Box<[Id; PG]>>, // 0: concrete
}

#[derive(Clone)]
struct Chunk {
    pages: [Option<Rc<Page>>; CH],
}

#[derive(Clone)]
pub struct Mem {
    top: Vec<Option<Rc<Chunk>>>,
}

pub struct Fault;

fn new_page() -> Rc<Page> {
    Rc::new(Page { data: [0; PG], nsym: 0, sym: None })
}

impl Mem {
    pub fn new(limit: u64) -> Mem {
        Mem { top: vec![None; (limit as usize) / (PG * CH)] }
    }
    #[inline]
    fn page(&self, addr: u64) -> Option<&Page> {
        let t = (addr as usize) / (PG * CH);
        let c = self.top.get(t)?.as_ref()?;
        c.pages[(addr as usize / PG) % CH].as_deref()
    }
    #[inline]
    fn page_mut(&mut self, addr: u64) -> Option<&mut Page> {
        let t = (addr as usize) / (PG * CH);
        let c = self.top.get_mut(t)?.as_mut()?;
        let c = Rc::make_mut(c);
        Some(Rc::make_mut(c.pages[(addr as usize / PG) % CH].as_mut()?))
    }
    pub fn mapped(&self, addr: u64) -> bool {
        self.page(addr).is_some()
    }
    pub fn map(&mut self, addr: u64, len: u64) {
        if len == 0 {
            return;
        }
        let mut a = addr & !(PG as u64 - 1);
        while a < addr + len {
            let t = (a as usize) / (PG * CH);
            let c = self.top[t].get_or_insert_with(|| Rc::new(Chunk { pages: std::array::from_fn(|_| None) }));
            let i = (a as usize / PG) % CH;
            if c.pages[i].is_none() {
                Rc::make_mut(c).pages[i] = Some(new_page());
            }
            a += PG as u64;
        }
    }
    pub fn unmap(&mut self, addr: u64, len: u64) {
        let mut a = addr & !(PG as u64 - 1);
        while a < addr + len {
            let t = (a as usize) / (PG * CH);
            if let Some(c) = self.top[t].as_mut() {
                Rc::make_mut(c).pages[(a as usize / PG) % CH] = None;
            }
            a += PG as u64;
        }
    }
    /// Read n<=8 bytes; Ok(None) when some byte is symbolic.
    #[inline]
    pub fn read(&self, addr: u64, n: usize) -> Result<Option<u64>, Fault> {
        let o = addr as usize % PG;
        if o + n <= PG {
            let p = match self.page(addr) {
                Some(p) => p,
                None => return Err(Fault),
            };
            if p.nsym != 0 {
                let s = p.sym.as_ref().unwrap();
                for k in 0..n {
                    if s[o + k] != 0 {
                        return Ok(None);
                    }
                }
            }
            let d = &p.data[o..o + n];
            let v = match n {
                8 => u64::from_le_bytes(d.try_into().unwrap()),
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u64,
                1 => d[0] as u64,
                2 => u16::from_le_bytes(d.try_into().unwrap()) as u64,
                _ => {
                    let mut v = 0u64;
                    for k in (0..n).rev() {
                        v = v << 8 | d[k] as u64;
                    }
                    v
                }
            };
            return Ok(Some(v));
        }
        let mut v = 0u64;
        for k in (0..n).rev() {
            match self.byte(addr + k as u64)? {
                (b, 0) => v = v << 8 | b as u64,
                _ => return Ok(None),
            }
        }
        Ok(Some(v))
    }
    /// (concrete value, symbolic id or 0)
    #[inline]
    pub fn byte(&self, addr: u64) -> Result<(u8, Id), Fault> {
        let p = match self.page(addr) {
            Some(p) => p,
            None => return Err(Fault),
        };
        let o = addr as usize % PG;
        let s = match &p.sym {
            Some(s) if p.nsym != 0 => s[o],
            _ => 0,
        };
        Ok((p.data[o], s))
    }
    #[inline]
    pub fn write(&mut self, addr: u64, n: usize, v: u64) -> Result<(), Fault> {
        let o = addr as usize % PG;
        if o + n <= PG {
            let p = match self.page_mut(addr) {
                Some(p) => p,
                None => return Err(Fault),
            };
            if p.nsym != 0 {
                let s = p.sym.as_mut().unwrap();
                for k in 0..n {
                    if s[o + k] != 0 {
                        s[o + k] = 0;
                        p.nsym -= 1;
                    }
                }
            }
            let b = v.to_le_bytes();
            match n {
                8 => p.data[o..o + 8].copy_from_slice(&b),
                4 => p.data[o..o + 4].copy_from_slice(&b[..4]),
                1 => p.data[o] = b[0],
                _ => p.data[o..o + n].copy_from_slice(&b[..n]),
            }
            return Ok(());
        }
        for k in 0..n {
            self.wbyte(addr + k as u64, (v >> (8 * k)) as u8, 0)?;
        }
        Ok(())
    }
    #[inline]
    pub fn wbyte(&mut self, addr: u64, v: u8, s: Id) -> Result<(), Fault> {
        let p = match self.page_mut(addr) {
            Some(p) => p,
            None => return Err(Fault),
        };
        let o = addr as usize % PG;
        p.data[o] = v;
        if s == 0 && p.nsym == 0 {
            return Ok(());
        }
        let sy = p.sym.get_or_insert_with(|| Box::new([0; PG]));
        let old = sy[o];
        sy[o] = s;
        if old == 0 && s != 0 {
            p.nsym += 1;
        } else if old != 0 && s == 0 {
            p.nsym -= 1;
            if p.nsym == 0 {
                p.sym = None;
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || dst == src {
            return Ok(());
        }
        // page-wise through a buffer (handles overlap by direction)
        if n <= 64 * 1024 {
            let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
            let mut syms: Vec<(u32, Id)> = vec![];
            let mut a = src;
            let end = src + n;
            while a < end {
                let o = a as usize % PG;
                let l = ((PG - o) as u64).min(end - a) as usize;
                let p = match self.page(a) {
                    Some(p) => p,
                    None => return Err(Fault),
                };
                if p.nsym != 0 {
                    let s = p.sym.as_ref().unwrap();
                    let base = buf.len();
                    for k in 0..l {
                        if s[o + k] != 0 {
                            syms.push(((base + k) as u32, s[o + k]));
                        }
                    }
                }
                buf.extend_from_slice(&p.data[o..o + l]);
                a += l as u64;
            }
            let mut a = dst;
            let mut i = 0usize;
            while i < buf.len() {
                let o = a as usize % PG;
                let l = (PG - o).min(buf.len() - i);
                let p = match self.page_mut(a) {
                    Some(p) => p,
                    None => return Err(Fault),
                };
                p.data[o..o + l].copy_from_slice(&buf[i..i + l]);
                if p.nsym != 0 {
                    let s = p.sym.as_mut().unwrap();
                    for k in 0..l {
                        if s[o + k] != 0 {
                            s[o + k] = 0;
                            p.nsym -= 1;
                        }
                    }
                }
                a += l as u64;
                i += l;
            }
            for (k, s) in syms {
                let v = buf[k as usize];
                self.wbyte(dst + k as u64, v, s)?;
            }
            return Ok(());
        }
        // large: chunks in the safe direction
        let step = 64 * 1024;
        if dst < src {
            let mut i = 0;
            while i < n {
                let l = step.min(n - i);
                self.copy(dst + i, src + i, l)?;
                i += l;
            }
        } else {
            let mut i = n;
            while i > 0 {
                let l = step.min(i);
                i -= l;
                self.copy(dst + i, src + i, l)?;
            }
        }
        Ok(())
    }
    pub fn set(&mut self, dst: u64, v: u8, s: Id, n: u64) -> Result<(), Fault> {
        let mut a = dst;
        let end = dst + n;
        while a < end {
            let o = a as usize % PG;
            let l = ((PG - o) as u64).min(end - a) as usize;
            if s == 0 {
                let p = match self.page_mut(a) {
                    Some(p) => p,
                    None => return Err(Fault),
                };
                p.data[o..o + l].fill(v);
                if p.nsym != 0 {
                    let sy = p.sym.as_mut().unwrap();
                    for k in 0..l {
                        if sy[o + k] != 0 {
                            sy[o + k] = 0;
                            p.nsym -= 1;
                        }
                    }
                }
            } else {
                for k in 0..l as u64 {
                    self.wbyte(a + k, v, s)?;
                }
            }
            a += l as u64;
        }
        Ok(())
    }
    pub fn bytes(&self, addr: u64, n: u64) -> Result<Vec<(u8, Id)>, Fault> {
        (0..n).map(|k| self.byte(addr + k)).collect()
    }
    pub fn put(&mut self, addr: u64, b: &[u8]) -> Result<(), Fault> {
        for (k, v) in b.iter().enumerate() {
            self.wbyte(addr + k as u64, *v, 0)?;
        }
        Ok(())
    }
}
