//! Parser for textual LLVM IR and lowering of functions to scalar micro-ops.
//! Aggregates and vectors are flattened: every SSA value owns one register
//! per scalar leaf.
use crate::expr::{mask, Arena, Op};
use std::cell::Cell;
use std::collections::HashMap;

pub type TyId = u32;
type Bytes = &'static [u8];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    X80,
    Label,
    Meta,
    Arr(u64, TyId),
    Vec(u32, TyId),
    Struct(Vec<TyId>, bool),
    Named(Bytes),
    Opaque,
}

#[derive(Clone, Copy, Debug)]
pub struct Leaf {
    pub off: u64,
    pub w: u16,
}

#[derive(Clone)]
pub struct TyInfo {
    pub size: u64,
    pub align: u64,
    pub leaves: Vec<Leaf>,
}

#[derive(Clone, Copy, Debug)]
pub enum Val {
    I(u64),
    S(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
    Abs,
    Floor,
    Ceil,
    Trunc,
    Sqrt,
    CmpOeq,
    CmpOgt,
    CmpOge,
    CmpOlt,
    CmpOle,
    CmpOne,
    CmpOrd,
    CmpUeq,
    CmpUgt,
    CmpUge,
    CmpUlt,
    CmpUle,
    CmpUne,
    CmpUno,
    FromS(u16),
    FromU(u16),
    ToS(u16),
    ToU(u16),
    Ext,
    Narrow,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Intr {
    MemCpy,
    MemMove,
    MemSet,
    Ov(Op, bool), // with.overflow: Add/Mul/"Sub" coded as Xor; signed
    Sat(Op, bool),
    UMin,
    UMax,
    SMin,
    SMax,
    Abs,
    CtPop,
    Ctlz,
    Cttz,
    BSwap,
    BitRev,
    Fshl,
    Fshr,
    UCmp(u16),
    SCmp(u16),
    Trap,
    VaStart,
    VaCopy,
    LoadRel,
    StackSave,
    StackRestore,
    Cpuid,
    Xgetbv,
    Memcmp,
    Unsupported,
    Pshufb,
}

#[derive(Debug)]
pub enum U {
    Bin { op: Op, w: u16, dst: u32, a: i32, b: i32 },
    Sub { w: u16, dst: u32, a: i32, b: i32 },
    Cmp { op: Op, neg: bool, w: u16, dst: u32, a: i32, b: i32 },
    Sel { w: u16, dst: u32, c: i32, a: i32, b: i32 },
    Mov { dst: u32, a: i32 },
    ZExt { dst: u32, a: i32, w: u16 },
    SExt { dst: u32, a: i32, sw: u16, w: u16 },
    Bits { dst: u32, a: i32, sw: u16, lo: u16, w: u16 },
    Pack { dst: u32, parts: Box<[(i32, u16)]> },
    Load { dst: u32, addr: i32, off: u32, w: u16 },
    Store { v: i32, addr: i32, off: u32, w: u16 },
    Gep0 { dst: u32, base: i32, off: i64 },
    Gep { dst: u32, base: i32, off: i64, idx: i32, iw: u16, scale: i64 },
    Alloca { dst: u32, size: u32, align: u32 },
    AllocaDyn { dst: u32, n: i32, size: u32, align: u32 },
    Call { f: u32, dst: u32, args: Box<[i32]>, ws: Box<[u16]> },
    CallInd { f: i32, dst: u32, args: Box<[i32]>, ws: Box<[u16]> },
    Intr { i: Intr, w: u16, dst: u32, args: Box<[i32]> },
    F { op: FOp, is32: bool, dst: u32, a: i32, b: i32 },
    Br { e: u32 },
    CBr { c: i32, t: u32, f: u32 },
    Switch { w: u16, v: i32, def: u32, cases: Box<[(u128, u32)]> },
    Ret { ops: Box<[i32]> },
    Unreachable,
    Bad(Box<str>),
}

pub struct Edge {
    pub pc: u32,
    pub moves: Box<[(u32, i32)]>,
}

pub struct Func {
    pub idx: u32,
    pub code: Vec<U>,
    pub edges: Vec<Edge>,
    pub nregs: u32,
    pub consts: Vec<Val>,
    pub nparams: u32,
    pub vararg: bool,
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // start of header line, end
    pub compiled: Cell<Option<&'static Func>>,
    pub executed: Cell<bool>,
    pub ext: Cell<u32>, // external model id, filled in by the executor
    pub vararg: bool,
}

#[derive(Clone, Copy, Debug)]
pub enum Sym {
    Func(u32),
    Global(u64),
    Null,
}

pub struct GlobalDef {
    pub addr: u64,
    pub ty: TyId,
    pub init: usize, // text position, 0 = external
    pub constant: bool,
    pub name: Bytes,
}

pub struct Module {
    pub text: Bytes,
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    tyinfo: Vec<Option<TyInfo>>,
    named: HashMap<Bytes, usize>, // text position of the definition
    named_ty: HashMap<Bytes, TyId>,
    pub syms: HashMap<Bytes, Sym>,
    pub funcs: Vec<FuncDecl>,
    pub globals: Vec<GlobalDef>,
    pub gend: u64,
    pub aliases: Vec<(Bytes, usize)>,
}

pub const FBASE: u64 = 0x10_0000;
pub const GBASE: u64 = 0x100_0000;

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub struct Cur {
    s: Bytes,
    p: usize,
}

impl Cur {
    fn peek(&self) -> u8 {
        if self.p < self.s.len() {
            self.s[self.p]
        } else {
            0
        }
    }
    fn ws(&mut self) {
        loop {
            match self.peek() {
                b' ' | b'\t' | b'\n' => self.p += 1,
                b';' => {
                    while self.peek() != b'\n' && self.peek() != 0 {
                        self.p += 1
                    }
                }
                _ => break,
            }
        }
    }
    fn sp(&mut self) {
        while self.peek() == b' ' || self.peek() == b'\t' {
            self.p += 1
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at: {}", c as char, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let a = self.p.saturating_sub(60);
        let e = (self.p + 80).min(self.s.len());
        format!("{} <<HERE>> {}", String::from_utf8_lossy(&self.s[a..self.p]), String::from_utf8_lossy(&self.s[self.p..e]))
    }
    fn word(&mut self) -> Bytes {
        self.ws();
        let st = self.p;
        while is_name(self.peek()) {
            self.p += 1
        }
        &self.s[st..self.p]
    }
    fn peek_word(&mut self) -> Bytes {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    fn eat_word(&mut self, w: &[u8]) -> bool {
        let p = self.p;
        if self.word() == w {
            true
        } else {
            self.p = p;
            false
        }
    }
    // after the sigil
    fn name(&mut self) -> Bytes {
        if self.peek() == b'"' {
            self.p += 1;
            let st = self.p;
            while self.peek() != b'"' {
                self.p += 1
            }
            let r = &self.s[st..self.p];
            self.p += 1;
            return r;
        }
        let st = self.p;
        while is_name(self.peek()) {
            self.p += 1
        }
        &self.s[st..self.p]
    }
    fn eol(&mut self) {
        while self.peek() != b'\n' && self.peek() != 0 {
            self.p += 1
        }
        if self.peek() == b'\n' {
            self.p += 1
        }
    }
    fn balanced(&mut self) {
        // at an opening bracket
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' | b'[' | b'{' | b'<' => d += 1,
                b')' | b']' | b'}' | b'>' => {
                    d -= 1;
                }
                b'"' => {
                    self.p += 1;
                    while self.peek() != b'"' {
                        self.p += 1
                    }
                }
                0 => panic!("unbalanced"),
                _ => {}
            }
            self.p += 1;
            if d == 0 {
                return;
            }
        }
    }
    fn at_type(&mut self) -> bool {
        self.ws();
        match self.peek() {
            b'{' | b'<' | b'[' | b'%' => true,
            b'i' => {
                let w = self.peek_word();
                w.len() > 1 && w[1..].iter().all(|c| c.is_ascii_digit())
            }
            _ => matches!(
                self.peek_word(),
                b"void" | b"ptr" | b"float" | b"double" | b"half" | b"x86_fp80" | b"fp128" | b"label" | b"metadata" | b"token"
            ),
        }
    }
    // attribute words (with arguments) before a type or a value
    fn skip_attrs(&mut self) {
        loop {
            self.ws();
            if self.at_type() {
                return;
            }
            match self.peek() {
                b'#' => {
                    self.p += 1;
                    self.word();
                }
                b'"' => {
                    self.name();
                    if self.peek() == b'=' {
                        self.p += 1;
                        self.name();
                    }
                }
                c if c.is_ascii_digit() => {
                    self.word();
                }
                c if c.is_ascii_alphabetic() => {
                    let w = self.word();
                    if w == b"true" || w == b"false" {
                        self.p -= w.len();
                        return;
                    }
                    if self.peek() == b'(' {
                        self.balanced();
                    }
                }
                _ => return,
            }
        }
    }
    // attributes between a type and its value (parameters)
    fn skip_vattrs(&mut self) -> bool {
        let mut byval = false;
        loop {
            self.ws();
            let c = self.peek();
            if c == b'"' {
                self.name();
                if self.peek() == b'=' {
                    self.p += 1;
                    self.name();
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return byval;
            }
            let w = self.peek_word();
            match w {
                b"noundef" | b"nonnull" | b"zeroext" | b"signext" | b"noalias" | b"nofree" | b"readonly" | b"writeonly"
                | b"readnone" | b"inreg" | b"returned" | b"writable" | b"dead_on_unwind" | b"dead_on_return" | b"immarg"
                | b"nest" | b"swiftself" | b"allocptr" | b"allocalign" | b"nocapture" | b"noext" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.balanced();
                    }
                }
                b"align" => {
                    self.word();
                    self.ws();
                    if self.peek() == b'(' {
                        self.balanced();
                    } else {
                        self.word();
                    }
                }
                b"captures" | b"range" | b"dereferenceable" | b"dereferenceable_or_null" | b"sret" | b"initializes"
                | b"nofpclass" | b"elementtype" | b"memory" => {
                    self.word();
                    self.balanced();
                }
                b"byval" => {
                    self.word();
                    self.balanced();
                    byval = true;
                }
                _ => return byval,
            }
        }
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let neg = if self.peek() == b'-' {
            self.p += 1;
            true
        } else {
            false
        };
        let mut v: u128 = 0;
        while self.peek().is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.peek() - b'0') as u128);
            self.p += 1;
        }
        if neg {
            (v as i128).wrapping_neg()
        } else {
            v as i128
        }
    }
}

fn hexv(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => panic!("hex"),
    }
}

impl Module {
    pub fn parse(text: Bytes) -> Module {
        let mut m = Module {
            text,
            tys: vec![],
            tymap: HashMap::new(),
            tyinfo: vec![],
            named: HashMap::new(),
            named_ty: HashMap::new(),
            syms: HashMap::new(),
            funcs: vec![],
            globals: vec![],
            gend: GBASE,
            aliases: vec![],
        };
        let mut pos = 0;
        let n = text.len();
        let mut pending: Vec<usize> = vec![];
        while pos < n {
            let e = text[pos..].iter().position(|c| *c == b'\n').map(|x| pos + x).unwrap_or(n);
            match text[pos] {
                b'%' => {
                    let mut c = Cur { s: text, p: pos + 1 };
                    let name = c.name();
                    c.ws();
                    c.expect(b'=');
                    assert!(c.eat_word(b"type"));
                    m.named.insert(name, c.p);
                }
                b'@' => pending.push(pos),
                b'd' if text[pos..].starts_with(b"define") => {
                    // find the end of the body
                    let mut q = e + 1;
                    loop {
                        if text[q] == b'}' && text[q - 1] == b'\n' {
                            break;
                        }
                        q += text[q..].iter().position(|c| *c == b'\n').unwrap() + 1;
                    }
                    m.add_func(pos, e, Some((pos, q)));
                    pos = q;
                    let e2 = text[pos..].iter().position(|c| *c == b'\n').map(|x| pos + x).unwrap_or(n);
                    pos = e2 + 1;
                    continue;
                }
                b'd' if text[pos..].starts_with(b"declare") => m.add_func(pos, e, None),
                _ => {}
            }
            pos = e + 1;
        }
        for p in pending {
            m.add_global(p);
        }
        // aliases
        for (name, p) in std::mem::take(&mut m.aliases) {
            let mut c = Cur { s: text, p };
            let _ty = m.ty(&mut c);
            c.expect(b',');
            let t = m.ty(&mut c);
            let v = m.constant(&mut c, t)[0];
            let s = if (v as u64) < GBASE { Sym::Func(((v as u64 - FBASE) / 16) as u32) } else { Sym::Global(v as u64) };
            m.syms.insert(name, s);
        }
        m
    }
    fn add_func(&mut self, pos: usize, eol: usize, body: Option<(usize, usize)>) {
        let line = &self.text[pos..eol];
        let at = {
            // first '@' outside quotes
            let mut i = 0;
            while line[i] != b'@' {
                i += 1
            }
            i
        };
        let mut c = Cur { s: self.text, p: pos + at + 1 };
        let name = c.name();
        // varargs: "...)" in the parameter list
        let st = c.p;
        c.balanced();
        let vararg = self.text[st..c.p].ends_with(b"...)");
        let weak_null = line[..at].windows(11).any(|w| w == b"extern_weak")
            && !matches!(name, b"getrandom" | b"__cxa_thread_atexit_impl");
        let idx = self.funcs.len() as u32;
        self.funcs.push(FuncDecl {
            name: String::from_utf8_lossy(name).into_owned(),
            body,
            compiled: Cell::new(None),
            executed: Cell::new(false),
            ext: Cell::new(0),
            vararg,
        });
        self.syms.insert(name, if weak_null { Sym::Null } else { Sym::Func(idx) });
    }
    fn add_global(&mut self, pos: usize) {
        let mut c = Cur { s: self.text, p: pos + 1 };
        let name = c.name();
        c.ws();
        c.expect(b'=');
        let mut external = false;
        let mut constant = false;
        loop {
            c.ws();
            let w = c.word();
            match w {
                b"external" => external = true,
                b"extern_weak" => external = true,
                b"global" => break,
                b"constant" => {
                    constant = true;
                    break;
                }
                b"alias" => {
                    self.aliases.push((name, c.p));
                    return;
                }
                b"ifunc" => return,
                _ => {
                    if w.is_empty() {
                        panic!("global: {}", c.ctx());
                    }
                    if c.peek() == b'(' {
                        c.balanced();
                    }
                }
            }
        }
        let ty = self.ty(&mut c);
        let info = self.info(ty).clone();
        let mut align = info.align;
        let init = if external { 0 } else { c.p };
        // explicit alignment
        let eol = self.text[c.p..].iter().position(|x| *x == b'\n').map(|x| c.p + x).unwrap_or(self.text.len());
        let line = &self.text[c.p..eol];
        if let Some(i) = line.windows(8).rposition(|w| w == b", align ") {
            let mut d = Cur { s: self.text, p: c.p + i + 8 };
            align = align.max(d.int() as u64);
        }
        self.gend = (self.gend + align - 1) / align * align;
        let addr = self.gend;
        self.gend += info.size.max(1);
        self.globals.push(GlobalDef { addr, ty, init, constant, name });
        self.syms.insert(name, Sym::Global(addr));
    }
    pub fn mk(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.tyinfo.push(None);
        self.tymap.insert(t, i);
        i
    }
    fn ty(&mut self, c: &mut Cur) -> TyId {
        c.ws();
        match c.peek() {
            b'{' => {
                c.p += 1;
                let mut v = vec![];
                if !c.eat(b'}') {
                    loop {
                        v.push(self.ty(c));
                        if !c.eat(b',') {
                            break;
                        }
                    }
                    c.expect(b'}');
                }
                self.mk(Ty::Struct(v, false))
            }
            b'<' => {
                c.p += 1;
                c.ws();
                if c.peek() == b'{' {
                    c.p += 1;
                    let mut v = vec![];
                    if !c.eat(b'}') {
                        loop {
                            v.push(self.ty(c));
                            if !c.eat(b',') {
                                break;
                            }
                        }
                        c.expect(b'}');
                    }
                    c.expect(b'>');
                    self.mk(Ty::Struct(v, true))
                } else {
                    let n = c.int() as u32;
                    assert!(c.eat_word(b"x"));
                    let t = self.ty(c);
                    c.expect(b'>');
                    self.mk(Ty::Vec(n, t))
                }
            }
            b'[' => {
                c.p += 1;
                let n = c.int() as u64;
                assert!(c.eat_word(b"x"));
                let t = self.ty(c);
                c.expect(b']');
                self.mk(Ty::Arr(n, t))
            }
            b'%' => {
                c.p += 1;
                let name = c.name();
                if let Some(t) = self.named_ty.get(name) {
                    return *t;
                }
                let p = *self.named.get(name).unwrap_or_else(|| panic!("unknown type {}", String::from_utf8_lossy(name)));
                let mut d = Cur { s: self.text, p };
                d.ws();
                let t = if d.peek_word() == b"opaque" { self.mk(Ty::Opaque) } else { self.ty(&mut d) };
                self.named_ty.insert(name, t);
                t
            }
            _ => {
                let w = c.word();
                match w {
                    b"void" => self.mk(Ty::Void),
                    b"ptr" => {
                        if c.eat_word(b"addrspace") {
                            c.balanced();
                        }
                        self.mk(Ty::Ptr)
                    }
                    b"float" => self.mk(Ty::F32),
                    b"double" => self.mk(Ty::F64),
                    b"x86_fp80" => self.mk(Ty::X80),
                    b"label" => self.mk(Ty::Label),
                    b"metadata" => self.mk(Ty::Meta),
                    b"token" => self.mk(Ty::Meta),
                    _ if w.len() > 1 && w[0] == b'i' => {
                        let n: u32 = std::str::from_utf8(&w[1..]).unwrap().parse().unwrap_or_else(|_| panic!("type: {}", c.ctx()));
                        self.mk(Ty::Int(n))
                    }
                    _ => panic!("type '{}': {}", String::from_utf8_lossy(w), c.ctx()),
                }
            }
        }
    }
    pub fn info(&mut self, t: TyId) -> &TyInfo {
        if self.tyinfo[t as usize].is_none() {
            let ty = self.tys[t as usize].clone();
            let r = match ty {
                Ty::Void | Ty::Label | Ty::Meta | Ty::Opaque => TyInfo { size: 0, align: 1, leaves: vec![] },
                Ty::Int(n) => {
                    let b = ((n + 7) / 8) as u64;
                    let a = if n > 64 { 16 } else { b.next_power_of_two() };
                    TyInfo { size: (b + a - 1) / a * a, align: a, leaves: vec![Leaf { off: 0, w: n as u16 }] }
                }
                Ty::Ptr | Ty::F64 => TyInfo { size: 8, align: 8, leaves: vec![Leaf { off: 0, w: 64 }] },
                Ty::F32 => TyInfo { size: 4, align: 4, leaves: vec![Leaf { off: 0, w: 32 }] },
                Ty::X80 => TyInfo { size: 16, align: 16, leaves: vec![Leaf { off: 0, w: 80 }] },
                Ty::Arr(n, e) => {
                    let i = self.info(e).clone();
                    let mut leaves = vec![];
                    if n * i.leaves.len() as u64 <= 4096 {
                        for k in 0..n {
                            for l in &i.leaves {
                                leaves.push(Leaf { off: l.off + k * i.size, w: l.w });
                            }
                        }
                    }
                    TyInfo { size: n * i.size, align: i.align, leaves }
                }
                Ty::Vec(n, e) => {
                    let i = self.info(e).clone();
                    let w = i.leaves[0].w;
                    let size;
                    let mut leaves = vec![];
                    if w % 8 == 0 {
                        for k in 0..n as u64 {
                            leaves.push(Leaf { off: k * (w as u64 / 8), w });
                        }
                        size = n as u64 * (w as u64 / 8);
                    } else {
                        for _ in 0..n as u64 {
                            leaves.push(Leaf { off: u64::MAX, w });
                        }
                        size = (n as u64 * w as u64 + 7) / 8;
                    }
                    let a = size.next_power_of_two();
                    TyInfo { size: (size + a - 1) / a * a, align: a, leaves }
                }
                Ty::Struct(v, packed) => {
                    let mut off = 0;
                    let mut al = 1;
                    let mut leaves = vec![];
                    for f in v {
                        let i = self.info(f).clone();
                        if !packed {
                            off = (off + i.align - 1) / i.align * i.align;
                            al = al.max(i.align);
                        }
                        for l in &i.leaves {
                            leaves.push(Leaf { off: l.off.wrapping_add(off), w: l.w });
                        }
                        off += i.size;
                    }
                    off = (off + al - 1) / al * al;
                    TyInfo { size: off, align: al, leaves }
                }
                Ty::Named(_) => unreachable!(),
            };
            self.tyinfo[t as usize] = Some(r);
        }
        self.tyinfo[t as usize].as_ref().unwrap()
    }
    fn nl(&mut self, t: TyId) -> usize {
        self.info(t).leaves.len()
    }
    // offset, first leaf index and type of field i
    fn field(&mut self, t: TyId, i: u64) -> (u64, usize, TyId) {
        match self.tys[t as usize].clone() {
            Ty::Struct(v, packed) => {
                let mut off = 0;
                let mut lf = 0;
                for (k, f) in v.iter().enumerate() {
                    let inf = self.info(*f).clone();
                    if !packed {
                        off = (off + inf.align - 1) / inf.align * inf.align;
                    }
                    if k as u64 == i {
                        return (off, lf, *f);
                    }
                    off += inf.size;
                    lf += inf.leaves.len();
                }
                panic!("field")
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let inf = self.info(e).clone();
                (i * inf.size, i as usize * inf.leaves.len(), e)
            }
            x => panic!("field of {:?}", x),
        }
    }
    pub fn sym_addr(&self, name: Bytes) -> u64 {
        match self.syms.get(name) {
            Some(Sym::Func(i)) => FBASE + 16 * *i as u64,
            Some(Sym::Global(a)) => *a,
            Some(Sym::Null) => 0,
            None => panic!("unknown symbol {}", String::from_utf8_lossy(name)),
        }
    }
    // constant leaves
    fn constant(&mut self, c: &mut Cur, t: TyId) -> Vec<u128> {
        c.ws();
        let ch = c.peek();
        match ch {
            b'@' => {
                c.p += 1;
                let n = c.name();
                return vec![self.sym_addr(n) as u128];
            }
            b'-' | b'0'..=b'9' => {
                let ty = self.tys[t as usize].clone();
                match ty {
                    Ty::F64 | Ty::F32 => {
                        let st = c.p;
                        while is_name(c.peek()) || c.peek() == b'+' {
                            c.p += 1;
                        }
                        let s = std::str::from_utf8(&c.s[st..c.p]).unwrap();
                        let d = if let Some(h) = s.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                        } else {
                            s.parse::<f64>().unwrap()
                        };
                        if ty == Ty::F32 {
                            return vec![(d as f32).to_bits() as u128];
                        }
                        return vec![d.to_bits() as u128];
                    }
                    _ => {
                        let v = c.int();
                        let w = self.info(t).leaves[0].w;
                        return vec![(v as u128) & mask(w)];
                    }
                }
            }
            b'{' | b'[' | b'<' => {
                let mut close = match ch {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => b'>',
                };
                c.p += 1;
                let mut packed = false;
                if ch == b'<' && c.peek() == b'{' {
                    c.p += 1;
                    packed = true;
                    close = b'}';
                }
                let mut r = vec![];
                if !c.eat(close) {
                    loop {
                        let et = self.ty(c);
                        r.extend(self.constant(c, et));
                        if !c.eat(b',') {
                            break;
                        }
                    }
                    c.expect(close);
                }
                if packed {
                    c.expect(b'>');
                }
                return r;
            }
            _ => {}
        }
        if c.peek() == b'+' || (c.peek() == b'-' && c.s[c.p + 1].is_ascii_alphabetic()) {
            let neg = c.peek() == b'-';
            c.p += 1;
            let w = c.word();
            let v = if w == b"inf" { f64::INFINITY } else { f64::NAN };
            let v = if neg { -v } else { v };
            return vec![if self.tys[t as usize] == Ty::F32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }];
        }
        let w = c.word();
        match w {
            b"true" => vec![1],
            b"false" => vec![0],
            b"null" | b"zeroinitializer" | b"undef" | b"poison" | b"none" => vec![0; self.nl(t)],
            b"c" => {
                let mut r = vec![];
                c.expect(b'"');
                while c.peek() != b'"' {
                    if c.peek() == b'\\' {
                        if c.s[c.p + 1] == b'\\' {
                            r.push(b'\\' as u128);
                            c.p += 2;
                        } else {
                            r.push((hexv(c.s[c.p + 1]) * 16 + hexv(c.s[c.p + 2])) as u128);
                            c.p += 3;
                        }
                    } else {
                        r.push(c.peek() as u128);
                        c.p += 1;
                    }
                }
                c.p += 1;
                r
            }
            b"splat" => {
                c.expect(b'(');
                let et = self.ty(c);
                let v = self.constant(c, et);
                c.expect(b')');
                let n = self.nl(t);
                vec![v[0]; n]
            }
            b"dso_local_equivalent" | b"no_cfi" => self.constant(c, t),
            b"getelementptr" => {
                loop {
                    c.ws();
                    if c.peek() == b'(' {
                        break;
                    }
                    let w = c.word();
                    if w == b"inrange" {
                        c.ws();
                        c.balanced();
                    }
                }
                c.expect(b'(');
                let st = self.ty(c);
                c.expect(b',');
                let pt = self.ty(c);
                let mut addr = self.constant(c, pt)[0] as i128;
                let mut cur = st;
                let mut first = true;
                while c.eat(b',') {
                    let it = self.ty(c);
                    let iw = self.info(it).leaves[0].w;
                    let v = crate::expr::sx(self.constant(c, it)[0], iw);
                    if first {
                        addr += v * self.info(cur).size as i128;
                        first = false;
                    } else {
                        match self.tys[cur as usize].clone() {
                            Ty::Struct(..) => {
                                let (o, _, f) = self.field(cur, v as u64);
                                addr += o as i128;
                                cur = f;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                addr += v * self.info(e).size as i128;
                                cur = e;
                            }
                            _ => panic!("gep const"),
                        }
                    }
                }
                c.expect(b')');
                vec![addr as u128 & mask(64)]
            }
            b"ptrtoint" | b"inttoptr" | b"trunc" | b"bitcast" | b"ptrtoaddr" | b"zext" | b"sext" | b"addrspacecast" => {
                while c.peek_word().len() > 0 && !{
                    c.ws();
                    c.peek() == b'('
                } {
                    c.word();
                }
                c.expect(b'(');
                let st = self.ty(c);
                let v = self.constant(c, st)[0];
                assert!(c.eat_word(b"to"));
                let dt = self.ty(c);
                c.expect(b')');
                let dw = self.info(dt).leaves[0].w;
                let sw = self.info(st).leaves[0].w;
                let v = if w == b"sext" { crate::expr::sx(v, sw) as u128 } else { v };
                vec![v & mask(dw)]
            }
            b"add" | b"sub" | b"xor" | b"and" | b"or" | b"mul" | b"shl" | b"lshr" => {
                loop {
                    c.ws();
                    if c.peek() == b'(' {
                        break;
                    }
                    c.word();
                }
                c.expect(b'(');
                let st = self.ty(c);
                let a = self.constant(c, st)[0];
                c.expect(b',');
                let st2 = self.ty(c);
                let b = self.constant(c, st2)[0];
                c.expect(b')');
                let dw = self.info(st).leaves[0].w;
                let r = match w {
                    b"add" => a.wrapping_add(b),
                    b"sub" => a.wrapping_sub(b),
                    b"xor" => a ^ b,
                    b"and" => a & b,
                    b"or" => a | b,
                    b"mul" => a.wrapping_mul(b),
                    b"shl" => a << b as u32,
                    _ => a >> b as u32,
                };
                vec![r & mask(dw)]
            }
            _ if w.starts_with(b"f0x") => {
                vec![u128::from_str_radix(std::str::from_utf8(&w[3..]).unwrap(), 16).unwrap()]
            }
            _ => panic!("constant '{}': {}", String::from_utf8_lossy(w), c.ctx()),
        }
    }
    /// Write the initializer of a global into buf (buf[0] is the global's first byte)
    pub fn write_init(&mut self, pos: usize, t: TyId, buf: &mut [u8]) {
        let mut c = Cur { s: self.text, p: pos };
        self.winit(&mut c, t, buf, 0);
    }
    fn winit(&mut self, c: &mut Cur, t: TyId, buf: &mut [u8], off: usize) {
        c.ws();
        let ch = c.peek();
        let ty = self.tys[t as usize].clone();
        if matches!(ty, Ty::Struct(..) | Ty::Arr(..)) && (ch == b'{' || ch == b'<' || ch == b'[') {
            let mut close = match ch {
                b'{' => b'}',
                b'[' => b']',
                _ => b'>',
            };
            c.p += 1;
            let mut packed = false;
            if ch == b'<' {
                c.expect(b'{');
                packed = true;
                close = b'}';
            }
            let mut i = 0;
            if !c.eat(close) {
                loop {
                    let et = self.ty(c);
                    let (o, _, _) = self.field(t, i);
                    self.winit(c, et, buf, off + o as usize);
                    i += 1;
                    if !c.eat(b',') {
                        break;
                    }
                }
                c.expect(close);
            }
            if packed {
                c.expect(b'>');
            }
            return;
        }
        let p = c.p;
        if c.eat_word(b"zeroinitializer") || c.eat_word(b"undef") || c.eat_word(b"poison") {
            return;
        }
        c.p = p;
        if ch == b'c' && c.s[c.p + 1] == b'"' {
            c.p += 2;
            let mut o = off;
            while c.peek() != b'"' {
                if c.peek() == b'\\' {
                    if c.s[c.p + 1] == b'\\' {
                        buf[o] = b'\\';
                        c.p += 2;
                    } else {
                        buf[o] = hexv(c.s[c.p + 1]) * 16 + hexv(c.s[c.p + 2]);
                        c.p += 3;
                    }
                } else {
                    buf[o] = c.peek();
                    c.p += 1;
                }
                o += 1;
            }
            c.p += 1;
            return;
        }
        let vals = self.constant(c, t);
        let leaves = self.info(t).leaves.clone();
        for (v, l) in vals.iter().zip(leaves.iter()) {
            let nb = (l.w as usize + 7) / 8;
            for k in 0..nb {
                buf[off + l.off as usize + k] = (v >> (8 * k)) as u8;
            }
        }
    }
}

// ------------------------------------------------------------------
// function compilation

struct Fc<'m> {
    m: &'m mut Module,
    ar: &'m mut Arena,
    regs: HashMap<Bytes, (u32, u32)>,
    nregs: u32,
    consts: Vec<Val>,
    cmap: HashMap<(u128, u16), i32>,
    code: Vec<U>,
    // terminators: (code index, successor labels); phi moves resolved at the end
    labels: HashMap<Bytes, u32>,
    cur: Bytes,
    phis: HashMap<Bytes, Vec<(Vec<u32>, Vec<(Bytes, Vec<i32>)>)>>,
    edge_req: Vec<(Bytes, Bytes)>, // (from, to)
}

impl<'m> Fc<'m> {
    fn k(&mut self, v: u128, w: u16) -> i32 {
        if let Some(i) = self.cmap.get(&(v, w)) {
            return *i;
        }
        let val = if w <= 64 { Val::I(v as u64) } else { Val::S(self.ar.cst(v, w)) };
        self.consts.push(val);
        let i = -(self.consts.len() as i32);
        self.cmap.insert((v, w), i);
        i
    }
    fn tmp(&mut self) -> u32 {
        self.nregs += 1;
        self.nregs - 1
    }
    fn local(&mut self, n: Bytes, cnt: u32) -> u32 {
        if let Some((b, c)) = self.regs.get(n) {
            assert!(*c == cnt, "register size mismatch for {}", String::from_utf8_lossy(n));
            return *b;
        }
        let b = self.nregs;
        self.nregs += cnt;
        self.regs.insert(n, (b, cnt));
        b
    }
    fn operand(&mut self, c: &mut Cur, t: TyId) -> Vec<i32> {
        c.ws();
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            let cnt = self.m.nl(t) as u32;
            let b = self.local(n, cnt);
            return (b..b + cnt).map(|x| x as i32).collect();
        }
        let v = self.m.constant(c, t);
        let leaves = self.m.info(t).leaves.clone();
        v.iter().zip(leaves.iter()).map(|(v, l)| self.k(*v, l.w)).collect()
    }
    fn top(&mut self, c: &mut Cur) -> (TyId, Vec<i32>) {
        let t = self.m.ty(c);
        c.skip_vattrs();
        let o = self.operand(c, t);
        (t, o)
    }
    fn edge(&mut self, to: Bytes) -> u32 {
        self.edge_req.push((self.cur, to));
        self.edge_req.len() as u32 - 1
    }
    fn label(&mut self, c: &mut Cur) -> Bytes {
        assert!(c.eat_word(b"label"), "label: {}", c.ctx());
        c.expect(b'%');
        c.name()
    }
    fn w0(&mut self, t: TyId) -> u16 {
        self.m.info(t).leaves.first().map(|l| l.w).unwrap_or(0)
    }
    fn bad(&mut self, s: &str) {
        self.code.push(U::Bad(s.into()));
    }

    fn instr(&mut self, c: &mut Cur) {
        c.ws();
        let mut dstn: Option<Bytes> = None;
        if c.peek() == b'%' {
            c.p += 1;
            dstn = Some(c.name());
            c.expect(b'=');
        }
        let start = c.p;
        let op = c.word();
        macro_rules! dst {
            ($n:expr) => {{
                let n = $n as u32;
                match dstn {
                    Some(d) => self.local(d, n),
                    None => {
                        let b = self.nregs;
                        self.nregs += n;
                        b
                    }
                }
            }};
        }
        let flags = |c: &mut Cur| loop {
            if c.at_type() {
                break;
            }
            let w = c.word();
            if w.is_empty() {
                panic!("flags: {}", c.ctx());
            }
        };
        match op {
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"and" | b"or" | b"xor" | b"shl" | b"lshr" | b"ashr" => {
                flags(c);
                let (t, a) = self.top(c);
                c.expect(b',');
                let b = self.operand(c, t);
                let w = self.w0(t);
                let d = dst!(a.len());
                for i in 0..a.len() {
                    let dd = d + i as u32;
                    if op == b"sub" {
                        self.code.push(U::Sub { w, dst: dd, a: a[i], b: b[i] });
                        continue;
                    }
                    let o = match op {
                        b"add" => Op::Add,
                        b"mul" => Op::Mul,
                        b"udiv" => Op::UDiv,
                        b"sdiv" => Op::SDiv,
                        b"urem" => Op::URem,
                        b"srem" => Op::SRem,
                        b"and" => Op::And,
                        b"or" => Op::Or,
                        b"xor" => Op::Xor,
                        b"shl" => Op::Shl,
                        b"lshr" => Op::LShr,
                        _ => Op::AShr,
                    };
                    self.code.push(U::Bin { op: o, w, dst: dd, a: a[i], b: b[i] });
                }
            }
            b"icmp" => {
                let mut p = c.word();
                if p == b"samesign" {
                    p = c.word();
                }
                let (t, a) = self.top(c);
                c.expect(b',');
                let b = self.operand(c, t);
                let w = self.w0(t);
                let d = dst!(a.len());
                for i in 0..a.len() {
                    let dd = d + i as u32;
                    let (o, neg, sw) = match p {
                        b"eq" => (Op::Eq, false, false),
                        b"ne" => (Op::Eq, true, false),
                        b"ult" => (Op::Ult, false, false),
                        b"ule" => (Op::Ule, false, false),
                        b"ugt" => (Op::Ult, false, true),
                        b"uge" => (Op::Ule, false, true),
                        b"slt" => (Op::Slt, false, false),
                        b"sle" => (Op::Sle, false, false),
                        b"sgt" => (Op::Slt, false, true),
                        b"sge" => (Op::Sle, false, true),
                        _ => panic!("icmp {}", c.ctx()),
                    };
                    let (x, y) = if sw { (b[i], a[i]) } else { (a[i], b[i]) };
                    self.code.push(U::Cmp { op: o, neg, w, dst: dd, a: x, b: y });
                }
            }
            b"select" => {
                flags(c);
                let (_ct, cc) = self.top(c);
                c.expect(b',');
                let (t, a) = self.top(c);
                c.expect(b',');
                let (_, b) = self.top(c);
                let leaves = self.m.info(t).leaves.clone();
                let d = dst!(a.len());
                for i in 0..a.len() {
                    let cond = if cc.len() == 1 { cc[0] } else { cc[i] };
                    self.code.push(U::Sel { w: leaves[i].w, dst: d + i as u32, c: cond, a: a[i], b: b[i] });
                }
            }
            b"zext" | b"sext" | b"trunc" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"ptrtoaddr" | b"freeze" | b"addrspacecast" => {
                flags(c);
                let (t, a) = self.top(c);
                let dt = if op == b"freeze" {
                    t
                } else {
                    assert!(c.eat_word(b"to"));
                    self.m.ty(c)
                };
                let sl = self.m.info(t).leaves.clone();
                let dl = self.m.info(dt).leaves.clone();
                let d = dst!(dl.len());
                if op == b"freeze" {
                    for i in 0..a.len() {
                        self.code.push(U::Mov { dst: d + i as u32, a: a[i] });
                    }
                } else if op == b"bitcast" && sl.len() != dl.len() {
                    // through one wide integer when it fits, otherwise leaf by leaf
                    let total: u32 = sl.iter().map(|l| l.w as u32).sum();
                    if total <= 128 {
                        let wide = if a.len() == 1 {
                            a[0]
                        } else {
                            let t = self.tmp();
                            let parts: Vec<(i32, u16)> = a.iter().zip(sl.iter()).map(|(x, l)| (*x, l.w)).collect();
                            self.code.push(U::Pack { dst: t, parts: parts.into() });
                            t as i32
                        };
                        let mut lo = 0;
                        for (i, l) in dl.iter().enumerate() {
                            self.code.push(U::Bits { dst: d + i as u32, a: wide, sw: total as u16, lo, w: l.w });
                            lo += l.w;
                        }
                    } else {
                        // group
                        let sw = sl[0].w;
                        let dw = dl[0].w;
                        if sw < dw {
                            let per = (dw / sw) as usize;
                            for i in 0..dl.len() {
                                let parts: Vec<(i32, u16)> = (0..per).map(|k| (a[i * per + k], sw)).collect();
                                self.code.push(U::Pack { dst: d + i as u32, parts: parts.into() });
                            }
                        } else {
                            let per = (sw / dw) as usize;
                            for i in 0..dl.len() {
                                self.code.push(U::Bits { dst: d + i as u32, a: a[i / per], sw, lo: (i % per) as u16 * dw, w: dw });
                            }
                        }
                    }
                } else {
                    for i in 0..a.len() {
                        let (sw, w) = (sl[i].w, dl[i].w);
                        let dd = d + i as u32;
                        if sw == w {
                            self.code.push(U::Mov { dst: dd, a: a[i] });
                        } else if w < sw {
                            self.code.push(U::Bits { dst: dd, a: a[i], sw, lo: 0, w });
                        } else if op == b"sext" {
                            self.code.push(U::SExt { dst: dd, a: a[i], sw, w });
                        } else {
                            self.code.push(U::ZExt { dst: dd, a: a[i], w });
                        }
                    }
                }
            }
            b"load" => {
                let _ = c.eat_word(b"atomic");
                let _ = c.eat_word(b"volatile");
                let t = self.m.ty(c);
                c.expect(b',');
                let (_, a) = self.top(c);
                let leaves = self.m.info(t).leaves.clone();
                let d = dst!(leaves.len());
                if leaves.iter().any(|l| l.off > u32::MAX as u64) {
                    // lanes narrower than a byte are packed
                    let w = leaves[0].w;
                    let tot = w * leaves.len() as u16;
                    let tw = (tot + 7) / 8 * 8;
                    if tw > 64 {
                        self.bad("wide sub-byte vector load");
                        return;
                    }
                    let x = self.tmp();
                    self.code.push(U::Load { dst: x, addr: a[0], off: 0, w: tw });
                    for i in 0..leaves.len() {
                        self.code.push(U::Bits { dst: d + i as u32, a: x as i32, sw: tw, lo: i as u16 * w, w });
                    }
                    return;
                }
                for (i, l) in leaves.iter().enumerate() {
                    self.code.push(U::Load { dst: d + i as u32, addr: a[0], off: l.off as u32, w: l.w });
                }
            }
            b"store" => {
                let _ = c.eat_word(b"atomic");
                let _ = c.eat_word(b"volatile");
                let (t, v) = self.top(c);
                c.expect(b',');
                let (_, a) = self.top(c);
                let leaves = self.m.info(t).leaves.clone();
                if leaves.iter().any(|l| l.off > u32::MAX as u64) {
                    let tot: u16 = leaves.iter().map(|l| l.w).sum();
                    let tw = (tot + 7) / 8 * 8;
                    if tw > 64 {
                        self.bad("wide sub-byte vector store");
                        return;
                    }
                    let mut parts: Vec<(i32, u16)> = v.iter().zip(leaves.iter()).map(|(v, l)| (*v, l.w)).collect();
                    if tw > tot {
                        let z = self.k(0, tw - tot);
                        parts.push((z, tw - tot));
                    }
                    let x = self.tmp();
                    self.code.push(U::Pack { dst: x, parts: parts.into() });
                    self.code.push(U::Store { v: x as i32, addr: a[0], off: 0, w: tw });
                    return;
                }
                for (i, l) in leaves.iter().enumerate() {
                    self.code.push(U::Store { v: v[i], addr: a[0], off: l.off as u32, w: l.w });
                }
            }
            b"getelementptr" => {
                loop {
                    if c.at_type() {
                        break;
                    }
                    let w = c.word();
                    if w == b"inrange" {
                        c.balanced();
                    }
                }
                let st = self.m.ty(c);
                c.expect(b',');
                let (bt, base) = self.top(c);
                let d = dst!(base.len());
                if base.len() != 1 || self.m.tys[bt as usize] != Ty::Ptr {
                    self.bad("vector gep");
                    c.eol();
                    return;
                }
                let mut off: i128 = 0;
                let mut terms: Vec<(i32, u16, i64)> = vec![];
                let mut cur = st;
                let mut first = true;
                while c.eat(b',') {
                    c.ws();
                    if c.peek() == b'!' {
                        break;
                    }
                    let it = self.m.ty(c);
                    if self.m.nl(it) != 1 {
                        self.bad("vector gep");
                        c.eol();
                        return;
                    }
                    let iw = self.w0(it);
                    let o = self.operand(c, it)[0];
                    let cv = if o < 0 {
                        match self.consts[(-o - 1) as usize] {
                            Val::I(v) => Some(crate::expr::sx(v as u128, iw)),
                            _ => None,
                        }
                    } else {
                        None
                    };
                    let scale;
                    if first {
                        scale = self.m.info(cur).size;
                        first = false;
                    } else {
                        match self.m.tys[cur as usize].clone() {
                            Ty::Struct(..) => {
                                let (fo, _, f) = self.m.field(cur, cv.expect("struct index") as u64);
                                off += fo as i128;
                                cur = f;
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = self.m.info(e).size;
                                cur = e;
                            }
                            _ => panic!("gep into scalar"),
                        }
                    }
                    match cv {
                        Some(v) => off += v * scale as i128,
                        None => terms.push((o, iw, scale as i64)),
                    }
                }
                if terms.is_empty() {
                    self.code.push(U::Gep0 { dst: d, base: base[0], off: off as i64 });
                } else {
                    let mut b = base[0];
                    let n = terms.len();
                    for (i, (o, iw, sc)) in terms.into_iter().enumerate() {
                        let last = i + 1 == n;
                        let dd = if last { d } else { self.tmp() };
                        self.code.push(U::Gep { dst: dd, base: b, off: if i == 0 { off as i64 } else { 0 }, idx: o, iw, scale: sc });
                        b = dd as i32;
                    }
                }
            }
            b"alloca" => {
                let _ = c.eat_word(b"inalloca");
                let t = self.m.ty(c);
                let mut n: Option<i32> = None;
                let mut align = self.m.info(t).align;
                while c.eat(b',') {
                    c.ws();
                    if c.peek() == b'!' {
                        break;
                    }
                    if c.eat_word(b"align") {
                        align = c.int() as u64;
                    } else if c.eat_word(b"addrspace") {
                        c.balanced();
                    } else {
                        let (_, o) = self.top(c);
                        n = Some(o[0]);
                    }
                }
                let size = self.m.info(t).size as u32;
                let d = dst!(1);
                match n {
                    None => self.code.push(U::Alloca { dst: d, size, align: align as u32 }),
                    Some(n) => self.code.push(U::AllocaDyn { dst: d, n, size, align: align as u32 }),
                }
            }
            b"extractvalue" => {
                let (t, a) = self.top(c);
                let mut cur = t;
                let mut lf = 0;
                while c.eat(b',') {
                    c.ws();
                    if c.peek() == b'!' {
                        break;
                    }
                    let i = c.int() as u64;
                    let (_, l, f) = self.m.field(cur, i);
                    lf += l;
                    cur = f;
                }
                let n = self.m.nl(cur);
                let d = dst!(n);
                for i in 0..n {
                    self.code.push(U::Mov { dst: d + i as u32, a: a[lf + i] });
                }
            }
            b"insertvalue" => {
                let (t, mut a) = self.top(c);
                c.expect(b',');
                let (_, v) = self.top(c);
                let mut cur = t;
                let mut lf = 0;
                while c.eat(b',') {
                    c.ws();
                    if c.peek() == b'!' {
                        break;
                    }
                    let i = c.int() as u64;
                    let (_, l, f) = self.m.field(cur, i);
                    lf += l;
                    cur = f;
                }
                a[lf..lf + v.len()].copy_from_slice(&v);
                let d = dst!(a.len());
                for i in 0..a.len() {
                    self.code.push(U::Mov { dst: d + i as u32, a: a[i] });
                }
            }
            b"extractelement" => {
                let (t, a) = self.top(c);
                c.expect(b',');
                let (_, i) = self.top(c);
                let d = dst!(1);
                if i[0] < 0 {
                    if let Val::I(k) = self.consts[(-i[0] - 1) as usize] {
                        self.code.push(U::Mov { dst: d, a: a[k as usize] });
                    }
                } else {
                    // dynamic index: chain of selects
                    let w = self.w0(t);
                    self.code.push(U::Mov { dst: d, a: a[0] });
                    for k in 1..a.len() {
                        let t = self.tmp();
                        let kk = self.k(k as u128, 64);
                        self.code.push(U::Cmp { op: Op::Eq, neg: false, w: 64, dst: t, a: i[0], b: kk });
                        self.code.push(U::Sel { w, dst: d, c: t as i32, a: a[k], b: d as i32 });
                    }
                }
            }
            b"insertelement" => {
                let (_t, mut a) = self.top(c);
                c.expect(b',');
                let (_, v) = self.top(c);
                c.expect(b',');
                let (_, i) = self.top(c);
                let d = dst!(a.len());
                if i[0] < 0 {
                    if let Val::I(k) = self.consts[(-i[0] - 1) as usize] {
                        a[k as usize] = v[0];
                    }
                    for i in 0..a.len() {
                        self.code.push(U::Mov { dst: d + i as u32, a: a[i] });
                    }
                } else {
                    self.bad("dynamic insertelement");
                }
            }
            b"shufflevector" => {
                let (_t, a) = self.top(c);
                c.expect(b',');
                let (_, b) = self.top(c);
                c.expect(b',');
                let mt = self.m.ty(c);
                let mask = self.m.constant(c, mt);
                let d = dst!(mask.len());
                for (i, k) in mask.iter().enumerate() {
                    let k = *k as usize;
                    let s = if k < a.len() {
                        a[k]
                    } else if k - a.len() < b.len() {
                        b[k - a.len()]
                    } else {
                        a[0]
                    };
                    self.code.push(U::Mov { dst: d + i as u32, a: s });
                }
            }
            b"phi" => {
                flags(c);
                let t = self.m.ty(c);
                let n = self.m.nl(t) as u32;
                let d = dst!(n);
                let mut inc = vec![];
                loop {
                    c.expect(b'[');
                    let v = self.operand(c, t);
                    c.expect(b',');
                    c.expect(b'%');
                    let l = c.name();
                    c.expect(b']');
                    inc.push((l, v));
                    c.sp();
                    if c.peek() != b',' {
                        break;
                    }
                    c.p += 1;
                    c.sp();
                    if c.peek() == b'!' {
                        break;
                    }
                }
                let cur = self.cur;
                self.phis.entry(cur).or_default().push(((d..d + n).collect(), inc));
            }
            b"br" => {
                if c.peek_word() == b"label" {
                    let l = self.label(c);
                    let e = self.edge(l);
                    self.code.push(U::Br { e });
                } else {
                    let (_, v) = self.top(c);
                    c.expect(b',');
                    let a = self.label(c);
                    c.expect(b',');
                    let b = self.label(c);
                    let (t, f) = (self.edge(a), self.edge(b));
                    self.code.push(U::CBr { c: v[0], t, f });
                }
            }
            b"switch" => {
                let (t, v) = self.top(c);
                let w = self.w0(t);
                c.expect(b',');
                let d = self.label(c);
                let def = self.edge(d);
                c.expect(b'[');
                let mut cases = vec![];
                while !c.eat(b']') {
                    let ct = self.m.ty(c);
                    let k = self.m.constant(c, ct)[0];
                    c.expect(b',');
                    let l = self.label(c);
                    let e = self.edge(l);
                    cases.push((k, e));
                }
                self.code.push(U::Switch { w, v: v[0], def, cases: cases.into() });
            }
            b"ret" => {
                let t = self.m.ty(c);
                let ops = if self.m.nl(t) > 0 { self.operand(c, t) } else { vec![] };
                self.code.push(U::Ret { ops: ops.into() });
            }
            b"unreachable" => self.code.push(U::Unreachable),
            b"fence" => {}
            b"tail" | b"musttail" | b"notail" | b"call" => {
                if op != b"call" {
                    assert!(c.eat_word(b"call"));
                }
                self.call(c, dstn);
            }
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" | b"fcmp" => {
                let mut p: Bytes = b"";
                if op == b"fcmp" {
                    loop {
                        if c.at_type() {
                            break;
                        }
                        p = c.word();
                    }
                } else {
                    flags(c);
                }
                let (t, a) = self.top(c);
                c.expect(b',');
                let b = self.operand(c, t);
                let w = self.w0(t);
                let d = dst!(a.len());
                let o = match (op, p) {
                    (b"fadd", _) => FOp::Add,
                    (b"fsub", _) => FOp::Sub,
                    (b"fmul", _) => FOp::Mul,
                    (b"fdiv", _) => FOp::Div,
                    (b"frem", _) => FOp::Rem,
                    (_, b"oeq") => FOp::CmpOeq,
                    (_, b"ogt") => FOp::CmpOgt,
                    (_, b"oge") => FOp::CmpOge,
                    (_, b"olt") => FOp::CmpOlt,
                    (_, b"ole") => FOp::CmpOle,
                    (_, b"one") => FOp::CmpOne,
                    (_, b"ord") => FOp::CmpOrd,
                    (_, b"ueq") => FOp::CmpUeq,
                    (_, b"ugt") => FOp::CmpUgt,
                    (_, b"uge") => FOp::CmpUge,
                    (_, b"ult") => FOp::CmpUlt,
                    (_, b"ule") => FOp::CmpUle,
                    (_, b"une") => FOp::CmpUne,
                    (_, b"uno") => FOp::CmpUno,
                    _ => panic!("fcmp {}", c.ctx()),
                };
                if w == 80 {
                    self.bad("x86_fp80");
                } else {
                    for i in 0..a.len() {
                        self.code.push(U::F { op: o, is32: w == 32, dst: d + i as u32, a: a[i], b: b[i] });
                    }
                }
            }
            b"fneg" => {
                flags(c);
                let (t, a) = self.top(c);
                let w = self.w0(t);
                let d = dst!(a.len());
                for i in 0..a.len() {
                    self.code.push(U::F { op: FOp::Neg, is32: w == 32, dst: d + i as u32, a: a[i], b: a[i] });
                }
            }
            b"uitofp" | b"sitofp" | b"fptosi" | b"fptoui" | b"fpext" | b"fptrunc" => {
                flags(c);
                let (t, a) = self.top(c);
                assert!(c.eat_word(b"to"));
                let dt = self.m.ty(c);
                let (sw, dw) = (self.w0(t), self.w0(dt));
                let d = dst!(a.len());
                let (o, is32) = match op {
                    b"uitofp" => (FOp::FromU(sw), dw == 32),
                    b"sitofp" => (FOp::FromS(sw), dw == 32),
                    b"fptosi" => (FOp::ToS(dw), sw == 32),
                    b"fptoui" => (FOp::ToU(dw), sw == 32),
                    b"fpext" => (FOp::Ext, true),
                    _ => (FOp::Narrow, false),
                };
                if sw == 80 || dw == 80 {
                    self.bad("x86_fp80");
                } else {
                    for i in 0..a.len() {
                        self.code.push(U::F { op: o, is32, dst: d + i as u32, a: a[i], b: a[i] });
                    }
                }
            }
            _ => {
                // anything else: reported when executed
                let e = self.m.text[start..].iter().position(|x| *x == b'\n').unwrap() + start;
                let s = String::from_utf8_lossy(&self.m.text[start..e]).into_owned();
                self.bad(&s);
                c.p = start;
            }
        }
        // rest of the line: metadata, alignment
    }

    fn call(&mut self, c: &mut Cur, dstn: Option<Bytes>) {
        c.skip_attrs();
        let rt = self.m.ty(c);
        c.ws();
        if c.peek() == b'(' {
            c.balanced(); // explicit function type
        }
        c.ws();
        let n = self.m.nl(rt) as u32;
        let dst = match dstn {
            Some(d) => self.local(d, n),
            None => {
                let b = self.nregs;
                self.nregs += n;
                b
            }
        };
        enum Callee {
            F(Bytes),
            R(i32),
            Asm(Bytes),
        }
        let callee = match c.peek() {
            b'@' => {
                c.p += 1;
                Callee::F(c.name())
            }
            b'%' => {
                let pt = self.m.mk(Ty::Ptr);
                Callee::R(self.operand(c, pt)[0])
            }
            b'a' if c.peek_word() == b"asm" => {
                c.word();
                loop {
                    c.ws();
                    if c.peek() == b'"' {
                        break;
                    }
                    c.word();
                }
                let a = c.name();
                c.expect(b',');
                c.ws();
                let _ = c.name();
                Callee::Asm(a)
            }
            _ => {
                let pt = self.m.mk(Ty::Ptr);
                Callee::R(self.operand(c, pt)[0])
            }
        };
        c.expect(b'(');
        let mut args: Vec<i32> = vec![];
        let mut ws: Vec<u16> = vec![];
        let mut argn: Vec<usize> = vec![]; // leaves per argument
        let mut meta = false;
        if !c.eat(b')') {
            loop {
                let t = self.m.ty(c);
                if self.m.tys[t as usize] == Ty::Meta {
                    // metadata argument: skip it
                    let mut d = 0;
                    loop {
                        match c.peek() {
                            b'(' => d += 1,
                            b')' => {
                                if d == 0 {
                                    break;
                                }
                                d -= 1;
                            }
                            b',' if d == 0 => break,
                            _ => {}
                        }
                        c.p += 1;
                    }
                    meta = true;
                } else {
                    let byval = c.skip_vattrs();
                    if byval {
                        self.bad("byval argument");
                    }
                    let o = self.operand(c, t);
                    let ls = self.m.info(t).leaves.clone();
                    argn.push(o.len());
                    args.extend(o);
                    ws.extend(ls.iter().map(|l| l.w));
                }
                if !c.eat(b',') {
                    break;
                }
            }
            c.expect(b')');
        }
        let name = match callee {
            Callee::Asm(a) => {
                let has = |n: &[u8]| a.windows(n.len()).any(|w| w == n);
                if has(b"cpuid") {
                    self.code.push(U::Intr { i: Intr::Cpuid, w: n as u16, dst, args: args.into() });
                } else if a.is_empty() {
                    if n as usize <= args.len() {
                        for i in 0..n {
                            self.code.push(U::Mov { dst: dst + i, a: args[i as usize] });
                        }
                    }
                } else {
                    let s = format!("asm {}", String::from_utf8_lossy(a));
                    self.bad(&s);
                }
                return;
            }
            Callee::R(r) => {
                self.code.push(U::CallInd { f: r, dst, args: args.into(), ws: ws.into() });
                return;
            }
            Callee::F(nm) => nm,
        };
        if name.starts_with(b"llvm.") {
            let _ = meta;
            self.intrinsic(name, rt, dst, &args, &ws, &argn);
            return;
        }
        match self.m.syms.get(name) {
            Some(Sym::Func(i)) => {
                let f = *i;
                self.code.push(U::Call { f, dst, args: args.into(), ws: ws.into() })
            }
            Some(Sym::Null) => self.bad("call of weak null symbol"),
            _ => panic!("call of {}", String::from_utf8_lossy(name)),
        }
    }

    fn intrinsic(&mut self, name: Bytes, rt: TyId, dst: u32, args: &[i32], ws: &[u16], argn: &[usize]) {
        let s = std::str::from_utf8(name).unwrap();
        let p: Vec<&str> = s.split('.').collect();
        let n = self.m.nl(rt);
        let w = ws.first().cloned().unwrap_or(0);
        let lanes = argn.first().cloned().unwrap_or(1);
        match p[1] {
            "lifetime" | "assume" | "experimental" | "dbg" | "donothing" | "prefetch" | "invariant" | "annotation" | "va_end" => {}
            "expect" => self.code.push(U::Mov { dst, a: args[0] }),
            "threadlocal" | "launder" | "strip" | "ptr" => self.code.push(U::Mov { dst, a: args[0] }),
            "is" => {
                let z = self.k(0, 1);
                self.code.push(U::Mov { dst, a: z })
            }
            "vector" if p[2] == "reduce" => {
                let op = p[3];
                let mut acc = args[0];
                for i in 1..lanes {
                    let t = if i + 1 == lanes { dst } else { self.tmp() };
                    let b = args[i];
                    match op {
                        "or" => self.code.push(U::Bin { op: Op::Or, w, dst: t, a: acc, b }),
                        "and" => self.code.push(U::Bin { op: Op::And, w, dst: t, a: acc, b }),
                        "xor" => self.code.push(U::Bin { op: Op::Xor, w, dst: t, a: acc, b }),
                        "add" => self.code.push(U::Bin { op: Op::Add, w, dst: t, a: acc, b }),
                        "mul" => self.code.push(U::Bin { op: Op::Mul, w, dst: t, a: acc, b }),
                        "umax" => self.code.push(U::Intr { i: Intr::UMax, w, dst: t, args: vec![acc, b].into() }),
                        "umin" => self.code.push(U::Intr { i: Intr::UMin, w, dst: t, args: vec![acc, b].into() }),
                        "smax" => self.code.push(U::Intr { i: Intr::SMax, w, dst: t, args: vec![acc, b].into() }),
                        "smin" => self.code.push(U::Intr { i: Intr::SMin, w, dst: t, args: vec![acc, b].into() }),
                        _ => self.bad(s),
                    }
                    acc = t as i32;
                }
            }
            _ => {
                let fop = match p[1] {
                    "fabs" => Some(FOp::Abs),
                    "floor" => Some(FOp::Floor),
                    "ceil" => Some(FOp::Ceil),
                    "trunc" => Some(FOp::Trunc),
                    "sqrt" => Some(FOp::Sqrt),
                    _ => None,
                };
                if let Some(f) = fop {
                    for i in 0..n {
                        self.code.push(U::F { op: f, is32: w == 32, dst: dst + i as u32, a: args[i], b: args[i] });
                    }
                    return;
                }
                let rw = self.w0(rt);
                let it = match p[1] {
                    "memcpy" => Intr::MemCpy,
                    "memmove" => Intr::MemMove,
                    "memset" => Intr::MemSet,
                    "uadd" => {
                        if p[2] == "sat" {
                            Intr::Sat(Op::Add, false)
                        } else {
                            Intr::Ov(Op::Add, false)
                        }
                    }
                    "sadd" => {
                        if p[2] == "sat" {
                            Intr::Sat(Op::Add, true)
                        } else {
                            Intr::Ov(Op::Add, true)
                        }
                    }
                    "usub" => {
                        if p[2] == "sat" {
                            Intr::Sat(Op::Xor, false)
                        } else {
                            Intr::Ov(Op::Xor, false)
                        }
                    }
                    "ssub" => {
                        if p[2] == "sat" {
                            Intr::Sat(Op::Xor, true)
                        } else {
                            Intr::Ov(Op::Xor, true)
                        }
                    }
                    "umul" => Intr::Ov(Op::Mul, false),
                    "smul" => Intr::Ov(Op::Mul, true),
                    "umin" => Intr::UMin,
                    "umax" => Intr::UMax,
                    "smin" => Intr::SMin,
                    "smax" => Intr::SMax,
                    "abs" => Intr::Abs,
                    "ctpop" => Intr::CtPop,
                    "ctlz" => Intr::Ctlz,
                    "cttz" => Intr::Cttz,
                    "bswap" => Intr::BSwap,
                    "bitreverse" => Intr::BitRev,
                    "fshl" => Intr::Fshl,
                    "fshr" => Intr::Fshr,
                    "ucmp" => Intr::UCmp(rw),
                    "scmp" => Intr::SCmp(rw),
                    "trap" | "debugtrap" => Intr::Trap,
                    "va_start" => Intr::VaStart,
                    "va_copy" => Intr::VaCopy,
                    "load" => Intr::LoadRel,
                    "stacksave" => Intr::StackSave,
                    "stackrestore" => Intr::StackRestore,
                    "x86" if p.last() == Some(&"pause") => return,
                    _ => {
                        self.bad(s);
                        return;
                    }
                };
                match it {
                    Intr::MemCpy | Intr::MemMove | Intr::MemSet | Intr::Trap | Intr::VaStart | Intr::VaCopy | Intr::LoadRel | Intr::StackSave | Intr::StackRestore => {
                        self.code.push(U::Intr { i: it, w, dst, args: args.into() });
                    }
                    Intr::Ov(..) => {
                        if lanes != 1 {
                            self.bad(s);
                            return;
                        }
                        self.code.push(U::Intr { i: it, w, dst, args: args.into() });
                    }
                    _ => {
                        // lane-wise; trailing scalar flags (ctlz/cttz/abs i1) ignored
                        for l in 0..n {
                            let mut av = vec![];
                            let mut o = 0;
                            for k in argn {
                                if *k == lanes {
                                    av.push(args[o + l]);
                                } else {
                                    av.push(args[o]);
                                }
                                o += k;
                            }
                            self.code.push(U::Intr { i: it, w, dst: dst + l as u32, args: av.into() });
                        }
                    }
                }
            }
        }
    }
}

impl Module {
    pub fn compile(&mut self, ar: &mut Arena, fi: u32) -> &'static Func {
        if let Some(f) = self.funcs[fi as usize].compiled.get() {
            return f;
        }
        let (st, en) = self.funcs[fi as usize].body.expect("no body");
        let text = self.text;
        // header
        let mut at = st;
        while text[at] != b'@' {
            at += 1
        }
        let mut c = Cur { s: text, p: at + 1 };
        c.name();
        let mut fc = Fc {
            m: self,
            ar,
            regs: HashMap::new(),
            nregs: 0,
            consts: vec![],
            cmap: HashMap::new(),
            code: vec![],
            labels: HashMap::new(),
            cur: b"",
            phis: HashMap::new(),
            edge_req: vec![],
        };
        c.expect(b'(');
        let mut nun = 0; // unnamed counter
        let mut vararg = false;
        if !c.eat(b')') {
            loop {
                c.ws();
                if c.peek() == b'.' {
                    c.p += 3;
                    vararg = true;
                    break;
                }
                let t = fc.m.ty(&mut c);
                c.skip_vattrs();
                c.ws();
                let cnt = fc.m.nl(t) as u32;
                if c.peek() == b'%' {
                    c.p += 1;
                    let n = c.name();
                    if n.iter().all(|c| c.is_ascii_digit()) {
                        nun += 1;
                    }
                    fc.local(n, cnt);
                } else {
                    let n: Bytes = Box::leak(format!("{}", nun).into_bytes().into_boxed_slice());
                    nun += 1;
                    fc.local(n, cnt);
                }
                if !c.eat(b',') {
                    break;
                }
            }
            c.expect(b')');
        }
        let nparams = fc.nregs;
        // to the end of the header line
        c.eol();
        let entry: Bytes = Box::leak(format!("{}", nun).into_bytes().into_boxed_slice());
        let mut started = false;
        loop {
            // start of a line
            while c.peek() == b'\n' {
                c.p += 1;
            }
            if c.p >= en || c.peek() == b'}' {
                break;
            }
            if c.peek() == b' ' {
                if !started {
                    fc.cur = entry;
                    fc.labels.insert(entry, 0);
                    started = true;
                }
                let le = c.s[c.p..].iter().position(|x| *x == b'\n').map(|x| c.p + x).unwrap_or(c.s.len());
                let multi = c.s[c.p..le].starts_with(b"  switch ");
                fc.instr(&mut c);
                if multi {
                    c.eol();
                } else {
                    c.p = le;
                }
            } else if c.peek() == b';' {
                c.eol();
            } else {
                // label
                let n = c.name();
                assert!(c.peek() == b':', "label: {}", c.ctx());
                c.eol();
                fc.cur = n;
                let pc = fc.code.len() as u32;
                fc.labels.insert(n, pc);
                started = true;
            }
        }
        let mut edges = vec![];
        for (from, to) in &fc.edge_req {
            let pc = *fc.labels.get(to).unwrap_or_else(|| panic!("no label {}", String::from_utf8_lossy(to)));
            let mut moves = vec![];
            if let Some(ph) = fc.phis.get(to) {
                for (dsts, inc) in ph {
                    let v = &inc.iter().find(|(l, _)| l == from).expect("phi edge").1;
                    for (d, s) in dsts.iter().zip(v.iter()) {
                        if *d as i32 != *s {
                            moves.push((*d, *s));
                        }
                    }
                }
            }
            edges.push(Edge { pc, moves: moves.into() });
        }
        let f = Func { idx: fi, code: fc.code, edges, nregs: fc.nregs, consts: fc.consts, nparams, vararg };
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs[fi as usize].compiled.set(Some(f));
        f
    }
}
