//! cedsym: symbolic execution of LLVM IR, deciding assertions with Z3.
mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod solver;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn getppid() -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

struct Shared {
    active: AtomicU32,
    stop: AtomicU32,
    paths: AtomicU64,
    viols: AtomicU32,
}

struct Opt {
    ir: String,
    entry: String,
    idx: u64,
    arg: u64,
    jobs: u32,
    max_insns: u64,
    time: u64,
    out: String,
    tmp: String,
    samples: usize,
    seed: u64,
    profile: bool,
    max_viol: u32,
}

fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r
}

#[derive(Default)]
struct Merged {
    c: BTreeMap<String, u64>,
    fatal: BTreeMap<String, u64>,
    viol: BTreeMap<String, (u64, String, String, Vec<(String, String)>)>, // key -> count, kind, msg, (inputs, stack)
    cover: BTreeMap<String, u64>,
    asserts: BTreeMap<String, (u64, u64)>,
    exec: BTreeSet<u32>,
    samples: Vec<(String, String)>,
    prof: BTreeMap<String, u64>,
    files: BTreeSet<String>,
}

fn inputs_str(v: &[(u16, u64)]) -> String {
    v.iter().map(|(w, x)| format!("{}:{}", w, x)).collect::<Vec<_>>().join(",")
}

impl Merged {
    fn line(&mut self, l: &str) {
        let f: Vec<&str> = l.split('\x01').collect();
        match f[0] {
            "c" => *self.c.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap(),
            "fatal" => *self.fatal.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap(),
            "cover" => *self.cover.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap(),
            "assert" => {
                let e = self.asserts.entry(f[1].into()).or_default();
                e.0 += f[2].parse::<u64>().unwrap();
                e.1 += f[3].parse::<u64>().unwrap();
            }
            "exec" => {
                self.exec.insert(f[1].parse().unwrap());
            }
            "sample" => self.samples.push((f[1].into(), f[2].into())),
            "prof" => *self.prof.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap(),
            "file" => {
                self.files.insert(f[1].into());
            }
            "viol" => {
                let e = self.viol.entry(format!("{}:{}", f[1], f[2])).or_insert((0, f[1].into(), f[2].into(), vec![]));
                if e.3.len() < 4 {
                    e.3.push((f[3].into(), f[4].into()));
                }
            }
            "vcount" => {
                if let Some(e) = self.viol.get_mut(f[1]) {
                    e.0 += f[2].parse::<u64>().unwrap();
                }
            }
            _ => {}
        }
    }
}

struct Driver {
    en: Engine,
    sh: &'static Shared,
    o: Opt,
    start: Instant,
    children: Vec<i32>,
    fatal: HashMap<String, u64>,
    rng: u64,
    seen_samples: u64,
    reported: u64,
}

impl Driver {
    fn rand(&mut self, n: u64) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng % n
    }
    fn finish_path(&mut self, st: &mut State) {
        let en = &mut self.en;
        en.c.paths += 1;
        for k in &st.covers {
            let n = en.cover_names[*k as usize].clone();
            *en.covers.entry(n).or_default() += 1;
        }
        // sample for the native cross-check
        self.seen_samples += 1;
        let n = self.seen_samples;
        let max = self.o.samples;
        let slot = if self.en.samples.len() < max {
            Some(self.en.samples.len())
        } else {
            let r = self.rand(n) as usize;
            if r < max {
                Some(r)
            } else {
                None
            }
        };
        if let Some(s) = slot {
            let model = st.p.model.clone();
            let mut h = 0xcbf29ce484222325u64;
            let mut add = |b: u8| {
                h ^= b as u64;
                h = h.wrapping_mul(0x100000001b3);
            };
            for o in &st.obs {
                for (b, e) in o {
                    let v = if *e != 0 { self.en.ar.eval(*e, &model) as u8 } else { *b };
                    add(v);
                }
                for k in (o.len() as u64).to_le_bytes() {
                    add(k);
                }
            }
            let inp = self.en.input_values(st, &model);
            if s < self.en.samples.len() {
                self.en.samples[s] = (inp, h);
            } else {
                self.en.samples.push((inp, h));
            }
        }
    }
    fn run(&mut self) {
        while let Some(mut st) = self.en.work.pop() {
            if self.sh.stop.load(Ordering::Relaxed) != 0 {
                *self.fatal.entry("stopped".into()).or_default() += 1;
                break;
            }
            if self.start.elapsed().as_secs() > self.o.time {
                *self.fatal.entry("time limit".into()).or_default() += 1;
                self.sh.stop.store(1, Ordering::Relaxed);
                break;
            }
            match self.en.run(&mut st) {
                Stop::Done => self.finish_path(&mut st),
                Stop::Discard => self.en.c.discarded += 1,
                Stop::Violation(k, m) => {
                    self.en.c.paths += 1;
                    let model = st.p.model.clone();
                    self.en.violation(&st, &model, &k, &m);
                    let n = self.sh.viols.fetch_add(1, Ordering::Relaxed);
                    if n > self.o.max_viol {
                        *self.fatal.entry("too many failing paths".into()).or_default() += 1;
                        self.sh.stop.store(1, Ordering::Relaxed);
                        break;
                    }
                }
                Stop::Fatal(m) => {
                    let bt = self.en.backtrace(&st);
                    let b: Vec<String> = bt.iter().take(6).map(|x| ext::short_name(x)).collect();
                    *self.fatal.entry(format!("{} [{}]", m, b.join(" < "))).or_default() += 1;
                    if self.en.so.unknown || self.en.so.mismatch.is_some() {
                        self.sh.stop.store(1, Ordering::Relaxed);
                        break;
                    }
                }
            }
            drop(st);
            self.maybe_split();
        }
    }
    fn maybe_split(&mut self) {
        if self.en.work.len() < 2 {
            return;
        }
        let a = self.sh.active.load(Ordering::Relaxed);
        if a >= self.o.jobs {
            return;
        }
        if self.sh.active.compare_exchange(a, a + 1, Ordering::SeqCst, Ordering::SeqCst).is_err() {
            return;
        }
        let n = self.en.work.len();
        // alternate: child takes every other state
        let mut mine = vec![];
        let mut theirs = vec![];
        for (k, s) in std::mem::take(&mut self.en.work).into_iter().enumerate() {
            if (n - 1 - k) % 2 == 0 {
                mine.push(s)
            } else {
                theirs.push(s)
            }
        }
        let pid = unsafe { fork() };
        if pid < 0 {
            self.sh.active.fetch_sub(1, Ordering::SeqCst);
            mine.extend(theirs);
            self.en.work = mine;
            return;
        }
        if pid > 0 {
            drop(theirs);
            self.en.work = mine;
            self.children.push(pid);
            return;
        }
        // child
        unsafe {
            let root = getppid();
            prctl(1, 9, 0, 0, 0); // die with the parent
            if getppid() != root {
                _exit(3);
            }
        }
        std::mem::forget(mine);
        self.en.work = theirs;
        self.children.clear();
        self.fatal.clear();
        self.en.c = Counters::default();
        self.en.so.stats = Default::default();
        self.en.covers.clear();
        self.en.asserts_seen.clear();
        self.en.violations.clear();
        self.en.vcount.clear();
        self.en.samples.clear();
        self.en.prof.clear();
        self.seen_samples = 0;
        self.rng ^= (std::process::id() as u64) << 20 | 1;
        self.run();
        self.done();
        let ok = self.wait();
        unsafe { _exit(if ok { 0 } else { 3 }) }
    }
    // this process has no more work: publish results
    fn done(&mut self) {
        let mut s = String::new();
        {
            let mut c = |k: &str, v: u64| {
                let _ = writeln!(s, "c\x01{}\x01{}", k, v);
            };
            let e = &self.en;
            c("paths", e.c.paths);
            c("discarded", e.c.discarded);
            c("insns", e.c.insns);
            c("forks", e.c.forks);
            c("asserts", e.c.asserts);
            c("asserts_symbolic", e.c.asserts_sym);
            c("concretizations", e.c.concretized);
            let t = &e.so.stats;
            c("z3_queries", t.z3_queries);
            c("z3_sat", t.z3_sat);
            c("z3_unsat", t.z3_unsat);
            c("z3_unknown", t.z3_unknown);
            c("z3_us", t.z3_us);
            c("dom_queries", t.dom_queries);
            c("cross_checked", t.cross);
            c("processes", 1);
        }
        for (k, v) in &self.fatal {
            let _ = writeln!(s, "fatal\x01{}\x01{}", k.replace('\n', " "), v);
        }
        if let Some(m) = &self.en.so.mismatch {
            let _ = writeln!(s, "fatal\x01{}\x011", m.replace('\n', " "));
        }
        for (k, v) in &self.en.covers {
            let _ = writeln!(s, "cover\x01{}\x01{}", k, v);
        }
        for (k, (a, b)) in &self.en.asserts_seen {
            let _ = writeln!(s, "assert\x01{}\x01{}\x01{}", k, a, b);
        }
        for (i, f) in self.en.m.funcs.iter().enumerate() {
            if f.executed.get() {
                let _ = writeln!(s, "exec\x01{}", i);
            }
        }
        for (i, h) in &self.en.samples {
            let _ = writeln!(s, "sample\x01{}\x01{:016x}", inputs_str(i), h);
        }
        for v in &self.en.violations {
            let st: Vec<String> = v.stack.iter().take(24).map(|x| ext::short_name(x)).collect();
            let _ = writeln!(s, "viol\x01{}\x01{}\x01{}\x01{}", v.kind, v.msg.replace('\n', " "), inputs_str(&v.inputs), st.join(" < "));
        }
        for (k, n) in &self.en.vcount {
            let _ = writeln!(s, "vcount\x01{}\x01{}", k.replace('\n', " "), n);
        }
        for (k, n) in &self.en.prof {
            let _ = writeln!(s, "prof\x01{}\x01{}", k, n);
        }
        for f in &self.en.env.files_read {
            let _ = writeln!(s, "file\x01{}", f);
        }
        s.push_str("end\n");
        std::fs::write(format!("{}/r{}", self.o.tmp, std::process::id()), s).expect("write result");
        self.sh.active.fetch_sub(1, Ordering::SeqCst);
    }
    fn wait(&mut self) -> bool {
        let mut ok = true;
        for c in std::mem::take(&mut self.children) {
            let mut s = 0;
            unsafe {
                if waitpid(c, &mut s, 0) != c || s != 0 {
                    ok = false;
                }
            }
        }
        ok
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut o = Opt {
        ir: String::new(),
        entry: "cedsym_entry".into(),
        idx: 0,
        arg: 0,
        jobs: 8,
        max_insns: 400_000_000,
        time: 600,
        out: String::new(),
        tmp: String::new(),
        samples: 24,
        seed: 1,
        profile: false,
        max_viol: 3000,
    };
    let mut cwd = "/w".to_string();
    let mut pass = vec![];
    let mut k = 1;
    while k < a.len() {
        let v = a.get(k + 1).cloned().unwrap_or_default();
        match a[k].as_str() {
            "--ir" => o.ir = v,
            "--entry" => o.entry = v,
            "--idx" => o.idx = v.parse().unwrap(),
            "--arg" => o.arg = v.parse().unwrap(),
            "--jobs" => o.jobs = v.parse().unwrap(),
            "--max-insns" => o.max_insns = v.parse().unwrap(),
            "--time" => o.time = v.parse().unwrap(),
            "--out" => o.out = v,
            "--cwd" => cwd = v,
            "--pass" => pass.push(v),
            "--samples" => o.samples = v.parse().unwrap(),
            "--seed" => o.seed = v.parse().unwrap(),
            "--max-viol" => o.max_viol = v.parse().unwrap(),
            "--profile" => {
                o.profile = true;
                k += 1;
                continue;
            }
            x => panic!("unknown option {}", x),
        }
        k += 2;
    }
    let start = Instant::now();
    let text: &'static [u8] = Box::leak(std::fs::read(&o.ir).expect("ir").into_boxed_slice());
    let m = ir::Module::parse(text);
    let entry = m.funcs.iter().position(|f| f.name == o.entry && f.body.is_some()).expect("entry") as u32;
    o.tmp = format!("{}.tmp", o.out);
    let _ = std::fs::remove_dir_all(&o.tmp);
    std::fs::create_dir_all(&o.tmp).unwrap();
    let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    sh.active.store(1, Ordering::SeqCst);
    let mut en = Engine {
        m,
        ar: expr::Arena::new(),
        so: solver::Solver::new(),
        work: vec![],
        c: Default::default(),
        exts: vec![],
        covers: Default::default(),
        cover_names: vec![],
        asserts_seen: Default::default(),
        violations: vec![],
        max_insns: o.max_insns,
        trace: std::env::var("CEDSYM_TRACE").is_ok(),
        prof: Default::default(),
        profile: o.profile,
        samples: vec![],
        sample_max: o.samples,
        vcount: Default::default(),
        fault_addr: 0,
        env: Default::default(),
    };
    en.env.cwd = cwd;
    en.env.pass = pass;
    ext::resolve(&mut en);
    let st = en.initial(entry, &[o.idx, o.arg]);
    en.work.push(st);
    let seed = o.seed;
    let mut d = Driver { en, sh, o, start, children: vec![], fatal: HashMap::new(), rng: seed.wrapping_mul(0x9e3779b97f4a7c15) | 1, seen_samples: 0, reported: 0 };
    let _ = d.reported;
    d.run();
    d.done();
    let ok = d.wait();
    // merge
    let mut mg = Merged::default();
    let mut lines: Vec<String> = vec![];
    for e in std::fs::read_dir(&d.o.tmp).unwrap() {
        let t = std::fs::read_to_string(e.unwrap().path()).unwrap();
        if !t.ends_with("end\n") {
            *mg.fatal.entry("truncated result".into()).or_default() += 1;
        }
        lines.extend(t.lines().map(|x| x.to_string()));
    }
    let _ = std::fs::remove_dir_all(&d.o.tmp);
    for l in lines.iter().filter(|l| !l.starts_with("vcount")) {
        mg.line(l);
    }
    for l in lines.iter().filter(|l| l.starts_with("vcount")) {
        mg.line(l);
    }
    if !ok {
        *mg.fatal.entry("a worker process died".into()).or_default() += 1;
    }
    let _ = sh.paths.load(Ordering::Relaxed);
    let mut s = String::from("{\n");
    let _ = writeln!(s, " \"wall_s\": {:.3},", start.elapsed().as_secs_f64());
    for (k, v) in &mg.c {
        let _ = writeln!(s, " \"{}\": {},", k, v);
    }
    let _ = writeln!(s, " \"complete\": {},", mg.fatal.is_empty());
    let list = |v: Vec<String>| format!("[{}]", v.join(",\n  "));
    let _ = writeln!(s, " \"problems\": {},", list(mg.fatal.iter().map(|(k, v)| format!("{{\"what\":\"{}\",\"count\":{}}}", esc(k), v)).collect()));
    let _ = writeln!(s, " \"covers\": {{{}}},", mg.cover.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, " \"asserts_by_tag\": {{{}}},", mg.asserts.iter().map(|(k, v)| format!("\"{}\":[{},{}]", esc(k), v.0, v.1)).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, " \"files\": {},", list(mg.files.iter().map(|k| format!("\"{}\"", esc(k))).collect()));
    let _ = writeln!(
        s,
        " \"violations\": {},",
        list(
            mg.viol
                .values()
                .map(|v| format!(
                    "{{\"kind\":\"{}\",\"msg\":\"{}\",\"count\":{},\"cases\":{}}}",
                    esc(&v.1),
                    esc(&v.2),
                    v.0,
                    list(v.3.iter().map(|(i, st)| format!("{{\"inputs\":\"{}\",\"stack\":\"{}\"}}", i, esc(st))).collect())
                ))
                .collect()
        )
    );
    // thin the samples
    let mut sm = mg.samples.clone();
    sm.sort();
    while sm.len() > d.o.samples {
        let r = d.rand(sm.len() as u64) as usize;
        sm.swap_remove(r);
    }
    let _ = writeln!(s, " \"samples\": {},", list(sm.iter().map(|(i, h)| format!("{{\"inputs\":\"{}\",\"obs\":\"{}\"}}", i, h)).collect()));
    if d.o.profile {
        let mut p: Vec<_> = mg.prof.iter().collect();
        p.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, v) in p.iter().take(40) {
            let z: Vec<String> = k.split(" <- ").map(|x| ext::short_name(x)).collect();
            eprintln!("{:8} {}", v, z.join(" <- "));
        }
    }
    let _ = writeln!(s, " \"functions\": {}", list(mg.exec.iter().map(|i| format!("\"{}\"", esc(&d.en.m.funcs[*i as usize].name))).collect()));
    s.push_str("}\n");
    std::fs::write(&d.o.out, s).expect("out");
}
