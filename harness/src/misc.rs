//! Names of buffers, maps which know what was used last.
use crate::sym::*;
use ced::editor::{Buffer, BufferSource};
use ced::stackmap::StackMap;

pub fn run(idx: usize, p: usize) {
    match idx {
        4100 => recent(p),
        4110 => names(p),
        _ => panic!("no such scenario"),
    }
}

/// A map which knows its key used last, against the keys in the order of use.
fn recent(p: usize) {
    let (steps, keys) = (p % 10, p / 10 % 10);
    let mut m: StackMap<u8, u32> = StackMap::new();
    // latest last
    let mut model: Vec<(u8, u32)> = vec![];
    for _ in 0..steps {
        let k = pick(keys) as u8;
        let at = model.iter().position(|x| x.0 == k);
        match pick(4) {
            0 => {
                let v = u32s(0, u32::MAX);
                let old = at.map(|i| model.remove(i).1);
                check(m.insert(k, v) == old, "what a key is set to replaces what it was");
                model.push((k, v));
                cover("insert");
            }
            1 => {
                let old = at.map(|i| model.remove(i).1);
                check(m.remove(&k) == old, "what is removed is what the key was set to");
                cover("remove");
            }
            2 => {
                let ok = m.set_last(k).is_ok();
                check(ok == at.is_some(), "a key which is there can be used");
                if let Some(i) = at {
                    let x = model.remove(i);
                    model.push(x);
                }
                cover("use");
            }
            _ => {
                if let Some(v) = m.get_mut(&k) {
                    *v = v.wrapping_add(1);
                }
                if let Some(i) = at {
                    model[i].1 = model[i].1.wrapping_add(1);
                }
                cover("change");
            }
        }
        check(m.latest() == model.last().map(|x| &x.0), "the latest key is the one used last which is still there");
        check(m.latest_value() == model.last().map(|x| &x.1), "the latest value is the one of the latest key");
        check(m.len() == model.len(), "a map has the keys which were set and not removed");
        for k in 0..keys as u8 {
            let want = model.iter().find(|x| x.0 == k).map(|x| &x.1);
            check(m.get(&k) == want, "a key is what it was last set to");
        }
    }
    cover("end");
}

/// Short names of buffers: the shortest ends of paths which tell them apart.
fn names(p: usize) {
    let (most, depth) = (p % 10, p / 10 % 10);
    let letters = p / 100 % 10;
    let n = range(1, most);
    let mut paths: Vec<Vec<Vec<u8>>> = vec![];
    let mut buffers: Vec<Buffer> = vec![];
    let mut scratch = None;
    if p >= 1000 {
        // a scratch buffer may be called the same as a file
        let mut b = Buffer::new_scratch("a".into(), String::new());
        b.source = BufferSource::Scratch("a".into());
        scratch = Some(b.source.clone());
    }
    for _ in 0..n {
        let mut c = vec![];
        for _ in 0..range(1, depth) {
            // a name of one or two bytes
            let mut name = vec![byte(b'a', b'a' + letters as u8 - 1)];
            if letters == 1 && flag() {
                name.push(b'a');
            }
            c.push(name);
        }
        if paths.contains(&c) {
            return;
        }
        let mut b = Buffer::new_scratch("x".into(), String::new());
        let path: Vec<u8> = c.iter().flat_map(|x| [&b"/"[..], x].concat()).collect();
        b.source = BufferSource::File(String::from_utf8(path).unwrap().into());
        buffers.push(b);
        paths.push(c);
    }
    let mut sources: Vec<BufferSource> = buffers.iter().map(|b| b.source.clone()).collect();
    if let Some(s) = scratch {
        sources.insert(pick(sources.len() + 1), s);
    }
    let mut got: Vec<String> = vec![];
    for (i, c) in paths.iter().enumerate() {
        let mut k = 1;
        let alone = |k: usize| {
            let end = &c[c.len() - k..];
            !paths.iter().enumerate().any(|(j, d)| j != i && d.ends_with(end))
        };
        while k < c.len() && !alone(k) {
            k += 1;
        }
        if k > 1 {
            cover("longer");
        }
        if !alone(k) {
            cover("end of another");
        }
        let want = c[c.len() - k..].join(&b'/');
        let name = buffers[i].shortest_name(&sources);
        observe(name.as_bytes());
        check(name.as_bytes() == want, "the name of a file is the shortest end of its path which tells it apart");
        check(!got.contains(&name), "files have different names");
        got.push(name);
    }
    let mut b = Buffer::new_scratch("s".into(), String::new());
    b.source = BufferSource::Scratch("a".into());
    if sources.contains(&b.source) {
        check(b.shortest_name(&sources) == "a", "a scratch buffer has its own name");
        cover("scratch");
    }
    cover("named");
}
