//! The foreign interface, used as a front end would.
use crate::model::string;
use crate::remote::{fragment, wild};
use crate::sym::*;
use ced_ffi::verif::*;
use ced_ffi::{ced_last_error_length, ced_last_error_message};
use ced_remote::protocol::notifications::*;
use ced_remote::protocol::{Text, TextFragment};
use ced_remote::{ConnectionEvent, Menu};
use std::ffi::CStr;
use std::os::raw::{c_char, c_int};

pub fn run(idx: usize, p: usize) {
    match idx {
        3000 => events(p),
        3001 => last_error(p),
        3010 => generated(p),
        _ => panic!("no such scenario"),
    }
}

/// What a C string of a text has: everything but NULs.
fn same(p: *const c_char, s: &str) -> bool {
    if p.is_null() {
        return false;
    }
    let want: Vec<u8> = s.bytes().filter(|b| *b != 0).collect();
    unsafe { CStr::from_ptr(p) }.to_bytes() == &want[..]
}

fn check_text(it: *mut CedTextIterator, want: &[TextFragment]) {
    for f in want {
        let i = unsafe { ced_text_next_item(it) };
        check(!i.is_null(), "an iterator gives every item");
        let item = unsafe { &*i };
        check(same(item.text, &f.text), "a text has its fragments");
        check(same(item.face, &format!("{:?}", f.face)), "a fragment has its face");
        unsafe { ced_text_item_destroy(i) };
    }
    for _ in 0..2 {
        check(unsafe { ced_text_next_item(it) }.is_null(), "an iterator ends after its last item");
    }
    unsafe { ced_text_iterator_destroy(it) };
}

fn check_lines(it: *mut ViewLensLineIterator, want: &[Vec<TextFragment>]) {
    let it = unsafe { Box::from_raw(it) };
    let got = lines(&it);
    check(got.len() == want.len(), "an iterator gives every item");
    for (g, w) in got.iter().zip(want) {
        check_text(Box::into_raw(Box::new(CedTextIterator::from(g))), w);
    }
}

// what a front end sees of the items
#[repr(C)]
struct CStatus {
    index: c_int,
    text: *mut CedTextIterator,
}
#[repr(C)]
struct CView {
    buffer: *const c_char,
    start: u32,
    end: u32,
    lenses: *mut ViewLensIterator,
}
#[repr(C)]
struct CLens {
    lines: *mut ViewLensLineIterator,
    first_line_num: u32,
}
#[repr(C)]
struct CMenu {
    value: *const c_char,
    text: *mut CedTextIterator,
    description: *const c_char,
}

fn some_text(n: usize) -> (Text, Vec<TextFragment>) {
    match pick(3) {
        0 => (Vec::<TextFragment>::new().into(), vec![]),
        1 => {
            let f = fragment(n);
            (f.clone().into(), vec![f])
        }
        _ => {
            let f = vec![fragment(n), TextFragment { text: "x".into(), face: Default::default() }];
            (f.clone().into(), f)
        }
    }
}

fn plain(s: &str) -> (Text, Vec<TextFragment>) {
    (s.into(), vec![TextFragment { text: s.into(), face: Default::default() }])
}

fn events(p: usize) {
    let n = p % 10;
    let kind = pick(8);
    let w = wild(n);
    let (a, b) = (some_text(n), plain("p"));
    let num = num(0, 200);
    let entries = vec![
        MenuParamsEntry { value: w.clone(), text: a.0.clone(), description: Some(w.clone()) },
        MenuParamsEntry { value: "v".into(), text: b.0.clone(), description: None },
    ];
    let items = pick(3);
    let event = match kind {
        0 => ConnectionEvent::ConnErr(w.clone()),
        1 => ConnectionEvent::Noop,
        2 => ConnectionEvent::Echo(a.0.clone()),
        3 => ConnectionEvent::Hint(HintParams { text: [a.0.clone(), b.0.clone()][..items].to_vec() }),
        4 => ConnectionEvent::Info(w.clone(), "s".into()),
        5 => ConnectionEvent::Menu(Menu { command: w.clone(), title: "t".into(), search: w.clone(), entries: entries[..items].to_vec(), selected: num }),
        6 => ConnectionEvent::Status(
            [StatusParamsItem { index: num as isize - 100, text: a.0.clone() }, StatusParamsItem { index: 7, text: b.0.clone() }][..items].to_vec(),
        ),
        _ => ConnectionEvent::View(
            [
                ViewParamsItem {
                    buffer: w.clone(),
                    start: num,
                    end: num + 1,
                    lenses: vec![
                        ViewParamsLens { lines: vec![a.0.clone(), b.0.clone()], first_line_num: num },
                        ViewParamsLens { lines: vec![], first_line_num: 9 },
                    ],
                },
                ViewParamsItem { buffer: "b".into(), start: 1, end: 2, lenses: vec![] },
            ][..items]
                .to_vec(),
        ),
    };
    let ev = Box::into_raw(Box::new(CedEvent::from(event)));
    let mut count = 0;
    match (kind, unsafe { &*ev }) {
        (0, CedEvent::ConnErr { message }) => check(same(*message, &w), "an event has its texts"),
        (1, CedEvent::Noop) => {}
        (2, CedEvent::Echo { message }) => check_text(*message, &a.1),
        (3, CedEvent::Hint { lines }) => check_lines(*lines, &[a.1.clone(), b.1.clone()][..items]),
        (4, CedEvent::Info { client, session }) => check(same(*client, &w) && same(*session, "s"), "an event has its texts"),
        (5, CedEvent::Menu { command, title, search, items: it, selected }) => {
            check(same(*command, &w) && same(*title, "t") && same(*search, &w), "an event has its texts");
            check(*selected as usize == num, "a menu has its selection");
            let mut it = unsafe { Box::from_raw(*it) };
            while let Some(item) = it.next() {
                let item = Box::into_raw(Box::new(item)) as *mut CMenu;
                let i = unsafe { &*item };
                check(count < items, "an iterator ends after its last item");
                let (e, t) = (&entries[count], [&a.1, &b.1][count]);
                check(same(i.value, &e.value), "an entry has its value");
                check(i.description.is_null() == e.description.is_none(), "an entry may have a description");
                check(e.description.as_ref().map_or(true, |d| same(i.description, d)), "an entry has its description");
                check_text(i.text, t);
                count += 1;
            }
            check(count == items && it.next().is_none(), "an iterator gives every item");
        }
        (6, CedEvent::Status { items: it }) => {
            loop {
                let item = unsafe { ced_status_next_item(*it) };
                if item.is_null() {
                    break;
                }
                let i = unsafe { &*(item as *mut CStatus) };
                check(count < items, "an iterator ends after its last item");
                check(i.index as isize == [num as isize - 100, 7][count], "an item has its index");
                check_text(i.text, [&a.1, &b.1][count]);
                unsafe { ced_status_item_destroy(item) };
                count += 1;
            }
            check(count == items, "an iterator gives every item");
            unsafe { ced_status_iterator_destroy(*it) };
        }
        (7, CedEvent::View { items: it }) => {
            loop {
                let item = unsafe { ced_view_next_item(*it) };
                if item.is_null() {
                    break;
                }
                let i = unsafe { &*(item as *mut CView) };
                check(count < items, "an iterator ends after its last item");
                check(same(i.buffer, [&w[..], "b"][count]), "an item names its buffer");
                check((i.start as usize, i.end as usize) == [(num, num + 1), (1, 2)][count], "an item names its lines");
                let mut lenses = 0;
                loop {
                    let lens = unsafe { ced_view_lens_next_item(i.lenses) };
                    if lens.is_null() {
                        break;
                    }
                    check(count == 0 && lenses < 2, "an iterator ends after its last item");
                    let l = unsafe { &*(lens as *mut CLens) };
                    check(l.first_line_num as usize == [num, 9][lenses], "a lens has its first line");
                    check_lines(l.lines, &[a.1.clone(), b.1.clone()][..if lenses == 0 { 2 } else { 0 }]);
                    unsafe { ced_view_lens_destroy(lens) };
                    lenses += 1;
                }
                check(lenses == if count == 0 { 2 } else { 0 }, "an iterator gives every item");
                unsafe { ced_view_lens_iterator_destroy(i.lenses) };
                unsafe { ced_view_item_destroy(item) };
                count += 1;
            }
            check(count == items, "an iterator gives every item");
            unsafe { ced_view_iterator_destroy(*it) };
        }
        _ => check(false, "an event is of its kind"),
    }
    unsafe { ced_event_destroy(ev) };
    cover(["error", "noop", "echo", "hint", "info", "menu", "status", "view"][kind]);
}

/// The pending error, and its message in buffers of any size.
fn last_error(p: usize) {
    let n = p / 10 % 10;
    let mut pending: Option<String> = None;
    for _ in 0..p % 10 {
        if flag() {
            let w = wild(n);
            set_error(w.clone());
            pending = Some(w);
            cover("error");
            continue;
        }
        let len = unsafe { ced_last_error_length() };
        check(len == pending.as_ref().map_or(-1, |m| m.len() as c_int), "the length of the last error is the one of its message");
        let size = range(0, 4 * n + 2);
        let mut buf = [0xa5u8; 64];
        match pick(3) {
            0 => {
                let r = unsafe { ced_last_error_message(std::ptr::null_mut(), size as c_int) };
                check(r == -1, "there is no message without a buffer");
            }
            1 => {
                let r = unsafe { ced_last_error_message(buf.as_mut_ptr() as *mut c_char, -(size as c_int)) };
                check(r == if pending.is_some() { -2 } else { 0 }, "a buffer which is too small is refused");
                check(buf.iter().all(|b| *b == 0xa5), "a buffer which is too small is left alone");
            }
            _ => {
                let r = unsafe { ced_last_error_message(buf.as_mut_ptr() as *mut c_char, size as c_int) };
                match &pending {
                    None => {
                        check(r == 0, "there is no message without an error");
                        check(buf.iter().all(|b| *b == 0xa5), "a buffer is left alone without an error");
                    }
                    Some(m) if m.len() < size => {
                        check(r == m.len() as c_int, "the message is copied when it fits");
                        check(&buf[..m.len()] == m.as_bytes() && buf[m.len()] == 0, "the message is copied when it fits");
                        check(buf[m.len() + 1..].iter().all(|b| *b == 0xa5), "nothing is written after the message");
                        pending = None;
                        cover("copied");
                    }
                    Some(_) => {
                        check(r == -2, "a buffer which is too small is refused");
                        check(buf.iter().all(|b| *b == 0xa5), "a buffer which is too small is left alone");
                        cover("too small");
                    }
                }
            }
        }
    }
}

/// Words of a name in camel case, as a function name.
fn snake(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for (i, b) in s.iter().enumerate() {
        if i > 0 && b.is_ascii_uppercase() {
            out.push(b'_');
        }
        out.push(if b.is_ascii_uppercase() { b + 32 } else { *b });
    }
    out
}

/// The functions generated for any structures.
fn generated(p: usize) {
    let prefix: &[u8] = [&b"ced_"[..], b"", b"x_"][pick(3)];
    let mut toml = String::new();
    if !prefix.is_empty() {
        toml += &format!("prefix = \"{}\"\n", string(prefix));
    }
    let mut want: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = vec![];
    let mut names: Vec<Vec<u8>> = vec![];
    let prefixed = |n: Vec<u8>| if n.starts_with(prefix) { n } else { [prefix, &n].concat() };
    for _ in 0..range(1, p / 10 % 10) {
        let mut name: Vec<u8> = [&b"Ced"[..], b"V"][pick(2)].to_vec();
        for _ in 0..range(0, p % 10) {
            name.push(if flag() { byte(b'A', b'Z') } else { byte(b'a', b'z') });
        }
        let bare = name.clone();
        let item = flag();
        if item {
            name.extend(b"Item");
        }
        // names which differ in more than that
        if names.contains(&bare) {
            return;
        }
        let iterator = flag();
        toml += &format!("\n[[structure]]\nsymbol = \"{}\"\n", string(&name));
        let module = flag();
        if module {
            toml += "module = \"crate::event\"\n";
        }
        if iterator {
            toml += "[structure.functions]\niterator = true\n";
            let it = [&bare[..], b"Iterator"].concat();
            want.push((prefixed([&snake(&it)[..], b"_destroy"].concat()), it.clone(), vec![]));
            want.push((prefixed([&snake(&bare)[..], b"_next_item"].concat()), it, name.clone()));
        }
        want.push((prefixed([&snake(&name)[..], b"_destroy"].concat()), name, vec![]));
        names.push(bare);
    }
    file("ffigen.toml", toml.as_bytes());
    let source = match ffigen::SourceBuilder::generate(DIR) {
        Ok(b) => b.source(),
        Err(_) => return check(false, "functions are generated for every configuration"),
    };
    observe(source.as_bytes());
    let code: Vec<u8> = source.bytes().filter(|b| !b.is_ascii_whitespace()).collect();
    // what each function is, up to its body
    let mut heads: Vec<&[u8]> = vec![];
    let mut rest = &code[..];
    let start = b"#[no_mangle]pubunsafeextern\"C\"fn";
    while let Some(i) = rest.windows(start.len()).position(|w| w == start) {
        rest = &rest[i + start.len()..];
        let end = rest.iter().position(|b| *b == b'{').unwrap_or(rest.len());
        heads.push(&rest[..end]);
    }
    check(heads.len() == want.len(), "every function is generated once");
    for (f, sym, item) in &want {
        let mut head = [&f[..], b"(p:*mut", sym, b")"].concat();
        if !item.is_empty() {
            head.extend([b"->*mut", &item[..]].concat());
        }
        check(heads.iter().filter(|h| **h == &head[..]).count() == 1, "every structure has its functions");
    }
    cover("generated");
}
