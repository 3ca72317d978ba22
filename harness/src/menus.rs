//! Menus: what they offer for what is typed, and what choosing does.
use crate::editor::*;
use crate::requests::*;
use crate::sym::*;
use ced::editor::menu::{MenuFilter, Token};
use ced::editor::View;
use ced_remote::protocol::notifications::*;
use ced_remote::protocol::Face;
use std::cmp::Ordering;

pub fn run(idx: usize, p: usize) {
    match idx {
        1200 => filter(p),
        1201 => filter_more(p),
        1202 => filter_spread(p),
        1210 => menu_search(p),
        1220 => listed(p),
        1221 => chosen(p),
        1230 => files(p),
        _ => panic!("no such scenario"),
    }
}

/// Lower case of the characters used here: ASCII and Latin-1.
fn fold(s: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for (i, b) in s.iter().enumerate() {
        let latin = i > 0 && s[i - 1] == 0xc3;
        let up = if latin { (0x80..=0x9e).contains(b) && *b != 0x97 } else { b.is_ascii_uppercase() };
        v.push(if up { *b + 0x20 } else { *b });
    }
    v
}

fn at(text: &[u8], from: usize, word: &[u8]) -> bool {
    text.len() >= from + word.len() && text[from..from + word.len()] == *word
}

/// Where the words are found: the first one as early as possible, the next ones as late as possible.
fn find(text: &[u8], words: &[Vec<u8>]) -> Option<Vec<(usize, usize)>> {
    fn rest(text: &[u8], from: usize, words: &[Vec<u8>]) -> Option<Vec<(usize, usize)>> {
        let Some(w) = words.first() else { return Some(vec![]) };
        for i in (from..=text.len()).rev() {
            // nothing is skipped over the end of a line
            if text[from..i].contains(&b'\n') || !at(text, i, w) {
                continue;
            }
            if let Some(mut more) = rest(text, i + w.len(), &words[1..]) {
                more.insert(0, (i, i + w.len()));
                return Some(more);
            }
        }
        None
    }
    let text = fold(text);
    let words: Vec<Vec<u8>> = words.iter().map(|w| fold(w)).collect();
    if words.is_empty() {
        return Some(vec![]);
    }
    for i in 0..text.len() {
        if at(&text, i, &words[0]) {
            if let Some(mut more) = rest(&text, i + words[0].len(), &words[1..]) {
                more.insert(0, (i, i + words[0].len()));
                return Some(more);
            }
        }
    }
    None
}

fn words(s: &[u8]) -> Vec<Vec<u8>> {
    s.split(|b| *b == b' ' || *b == b'\t').filter(|w| !w.is_empty()).map(|w| w.to_vec()).collect()
}

fn span(m: &[(usize, usize)]) -> usize {
    m.last().map_or(0, |l| l.1 - m[0].0)
}

/// The order of two entries: shorter matches first, then by name; what does not match comes last.
fn order(a: &[u8], b: &[u8], words: &[Vec<u8>]) -> Ordering {
    match (find(a, words), find(b, words)) {
        (Some(x), Some(y)) => span(&x).cmp(&span(&y)).then(a.cmp(b)),
        (Some(_), None) => Ordering::Less,
        (None, Some(_)) => Ordering::Greater,
        (None, None) => a.cmp(b),
    }
}

fn check_tokens(item: &[u8], tokens: &[(Vec<u8>, bool)], words: &[Vec<u8>]) {
    let all: Vec<u8> = tokens.iter().flat_map(|t| t.0.clone()).collect();
    check(all == item, "the parts of an entry make the entry");
    let found = find(item, words).unwrap_or_default();
    let mut off = 0;
    let mut marks = vec![];
    for (t, m) in tokens {
        if *m {
            marks.push((off, off + t.len()));
        }
        off += t.len();
    }
    check(marks == found, "the parts of an entry which were typed are marked");
}

fn check_filter(search: &[u8], items: &[Vec<u8>]) {
    let w = words(search);
    let list: Vec<String> = items.iter().map(|i| crate::model::string(i)).collect();
    let got = MenuFilter::new(&crate::model::string(search)).filter(&list);
    check(got.len() == items.len(), "filtering keeps every entry");
    let mut want = items.to_vec();
    want.sort_by(|a, b| order(a, b, &w));
    for (c, i) in got.iter().zip(want.iter()) {
        check(c.object.as_bytes() == &i[..], "entries are ordered by how well they match, then by name");
        let hit = find(i, &w).is_some();
        check(c.is_match() == hit, "an entry matches when the words are found in it in order");
        if hit {
            let tokens: Vec<(Vec<u8>, bool)> = c.tokenize().into_iter().map(|t: Token| (t.text.into_bytes(), t.is_match)).collect();
            check_tokens(i, &tokens, &w);
            cover("match");
        } else {
            cover("no match");
        }
        observe(c.object.as_bytes());
    }
}

/// One entry of any characters, searched for words of some.
fn filter(p: usize) {
    let pool: [&[u8]; 8] = [b"a", b" ", b"B", b".", b"\xc3\xa9", b"*", b"\\", b"\t"];
    let mut search = vec![];
    for _ in 0..range(0, p / 10 % 10) {
        search.extend(pool[pick(pool.len())]);
    }
    let mut item = vec![];
    for _ in 0..range(0, p % 10) {
        match pick(3) {
            0 => item.push(byte(0x20, 0x7e)),
            1 => item.push([b'a', b'B', b'A', b'.'][pick(4)]),
            _ => item.extend([0xc3, byte(0x80, 0xbe)]),
        }
    }
    check_filter(&search, &[item]);
}

/// Several entries of few characters.
fn filter_more(p: usize) {
    let search: [&[u8]; 6] = [b"", b"a", b"A b", b"b a", b"ab", b"a a"];
    let s = search[pick(search.len())];
    let mut items: Vec<Vec<u8>> = vec![];
    for _ in 0..p / 10 % 10 {
        let mut item = vec![];
        for _ in 0..range(1, p % 10) {
            item.push([b'a', b'B', b'x'][pick(3)]);
        }
        if items.contains(&item) {
            return;
        }
        items.push(item);
    }
    check_filter(s, &items);
}

/// Entries which have several words at any distance from each other, searched for the first ones.
fn filter_spread(p: usize) {
    let (count, gap, most) = (p / 100 % 10, p / 10 % 10, p % 10);
    let n = range(1, most);
    let mut search = vec![];
    for i in 0..n {
        search.extend([b'a' + i as u8, b' ']);
    }
    let mut items = vec![];
    for _ in 0..count {
        let mut item = vec![];
        let filler = [b'-', b'x'][pick(2)];
        for i in 0..most {
            for _ in 0..range(0, gap) {
                item.push(filler);
            }
            // a word may be repeated
            item.push(b'a' + i as u8);
        }
        if items.contains(&item) {
            return;
        }
        items.push(item);
    }
    check_filter(&search, &items);
}

fn menu_of(ed: &mut Ed, id: usize) -> MenuParams {
    let mut m = vec![];
    for s in ed.drain() {
        check(s.to == [id], "a menu is shown to who asked for it");
        if s.method == "menu" {
            m.push(s.params::<MenuParams>());
        }
    }
    check(m.len() == 1, "a menu which is asked for is shown");
    m.pop().unwrap()
}

fn label(e: &MenuParamsEntry) -> Vec<u8> {
    e.text.iter().flat_map(|f| f.text.clone().into_bytes()).collect()
}

fn ask(ed: &mut Ed, id: usize, command: &str, search: &str) -> MenuParams {
    let r = ed.request(
        id,
        &format!(r#"{{"jsonrpc":"2.0","id":1,"method":"menu","params":{{"command":"{}","search":"{}"}}}}"#, command, search),
    );
    check(code(&r).is_none(), "a menu which exists is shown");
    let m = menu_of(ed, id);
    check(m.command == command, "a menu names its command");
    check(m.search == search, "a menu repeats what was typed");
    m
}

const COMMANDS: [&str; 8] = ["open", "quit", "scratch", "view_select", "view_delete", "view_add", "view_remove", "exec"];

/// The menu of the commands, filtered by what is typed.
fn menu_search(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    ed.join(2);
    ed.drain();
    let all = ask(&mut ed, 1, "", "");
    let mut keys: Vec<&str> = all.entries.iter().map(|e| e.value.as_str()).collect();
    keys.sort();
    let mut want = COMMANDS.to_vec();
    want.sort();
    check(keys == want, "the menu of the commands lists them all");
    let mut search = vec![];
    for _ in 0..range(0, p % 10) {
        search.push([b'e', b'V', b' ', b'w', b'.', b'v', b'n', b't'][pick(8)]);
    }
    let w = words(&search);
    let got = ask(&mut ed, 2, "", &crate::model::string(&search));
    let mut left: Vec<&MenuParamsEntry> = all.entries.iter().filter(|e| find(&label(e), &w).is_some()).collect();
    left.sort_by(|a, b| order(&label(a), &label(b), &w));
    check(got.entries.len() == left.len(), "a menu shows the entries which match");
    for (g, e) in got.entries.iter().zip(left.iter()) {
        check(g.value == e.value && label(g) == label(e), "a menu shows the best matches first");
        check(g.description == e.description && g.description.is_some(), "an entry keeps its description");
        let tokens: Vec<(Vec<u8>, bool)> = g.text.iter().map(|f| (f.text.clone().into_bytes(), f.face == Face::Match)).collect();
        check_tokens(&label(e), &tokens, &w);
    }
    check(got.title == "command", "a menu has its title");
    if got.entries.is_empty() {
        cover("nothing");
    }
    cover("shown");
}

/// Makes some buffers and views.
fn some_views(ed: &mut Ed, steps: usize) {
    for _ in 0..steps {
        let core = ed.e.verif_core();
        match pick(5) {
            0 => core.edit(1, "a", true).is_ok(),
            1 => core.edit(1, "b", true).is_ok(),
            2 => core.add_to_current_view(1, "*scratch*").is_ok(),
            3 => core.remove_from_current_view(1, "*debug*").is_ok(),
            _ => core.delete_current_view(1).is_ok(),
        };
    }
    ed.drain();
}

/// What the menus of buffers and views list.
fn listed(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    ed.join(2);
    ed.drain();
    if flag() {
        // an earlier list is not kept
        ask(&mut ed, 2, "view_select", "");
        ask(&mut ed, 2, "view_add", "");
        cover("asked before");
    }
    some_views(&mut ed, p % 10);
    let buffers: Vec<String> = ed.buffers().into_iter().map(|b| b.0).collect();
    let views: Vec<String> = ed.e.verif_core().verif_views().into_iter().map(|v| v.0).collect();
    let which = ["view_select", "view_add", "view_remove"][pick(3)];
    let got = ask(&mut ed, 1, which, "");
    let mut want = buffers.clone();
    if which == "view_select" {
        want.retain(|b| !views.contains(&View::for_buffer(b).key()));
        want.extend(views);
    }
    want.sort();
    let keys: Vec<String> = got.entries.iter().map(|e| e.value.clone()).collect();
    check(keys == want, "a menu lists every buffer or view once, by name");
    for e in &got.entries {
        check(label(e) == e.value.as_bytes(), "an entry is labelled by its name");
    }
    cover(which);
}

/// What choosing does.
fn chosen(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    ed.join(2);
    some_views(&mut ed, p % 10);
    let here = ed.client(1).unwrap();
    let other = ed.client(2).unwrap();
    let views: Vec<String> = ed.e.verif_core().verif_views().into_iter().map(|v| v.0).collect();
    let select = |ed: &mut Ed, menu: &str, choice: &str| {
        let r = ed.request(
            1,
            &format!(r#"{{"jsonrpc":"2.0","id":9,"method":"menu-select","params":{{"command":"{}","choice":"{}"}}}}"#, menu, choice),
        );
        code(&r)
    };
    let op = pick(7);
    match op {
        0 => {
            ask(&mut ed, 1, "", "");
            let c = ["scratch", "view_select", "view_add", "view_remove", "exec"][pick(5)];
            check(select(&mut ed, "", c).is_none(), "a command can be chosen");
            let m = menu_of(&mut ed, 1);
            check(m.command == c && m.search.is_empty(), "choosing a command shows its menu");
            check(!m.entries.is_empty(), "the menu of a command has entries");
            cover("menu");
        }
        1 => {
            ask(&mut ed, 1, "", "");
            check(select(&mut ed, "", "quit").is_none(), "a command can be chosen");
            check(ed.e.removed_clients() == [1] && ed.client(1).is_none(), "choosing to quit quits");
            check(ed.client(2).is_some(), "only who quits is gone");
            cover("quit");
        }
        2 => {
            ask(&mut ed, 1, "", "");
            check(select(&mut ed, "", "view_delete").is_none(), "a command can be chosen");
            let key = ed.client(1).unwrap().view_key;
            let kept = views.len() == 1 && key == "*scratch*{*}";
            check(key != here.view_key || kept, "choosing to delete the view deletes it");
            cover("view_delete");
        }
        3 => {
            let m = ask(&mut ed, 1, "view_select", "");
            let c = m.entries[pick(m.entries.len())].value.clone();
            check(select(&mut ed, "view_select", &c).is_none(), "a view can be chosen");
            let key = ed.client(1).unwrap().view_key;
            check(key == c || key == View::for_buffer(&c).key(), "choosing a view shows it");
            check(ed.client(2).unwrap().view_key == other.view_key, "choosing is for who chooses");
            cover("view_select");
        }
        4 => {
            let add = flag();
            let menu = if add { "view_add" } else { "view_remove" };
            let m = ask(&mut ed, 1, menu, "");
            let c = m.entries[pick(m.entries.len())].value.clone();
            check(select(&mut ed, menu, &c).is_none(), "a buffer can be chosen");
            let now = ed.client(1).unwrap();
            if add {
                check(now.buffers.contains(&c), "choosing a buffer to add shows it");
            } else if here.buffers.contains(&c) && here.buffers.len() > 1 {
                check(!now.buffers.contains(&c), "choosing a buffer to remove hides it");
                cover("hidden");
            }
            cover(menu);
        }
        5 => {
            if flag() {
                ask(&mut ed, 1, "scratch", "");
            } else {
                ask(&mut ed, 1, "", "");
                check(select(&mut ed, "", "scratch").is_none(), "a command can be chosen");
                check(menu_of(&mut ed, 1).command == "scratch", "choosing a command shows its menu");
            }
            let name = ["n", "two words", "\u{e9}", "UPPER", "a.b/c", "%s", "exec"][pick(7)].to_string();
            check(select(&mut ed, "scratch", &name).is_none(), "a name can be typed");
            let now = ed.client(1).unwrap();
            check(now.buffers == [name.clone()], "typing a name opens a scratch buffer");
            check(ed.text(&name).unwrap() == b"\n", "typing a name opens a scratch buffer");
            cover("scratch");
        }
        _ => {
            let m = ask(&mut ed, 1, "exec", "");
            check(m.entries.len() == 1 && m.entries[0].value.is_empty(), "a prompt has its entry");
            let (src, want) = [("editor:edit(1, 'z', true)", None), ("error('x')", SCRIPT), ("x =", SCRIPT)][pick(3)];
            check(select(&mut ed, "exec", src) == want, "a script can be typed");
            check((ed.client(1).unwrap().buffers == ["z"]) == want.is_none(), "a script does what it says");
            cover("exec");
        }
    }
    check(!ed.drain().iter().any(|s| s.method == "menu"), "a choice is made once");
    if op > 1 {
        check(ed.client(1).is_some() && ed.client(2).is_some(), "who chooses something else stays");
    }
    check(select(&mut ed, "view_add", "no such buffer") == INVALID_PARAMS, "what is not listed cannot be chosen");
    ed.sound();
}

/// The menu of files.
fn files(p: usize) {
    let pool = [("a", true), ("d/b.txt", true), ("d/e/c", true), (".h", false), ("d/\u{e9} f", true), ("d/.k/g", false)];
    let mut ed = Ed::new();
    ed.join(1);
    ed.join(2);
    ed.drain();
    let mut there: Vec<&str> = vec![];
    let mut listed: Vec<&str> = vec![];
    let asked = flag();
    for (name, plain) in pool.iter().take(p % 10) {
        if flag() {
            file(name, format!("in {}\n", name).as_bytes());
            there.push(name);
            if *plain {
                listed.push(name);
            }
        }
        if asked && there.len() == 1 {
            // an earlier list is not kept
            ask(&mut ed, 2, "open", "");
            cover("asked before");
        }
    }
    let m = if flag() {
        ask(&mut ed, 1, "open", "")
    } else {
        ask(&mut ed, 1, "", "");
        let r = ed.request(1, r#"{"jsonrpc":"2.0","id":9,"method":"menu-select","params":{"command":"","choice":"open"}}"#);
        check(code(&r).is_none(), "a command can be chosen");
        menu_of(&mut ed, 1)
    };
    listed.sort();
    let mut keys: Vec<String> = m.entries.iter().map(|e| e.value.clone()).collect();
    check(m.command == "open" && m.title == "file", "the menu of the files is shown");
    for e in &m.entries {
        check(label(e) == e.value.as_bytes(), "an entry is labelled by its name");
    }
    keys.sort();
    check(keys == listed, "the menu of the files lists each file once, by its path");
    if listed.is_empty() {
        cover("no file");
        return;
    }
    let c = listed[pick(listed.len())];
    let gone = flag();
    if gone {
        unfile(c);
    }
    let before = ed.client(1).unwrap().view_key;
    let other = ed.client(2).unwrap().view_key;
    let r = ed.request(1, &format!(r#"{{"jsonrpc":"2.0","id":9,"method":"menu-select","params":{{"command":"open","choice":"{}"}}}}"#, c));
    if gone {
        check(code(&r) == INVALID_REQUEST, "a file which is gone cannot be opened");
        check(ed.client(1).unwrap().view_key == before, "a file which is gone is not shown");
        cover("gone");
    } else {
        check(code(&r).is_none(), "a file can be chosen");
        check(ed.client(1).unwrap().buffers == [c], "choosing a file shows it");
        check(ed.text(c).unwrap() == format!("in {}\n", c).as_bytes(), "choosing a file shows its content");
        observe(c.as_bytes());
        cover("opened");
    }
    check(ed.client(2).unwrap().view_key == other, "choosing is for who chooses");
    ed.sound();
}
