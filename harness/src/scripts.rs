//! What scripts are told and what they show.
use crate::editor::*;
use crate::model::*;
use crate::sym::*;
use ced_remote::protocol::notifications::*;

pub fn run(idx: usize, p: usize) {
    match idx {
        1300 => context(p),
        1310 => hints(p),
        1320 => calls(p),
        1330 => files(p),
        _ => panic!("no such scenario"),
    }
}

/// Characters of all widths; scripts hash their strings, so that these are no variables.
fn written(n: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n {
        v.extend([&b"x"[..], b"\n", b"\xc3\xa9", b"\xcc\x81", b"\xf0\x9f\xa6\x80"][pick(5)]);
    }
    v
}

/// What a script is told about a client.
fn context(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    ed.join(2);
    ed.show(1, "o");
    ed.show(2, "a");
    let two = p >= 10;
    if two {
        let ok = ed.e.verif_core().add_to_current_view(2, "o").is_ok();
        check(ok, "a buffer is added to a view");
    }
    let mut docs = vec![];
    for (name, most) in [("a", p % 10), ("o", p / 10 % 10)] {
        if most == 0 {
            continue;
        }
        let t = written(range(1, most));
        ed.fill(name, &t);
        let d = Doc::new(&t);
        let s = any_selection(&d);
        ed.select(2, name, s.0, s.1);
        docs.push((name, d, s));
    }
    let key = ed.client(2).unwrap().view_key;
    ed.drain();
    let from = 1 + pick(2);
    type Told = (String, String, Vec<(String, Vec<(usize, usize, usize, usize, usize, usize, String)>)>);
    let told = ed.e.exec_lua("x", from, |l| {
        let t: rlua::Table = l.load("return editor:get_context(2)").eval()?;
        let view: rlua::Table = t.get("view")?;
        let sels: rlua::Table = t.get("selections")?;
        let mut v = vec![];
        for pair in sels.pairs::<String, Vec<rlua::Table>>() {
            let (name, list) = pair?;
            let mut w = vec![];
            for s in list {
                let at = |k: &str| -> rlua::Result<(usize, usize, usize)> {
                    let e: rlua::Table = s.get(k)?;
                    let pos: rlua::Table = e.get("pos")?;
                    Ok((e.get("offset")?, pos.get("l")?, pos.get("c")?))
                };
                let (a, c) = (at("anchor")?, at("cursor")?);
                w.push((a.0, a.1, a.2, c.0, c.1, c.2, s.get("text")?));
            }
            v.push((name, w));
        }
        v.sort();
        let who: String = l.load("return env.client .. '@' .. env.session").eval()?;
        Ok((view.get::<_, String>("key")?, who, v))
    });
    let Ok((view, who, sels)): Result<Told, _> = told else {
        return check(false, "a script is told about a client");
    };
    check(view == key, "a script is told the view of a client");
    check(who == format!("{}@s", from), "a script is told who runs it");
    check(sels.len() == docs.len(), "a script is told the selections of a client");
    for ((name, list), (want, d, s)) in sels.iter().zip(docs.iter()) {
        check(name == want && list.len() == 1, "a script is told the selections of a client");
        let (ao, al, ac, co, cl, cc, text) = &list[0];
        check((*ao, *co) == *s, "a script is told where a selection is");
        check(d.coord(*ao) == Some((*al, *ac)) && d.coord(*co) == Some((*cl, *cc)), "a script is told on what lines and columns a selection is");
        let (lo, hi) = covered(d, *s);
        check(text.as_bytes() == &d.b[lo..hi], "a script is told what is selected");
        observe(text.as_bytes());
    }
    check(ed.drain().is_empty(), "nobody is told that a script asked");
    cover("told");
    if two {
        cover("two buffers");
    }
    // what a script deletes
    let out = ed.e.exec_lua("x", from, |l| l.load("return editor:delete_selection(2)").eval::<Vec<String>>());
    let Ok(mut out) = out else { return check(false, "a script deletes what is selected") };
    out.sort();
    let mut want: Vec<String> = docs.iter().map(|(_, d, s)| covered(d, *s)).zip(docs.iter()).map(|((lo, hi), (_, d, _))| string(&d.b[lo..hi])).collect();
    want.sort();
    check(out == want, "a script is told what it deleted");
    ed.sound();
}

/// Hints shown by scripts. Longer strings are not hashed by Lua: their bytes are variables.
fn hints(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    ed.join(2);
    ed.drain();
    let mut lines = vec![];
    for _ in 0..range(1, p / 10 % 10) {
        let mut l = vec![b'-'; 41];
        let t = chars(range(0, p % 10), &[Class::Ascii, Class::Two, Class::Four]);
        l.extend(&t);
        lines.push(string(&l));
    }
    let framed = flag();
    let times = 1 + (p >= 100) as usize;
    let told = ed.e.exec_lua("x", 1, |l| {
        let f: rlua::Function = l.load("return function(ls, f, n) for i = 1, n do editor:show_hint(2, ls, f) end end").eval()?;
        f.call::<_, ()>((lines.clone(), framed, times))
    });
    check(told.is_ok(), "a script shows a hint");
    let sent = ed.drain();
    check(sent.len() == times, "a hint is shown once");
    for s in sent {
        check(s.method == "hint" && s.to == [2], "a hint is shown to its client");
        let h: HintParams = s.params();
        let got: Vec<String> = h.text.iter().map(|l| l.plain()).collect();
        check(got.len() == lines.len() + framed as usize, "a hint has its lines");
        let w = got[0].chars().count();
        for (i, g) in got.iter().enumerate() {
            observe(g.as_bytes());
            check(g.chars().count() == w, "the lines of a hint end below each other");
            if i == lines.len() {
                check(g.starts_with('\u{2570}') && g.ends_with('\u{256f}'), "a frame is closed below");
                check(g.chars().skip(1).take(w - 2).all(|c| c == '\u{2500}'), "a frame is closed below");
                continue;
            }
            let line = &lines[i];
            if !framed {
                let pad = g.strip_prefix(line.as_str());
                check(pad.map_or(false, |p| p.bytes().all(|b| b == b' ')), "a line of a hint is shown whole");
                continue;
            }
            let (open, close, fill) = if i == 0 { ("\u{256d}\u{2500} ", "\u{256e}", '\u{2500}') } else { ("\u{2502} ", " \u{2502}", ' ') };
            let rest = g.strip_prefix(open).and_then(|g| g.strip_prefix(line.as_str())).and_then(|g| g.strip_suffix(close));
            let rest = if i == 0 { rest.and_then(|r| r.strip_prefix(' ')) } else { rest };
            check(rest.map_or(false, |r| r.chars().all(|c| c == fill)), "a line of a hint is shown whole in its frame");
        }
    }
    cover(if framed { "framed" } else { "plain" });
}

fn state(ed: &mut Ed) -> Vec<String> {
    ed.clients().into_iter().map(|c| format!("{} {} {:?} {:?}", c.id, c.view_key, c.buffers, c.selections)).collect()
}

/// But for the logs.
fn texts(ed: &mut Ed) -> Vec<(String, String)> {
    ed.buffers().into_iter().filter(|b| b.0 != "*debug*" && b.0 != "*errors*").collect()
}

/// Calls by scripts with any arguments: what is wrong is an error, and nothing happens.
fn calls(p: usize) {
    let mut ed = Ed::new();
    ed.join(1);
    ed.join(2);
    ed.show(1, "a");
    ed.show(2, "a");
    ed.fill("a", b"x\xc3\xa9\n");
    ed.drain();
    let before = (state(&mut ed), texts(&mut ed));
    let view = ed.client(2).unwrap().view_key;
    let name = ["debug", "message", "error", "push_status_line", "show_hint", "get_context", "scratch", "edit", "append_to", "move_left", "move_right",
        "move_up", "move_down", "move_to_line_begin", "move_to_line_end", "move_to_begin", "move_to_end", "delete_selection"][pick(18)];
    let mut args = vec![];
    let mut sane = true;
    for i in 0..p % 10 {
        // 1 is a client, -1 and 9 are none; "\xff" is no text
        let a = ["nil", "1", "-1", "9", "1.5", "true", "'a'", "'\\xff'", "{}", "{'x'}", "{1, 'y'}", "print"][pick(12)];
        sane &= i > 0 || a != "9";
        args.push(a);
    }
    let core = flag();
    let target = if core { "_CORE" } else { "editor" };
    let src = format!("{}:{}({})", target, name, args.join(", "));
    let r = ed.e.exec_lua("x", 2, |l| l.load(&src).exec());
    let told = ed.drain();
    ed.sound();
    check(ed.client(2).map(|c| c.view_key) == Some(view) || name == "edit" || name == "scratch", "a script changes what it says");
    if r.is_err() {
        let now = (state(&mut ed), texts(&mut ed));
        check(now == before, "a call which fails changes nothing");
        check(told.iter().all(|s| s.method == "echo" && s.to == [2]), "who runs a script is told that it fails, and nobody else");
        check(told.len() == 1, "who runs a script is told that it fails");
        cover("failed");
    } else {
        check(sane || ["debug", "message", "error", "show_hint", "append_to"].contains(&name), "a client that is not there is an error");
        cover("done");
    }
    // others still work
    let r = ed.request(1, r#"{"jsonrpc":"2.0","id":77,"method":"keys","params":[{"key":{"Char":"l"},"ctrl":false,"alt":false,"shift":false}]}"#);
    check(crate::requests::code(&r).is_none(), "the other clients are still served");
    ed.sound();
}

/// Files of scripts are run in order, up to the first which fails.
fn files(p: usize) {
    let n = range(1, p % 10);
    let one = p >= 10 && flag();
    let mut names: Vec<String> = vec![];
    let mut trace = String::new();
    let mut want = None;
    for i in 0..n {
        let name = format!("{}/s{}", DIR, i);
        let mut data = format!("trace = (trace or '') .. '{}'\n", i).into_bytes();
        let kind = pick(8);
        let mut fails = Some(std::io::ErrorKind::Other);
        match kind {
            0 => {
                data.extend(b"editor:append_to('*scratch*', trace)\n");
                fails = None;
                cover("script");
            }
            1 => {
                // it sees what the ones before it did
                data.extend(format!("if trace ~= '{}{}' then error('order') end\n", trace, i).as_bytes());
                fails = None;
                cover("order");
            }
            2 => {
                data.extend(b"error('x')\n");
                cover("error");
            }
            3 => {
                data.extend(b"editor:get_context(99)\n");
                cover("error of the editor");
            }
            4 => {
                data.extend(b"(\n");
                cover("no script");
            }
            5 => {
                data.extend(b"-- \xff\n");
                fails = Some(std::io::ErrorKind::InvalidData);
                cover("no text");
            }
            6 => {
                data.clear();
                fails = Some(std::io::ErrorKind::NotFound);
                cover("missing");
            }
            _ => {
                data.clear();
                fails = None;
                cover("empty");
            }
        }
        if kind != 6 {
            file(&format!("s{}", i), &data);
        }
        if !data.is_empty() {
            trace.push_str(&i.to_string());
        }
        names.push(name);
        if want.is_none() {
            want = fails.map(|k| (i, k));
        }
    }
    let names: Vec<&str> = names.iter().map(|n| n.as_str()).collect();
    if one {
        // each in an editor of its own
        let r = ced::script::exec_script_oneshot(names[0]);
        return match want {
            Some((0, std::io::ErrorKind::Other)) => check(matches!(r, Err(ced::script::LuaIOError::Lua(_))), "a script which fails is an error"),
            Some((0, _)) => check(matches!(r, Err(ced::script::LuaIOError::Io(_))), "a script which can not be read is an error"),
            _ => check(r.is_ok(), "a script is run"),
        };
    }
    let r = ced::script::exec_scripts(&names);
    match want {
        None => {
            check(r.is_ok(), "scripts are run in order, in one editor");
            cover("run");
        }
        Some((_, kind)) => {
            check(r.map_err(|e| e.kind()) == Err(kind), "the first script which fails is an error");
            cover("failed");
        }
    }
}
