//! C23: how workspaces come into being.

use crate::engine::{Ctx, HResult, Harness};
use crate::faults::inject;
use crate::io::short;
use scribe::{Buffer, Workspace};
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};

fn definition(name: &str, extension: &str) -> String {
    format!(
        "%YAML 1.2\n---\nname: {}\nfile_extensions: [{}]\nscope: source.{}\ncontexts:\n  main:\n    - match: '[a-z]+'\n      scope: word.{}\n",
        name, extension, extension, extension
    )
}

/// What a folder of definitions can hold.
const ENTRIES: [&str; 13] = [
    "one.sublime-syntax",
    "two.sublime-syntax",
    "nested/three.sublime-syntax",
    "deep/er/still/four.sublime-syntax",
    "again.sublime-syntax",
    "five words.sublime-syntax",
    "README.md",
    "one.sublime-syntax~",
    "empty directory",
    "broken: not YAML",
    "broken: nested, no contexts",
    "broken: empty file",
    "broken: not text",
];

/// Writes the entries picked; what they define, and whether any is broken.
fn fill(folder: &Path, picked: &[usize]) -> (Vec<(String, String)>, bool) {
    let _ = std::fs::remove_dir_all(folder);
    std::fs::create_dir_all(folder).unwrap();
    let mut defined = Vec::new();
    let mut broken = false;
    let write = |name: &str, content: &[u8]| {
        let q = folder.join(name);
        std::fs::create_dir_all(q.parent().unwrap()).unwrap();
        std::fs::write(q, content).unwrap();
    };
    for i in picked {
        match *i {
            k @ (0..=3 | 5) => {
                let (name, ext) = [("One", "onex"), ("Two", "twox"), ("Three", "threex"), ("Four", "fourx"), ("", ""), ("Five", "fivex")][k];
                write(ENTRIES[k], definition(name, ext).as_bytes());
                defined.push((name.to_string(), ext.to_string()));
            }
            4 => {
                // Takes a bundled definition's extension.
                write(ENTRIES[4], definition("Again", "rs").as_bytes());
                defined.push(("Again".into(), "rs".into()));
            }
            6 | 7 => write(ENTRIES[*i], b"no: [definition"),
            8 => std::fs::create_dir_all(folder.join("empty")).unwrap(),
            9 => {
                write("broken.sublime-syntax", b"a: [b");
                broken = true;
            }
            10 => {
                write("nested/broken.sublime-syntax", b"%YAML 1.2\n---\nname: B\nfile_extensions: [b]\nscope: source.b\n");
                broken = true;
            }
            11 => {
                write("empty.sublime-syntax", b"");
                broken = true;
            }
            _ => {
                write("binary.sublime-syntax", b"%YAML 1.2\n---\nname: \xff\n");
                broken = true;
            }
        }
    }
    (defined, broken)
}

fn names(w: &Workspace) -> Vec<String> {
    let mut v: Vec<String> = w.syntax_set.syntaxes().iter().map(|s| s.name.clone()).collect();
    v.sort();
    v
}

/// A workspace just made: nothing in it, the right path, all the definitions, and usable.
fn pristine(ctx: &mut Ctx, w: &mut Workspace, canonical: &Path, defined: &[(String, String)]) -> HResult {
    ctx.transition();
    if w.path != canonical {
        return Err(format!("the workspace's path is {:?}, expected {:?}", w.path, canonical));
    }
    if w.current_buffer.is_some() || w.current_buffer_index().is_some() || w.current_buffer_path().is_some() || !w.buffer_paths().is_empty() {
        return Err(format!("a new workspace has buffers: {:?}", w.buffer_paths()));
    }
    if w.current_buffer_tokens().is_ok() || w.update_current_syntax().is_ok() {
        return Err("a new workspace has a current buffer to tokenize or refresh".into());
    }
    // The bundled definitions are syntect's, loaded without scribe.
    let mut want: Vec<String> = crate::syntaxes().syntaxes().iter().map(|s| s.name.clone()).collect();
    want.extend(defined.iter().map(|d| d.0.clone()));
    want.sort();
    let got = names(w);
    if got != want {
        let missing: Vec<&String> = want.iter().filter(|n| !got.contains(n)).collect();
        let extra: Vec<&String> = got.iter().filter(|n| !want.contains(n)).collect();
        return Err(format!("with definitions {:?}, the workspace has {} instead of {}: missing {:?}, unexpected {:?}", defined, got.len(), want.len(), missing, extra));
    }
    for (name, ext) in defined {
        let found = w.syntax_set.find_syntax_by_extension(ext).map(|s| s.name.clone());
        if found.as_ref() != Some(name) {
            return Err(format!("the definition for {:?} is {:?}, expected {:?}", ext, found, name));
        }
    }
    // Patterns match line feeds as part of the line.
    for (name, ext) in defined.iter().take(1).chain([&("Rust".to_string(), "rs".to_string())]) {
        if defined.iter().any(|d| d.1 == *ext && d.0 != *name) {
            continue;
        }
        let mut b = Buffer::new();
        b.insert("word // c\nword");
        b.path = Some(canonical.join(format!("x.{}", ext)));
        w.add_buffer(b);
        let cur = w.current_buffer.as_ref().unwrap();
        let got = cur.syntax_definition.as_ref().map(|d| d.name.clone());
        if got.as_ref() != Some(name) {
            return Err(format!("a buffer for {:?} gets the definition {:?}, expected {:?}", ext, got, name));
        }
        let def = cur.syntax_definition.clone().unwrap();
        let text = cur.data();
        let tokens = w.current_buffer_tokens().map_err(|e| format!("no tokens: {}", e))?;
        crate::text::token_set_check(ctx, &tokens, &text, &def, &w.syntax_set)?;
        if *name == "Rust" {
            // The comment ends with its line.
            let last = tokens.iter().map_err(|e| e.to_string())?.last();
            if let Some(scribe::buffer::Token::Lexeme(x)) = last {
                if x.scope.as_slice().iter().any(|s| s.to_string().starts_with("comment")) {
                    return Err(format!("a line after a comment still is one: {:?}", x));
                }
            }
        }
    }
    Ok(())
}

fn picks(ctx: &mut Ctx, most: usize) -> Vec<usize> {
    // Sets of up to `most` entries, in ascending order.
    let n = ctx.choose(most + 1);
    let mut v: Vec<usize> = Vec::new();
    for i in 0..n {
        let from = v.last().map_or(0, |x| x + 1);
        let left = ENTRIES.len() - from;
        if left < n - i {
            return v;
        }
        v.push(from + ctx.choose(left - (n - i - 1)));
    }
    v
}

/// Ways to name a place, and what it really is; None if there is no such place.
const PLACES: usize = 20;
fn place(scratch: &Path, how: usize) -> (PathBuf, Option<PathBuf>) {
    let base = scratch.join("new");
    let dir = base.join("ws \u{e9}");
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let canonical = dir.canonicalize().unwrap();
    let link = |to: &Path, name: &str| {
        let at = base.join(name);
        std::os::unix::fs::symlink(to, &at).unwrap();
        at
    };
    let relative = crate::ws::relative(&dir);
    match how {
        0 => (dir, Some(canonical)),
        1 => (relative, Some(canonical)),
        2 => (dir.join("sub/.."), Some(canonical)),
        3 => (dir.join("./"), Some(canonical)),
        4 => (PathBuf::from(format!("{}//", dir.display())), Some(canonical)),
        5 => (link(&dir, "link"), Some(canonical)),
        6 => (link(&link(&dir, "link"), "second"), Some(canonical)),
        7 => (link(&base, "up").join("ws \u{e9}"), Some(canonical)),
        8 => {
            let q = base.join(std::ffi::OsString::from_vec(b"odd\xff".to_vec()));
            std::fs::create_dir_all(&q).unwrap();
            (q.clone(), q.canonicalize().ok())
        }
        9 => (PathBuf::from("."), std::env::current_dir().ok().and_then(|d| d.canonicalize().ok())),
        10 => (PathBuf::new(), None),
        11 => (base.join("missing"), None),
        12 => (base.join("missing/.."), None),
        13 => (link(&base.join("nowhere"), "dangling"), None),
        // Files, too, exist.
        14..=18 => {
            let file = dir.join("file.rs");
            std::fs::write(&file, "text").unwrap();
            let canonical = Some(canonical.join("file.rs"));
            match how {
                14 => (file, canonical),
                15 => (relative.join("file.rs"), canonical),
                16 => (link(&file, "link"), canonical),
                17 => (file.join(""), None),
                _ => (file.join(".."), None),
            }
        }
        _ => {
            let l = base.join("loop");
            std::os::unix::fs::symlink(&l, &l).unwrap();
            (l, None)
        }
    }
}

pub fn c23(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    v.push(Harness::new(
        "places",
        format!("{} ways to name a directory (absolute, relative, dot segments, doubled slashes, links and chains of them, not UTF-8, the working directory; a file, in three of these ways, and as if it were a directory; empty, missing, a dangling link, a loop); without definitions, with a folder of them named in 4 ways, with a missing one, with an empty one", PLACES),
        move |ctx| {
            let how = ctx.choose(PLACES);
            let (given, canonical) = place(ctx.scratch, how);
            let folder = ctx.scratch.join("defs");
            let with = ctx.choose(7);
            let (mut defined, _) = fill(&folder, if with == 6 { &[] } else { &[0, 2] });
            let mut fine = true;
            let defs = match with {
                0 => {
                    defined.clear();
                    None
                }
                1 | 6 => Some(folder.clone()),
                2 => Some(crate::ws::relative(&folder)),
                3 => Some(folder.join("nested/..")),
                4 => {
                    let l = ctx.scratch.join("linked-defs");
                    let _ = std::fs::remove_file(&l);
                    std::os::unix::fs::symlink(&folder, &l).unwrap();
                    Some(l)
                }
                _ => {
                    fine = false;
                    Some(folder.join("missing"))
                }
            };
            ctx.state(&(how, with));
            ctx.log(|| format!("workspace {:?} with {:?}", given, defs));
            match (Workspace::new(&given, defs.as_deref()), canonical) {
                (Ok(mut w), Some(c)) if fine => pristine(ctx, &mut w, &c, &defined),
                (Err(_), c) if c.is_none() || !fine => {
                    ctx.count("refused");
                    Ok(())
                }
                (Ok(_), _) => Err(format!("a workspace was created for {:?} with definitions {:?}", given, defs)),
                (Err(e), _) => Err(format!("no workspace for {:?} with definitions {:?}: {}", given, defs, e)),
            }
        },
    ));
    {
        let most = if thorough { 3 } else { 2 };
        v.push(Harness::new(
            "definitions",
            format!("folders holding every set of up to {} of {:?}", most, ENTRIES),
            move |ctx| {
                let picked = picks(ctx, most);
                let folder = ctx.scratch.join("defs");
                let (defined, broken) = fill(&folder, &picked);
                let dir = ctx.scratch.join("for-defs");
                let _ = std::fs::create_dir_all(&dir);
                ctx.state(&picked);
                ctx.log(|| format!("definitions {:?}", picked.iter().map(|i| ENTRIES[*i]).collect::<Vec<_>>()));
                match Workspace::new(&dir, Some(&folder)) {
                    Ok(_) if broken => Err(format!("a workspace was created with broken definitions: {:?}", picked.iter().map(|i| ENTRIES[*i]).collect::<Vec<_>>())),
                    Ok(mut w) => pristine(ctx, &mut w, &dir.canonicalize().unwrap(), &defined),
                    Err(_) if broken => {
                        ctx.count("refused");
                        Ok(())
                    }
                    Err(e) => Err(format!("no workspace with {:?}: {}", picked.iter().map(|i| ENTRIES[*i]).collect::<Vec<_>>(), short(&e.to_string()))),
                }
            },
        ));
    }
    for any in [false, true] {
        let budget = if thorough && !any { 2 } else { 1 };
        let h = Harness::new(
            "creation-faults",
            format!("without definitions, and with folders of 0 to 3 of them at up to four levels; up to {} system calls (open, read, list, look up, resolve) answered by a fault; then a second attempt", budget),
            move |ctx| {
                let folder = ctx.scratch.join("defs");
                let sets: [&[usize]; 5] = [&[], &[0], &[0, 1], &[2, 6], &[0, 3, 5]];
                let with = ctx.choose(sets.len() + 1);
                let (mut defined, _) = fill(&folder, if with == 0 { &[] } else { sets[with - 1] });
                if with == 0 {
                    defined.clear();
                }
                let defs = if with == 0 { None } else { Some(folder.as_path()) };
                let dir = ctx.scratch.join("for-faults");
                let _ = std::fs::create_dir_all(&dir);
                let canonical = dir.canonicalize().unwrap();
                ctx.state(&with);
                let (r, inj) = inject(ctx, budget, || Workspace::new(&dir, defs));
                ctx.log(|| format!("with {:?}: {:?}", inj, r.as_ref().map(|_| ()).map_err(|e| e.to_string())));
                ctx.transition();
                match r {
                    Ok(mut w) => {
                        ctx.count(if inj.0.is_empty() { "creations without fault" } else { "creations despite a fault" });
                        pristine(ctx, &mut w, &canonical, &defined).map_err(|e| format!("under {:?}: {}", inj, e))
                    }
                    Err(e) if !inj.fatal() => Err(format!("no workspace under {:?}: {}", inj, e)),
                    Err(_) => {
                        ctx.count("creations that reported a fault");
                        let mut w = Workspace::new(&dir, defs).map_err(|e| format!("no workspace on the second attempt, after {:?}: {}", inj, e))?;
                        pristine(ctx, &mut w, &canonical, &defined)
                    }
                }
            },
        );
        v.push(if any { crate::faults::every_errno("creation-errors", if thorough { 19 } else { 8 }, h) } else { h });
    }
    {
        let depth = if thorough { 4 } else { 3 };
        v.push(Harness::new(
            "one-after-another",
            format!("{} workspaces created in turn, in either of two directories, without definitions, with a folder of them, as it was or changed to hold others or a broken one, or with another folder; then each of them", depth),
            move |ctx| {
                let dirs = [ctx.scratch.join("first-ws"), ctx.scratch.join("second-ws")];
                for d in &dirs {
                    let _ = std::fs::create_dir_all(d);
                }
                let folders = [ctx.scratch.join("first-defs"), ctx.scratch.join("second-defs")];
                let sets: [&[usize]; 3] = [&[0], &[1, 4], &[9]];
                let mut held = [fill(&folders[0], sets[0]), fill(&folders[1], &[2])];
                let mut made = Vec::new();
                let mut steps = Vec::new();
                for i in 0..depth {
                    let d = i % 2;
                    // None; the first folder as it is, or changed in either way; the second.
                    let c = ctx.choose(5);
                    let with = [0, 1, 1, 1, 2][c];
                    if c == 2 || c == 3 {
                        held[0] = fill(&folders[0], sets[c - 1]);
                    }
                    steps.push((d, c));
                    let defs = if with == 0 { None } else { Some(folders[with - 1].as_path()) };
                    let (defined, broken) = if with == 0 { (Vec::new(), false) } else { held[with - 1].clone() };
                    match Workspace::new(&dirs[d], defs) {
                        Ok(_) if broken => return Err(format!("{:?}: a workspace was created with broken definitions", steps)),
                        Ok(w) => made.push((w, dirs[d].canonicalize().unwrap(), defined)),
                        Err(_) if broken => ctx.count("refused"),
                        Err(e) => return Err(format!("{:?}: no workspace: {}", steps, short(&e.to_string()))),
                    }
                }
                ctx.state(&steps);
                ctx.log(|| format!("{:?}", steps));
                if !ctx.fresh() && !ctx.tracing() {
                    return Ok(());
                }
                for (w, canonical, defined) in made.iter_mut() {
                    pristine(ctx, w, canonical, defined).map_err(|e| format!("{:?}: {}", steps, e))?;
                }
                Ok(())
            },
        ));
    }
    v.push(crate::names::created());
    v.push(crate::life::over_and_over(true));
    v
}
