//! Paths that other programs give a meaning: a tilde, variables, quotes, line numbers, schemes.
//! To the operating system they are names like any other.

use crate::engine::{Ctx, Harness};
use crate::ws::Elsewhere;
use scribe::{Buffer, Workspace};
use std::path::{Path, PathBuf};

/// Names, and what somebody may take them for.
const NAMES: &[(&str, &str)] = &[
    ("~/f", "HOME/f"),
    ("~", "HOME/f"),
    ("~f", "f"),
    ("$HOME/f", "HOME/f"),
    ("${HOME}/f", "HOME/f"),
    ("%HOME%/f", "HOME/f"),
    ("f:1", "f"),
    ("f:1:2", "f"),
    ("f:", "f"),
    ("f+1", "f"),
    ("f(1)", "f"),
    ("f(1,2)", "f"),
    ("f#1", "f"),
    ("f#L1", "f"),
    ("f?x", "f"),
    ("f@1", "f"),
    ("@f", "f"),
    ("+f", "f"),
    ("-f", "f"),
    (":f", "f"),
    ("=f", "f"),
    ("!f", "f"),
    ("file:f", "f"),
    ("file:/f", "f"),
    ("file:/./f", "f"),
    ("a/f", "f"),
    ("b/f", "f"),
    (" f", "f"),
    ("f ", "f"),
    ("f\n", "f"),
    ("f\t", "f"),
    ("f\r", "f"),
    ("\u{feff}f", "f"),
    ("f.", "f"),
    ("f~", "f"),
    ("F", "f"),
    ("\u{ff46}", "f"),
    ("\"f\"", "f"),
    ("'f'", "f"),
    ("<f>", "f"),
    ("(f)", "f"),
    ("[f]", "f"),
    ("{f}", "f"),
    ("{f,g}", "f"),
    ("`f`", "f"),
    ("f*", "f"),
    ("?", "f"),
    ("*", "f"),
    ("\\f", "f"),
    ("\\", "f"),
    ("sub\\f", "sub/f"),
    ("sub:f", "sub/f"),
    ("sub|f", "sub/f"),
    ("C:\\f", "f"),
    ("C:/f", "f"),
    ("f%20g", "f g"),
    ("f\\ g", "f g"),
    ("f+g", "f g"),
    ("%66", "f"),
    ("\\x66", "f"),
    ("&#102;", "f"),
    ("f;g", "f"),
    ("f,g", "f"),
    ("f|g", "f"),
    ("f&g", "f"),
    ("f::g", "f"),
    ("f!g", "f"),
    ("f.gz", "f"),
    ("f.orig", "f"),
    ("f.rs:3", "f.rs"),
    ("-", "f"),
    ("--", "f"),
    ("", "f"),
    (".. ", "f"),
    ("...", "f"),
    ("\u{2024}", "f"),
    ("e\u{301}", "\u{e9}"),
    ("\u{e9}", "e\u{301}"),
    ("\u{212a}", "K"),
    ("f\u{200b}", "f"),
    ("f\u{a0}", "f"),
];

/// The directory that HOME names; made once, before exploring.
pub fn home(scratch: &Path) {
    let home = scratch.join("home");
    std::fs::create_dir_all(home.join("sub")).unwrap();
    std::fs::write(home.join("f"), "at home").unwrap();
    std::env::set_var("HOME", &home);
}

fn put(path: &Path, text: &str) {
    if let Some(d) = path.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(path, text).unwrap();
}

/// The entry, below a directory of its own, which becomes the working directory.
struct Place {
    name: &'static str,
    dir: PathBuf,
    /// What the name may be mistaken for.
    other: Option<PathBuf>,
    _away: Elsewhere,
}

fn place(ctx: &mut Ctx) -> Result<Option<Place>, String> {
    let (name, other) = *ctx.pick(NAMES);
    let dir = ctx.scratch.join("meaning");
    let Some(away) = Elsewhere::new() else {
        ctx.count("no working directory of its own");
        return Ok(None);
    };
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let dir = dir.canonicalize().unwrap();
    std::env::set_current_dir(&dir).map_err(|e| e.to_string())?;
    let other = if other.starts_with("HOME") { None } else { Some(dir.join(other)) };
    Ok(Some(Place { name, dir, other, _away: away }))
}

impl Place {
    /// The spellings of the name itself.
    fn spelling(&self, ctx: &mut Ctx) -> PathBuf {
        match ctx.choose(3) {
            0 => PathBuf::from(self.name),
            1 => PathBuf::from(format!("./{}", self.name)),
            _ => self.dir.join(self.name),
        }
    }
}

pub fn opened(workspaces: usize) -> Harness {
    Harness::new(
        "names-with-a-meaning",
        format!(
            "{} names that shells, editors, compilers or other systems read in another way ({:?} ...), there or not, with what they may be taken for open, there or missing, in {} workspaces; spelled relatively to the working directory, with a dot segment, absolutely: opened, edited, opened again",
            NAMES.len(),
            &NAMES[..12],
            workspaces
        ),
        move |ctx| {
            let Some(at) = place(ctx)? else { return Ok(()) };
            // 0: there is no other, 1: there is, 2: it is open.
            let other = if at.other.is_some() { ctx.choose(3) } else { 0 };
            let there = ctx.flag() && !at.name.is_empty();
            let inside = ctx.choose(workspaces);
            let file = at.dir.join(at.name);
            if there {
                put(&file, "the file itself");
            }
            if let Some(o) = at.other.as_ref().filter(|_| other > 0) {
                put(o, "another file");
            }
            let home = at.dir.join("ws");
            std::fs::create_dir_all(&home).unwrap();
            if inside == 2 && !at.name.is_empty() && !at.name.starts_with('/') {
                put(&home.join(at.name), "in the workspace");
            }
            let mut w = Workspace::new([&at.dir, &home, &home][inside], None).map_err(|e| e.to_string())?;
            let mut texts: Vec<String> = Vec::new();
            if other == 2 {
                w.open_buffer(at.other.as_ref().unwrap()).map_err(|e| format!("opening {:?} failed: {}", at.other, e))?;
                texts.push("another file".into());
            }
            for k in 0..2 {
                let given = at.spelling(ctx);
                ctx.transition();
                ctx.state(&(at.name, other, there, inside, &given, k));
                let r = w.open_buffer(&given);
                ctx.log(|| format!("open {:?}: {:?}, there {}, other {}", given, r.as_ref().map_err(|e| e.to_string()), there, other));
                let expected = given.canonicalize().ok().filter(|c| c.is_file());
                if expected.is_some() != there {
                    // E.g. the directory itself, or a name with a slash at its end.
                    return Ok(());
                }
                match (&r, there) {
                    (Ok(()), false) => {
                        return Err(format!("{:?} does not exist, but opening it succeeds, with {:?}", given, w.current_buffer.as_ref().map(|b| (&b.path, b.data()))))
                    }
                    (Err(e), true) => return Err(format!("opening {:?} failed: {}", given, e)),
                    (Err(_), false) => {
                        ctx.count("refused");
                        let now = w.current_buffer.as_ref().map(|b| b.data());
                        if w.buffer_paths().len() != texts.len() || now != texts.last().cloned() {
                            return Err(format!("failing to open {:?} left {} buffers and {:?}", given, w.buffer_paths().len(), now));
                        }
                    }
                    (Ok(()), true) => {
                        let want = if k == 0 { "the file itself" } else { "edited the file itself" };
                        if k == 0 {
                            texts.push(want.into());
                        }
                        let count = w.buffer_paths().len();
                        let shown = w.current_buffer_path().map(|p| p.to_path_buf());
                        let meant = match inside {
                            0 => PathBuf::from(at.name),
                            _ => file.clone(),
                        };
                        let b = w.current_buffer.as_mut().ok_or("no current buffer")?;
                        if count != texts.len() || b.data() != want || b.path != expected || shown.as_ref().map(|p| p.as_os_str()) != Some(meant.components().collect::<PathBuf>().as_os_str()) {
                            return Err(format!("opening {:?} gives {} buffers and {:?} with path {:?}, reported as {:?}", given, count, b.data(), b.path, shown));
                        }
                        if k == 0 {
                            b.insert("edited ");
                        }
                    }
                }
            }
            Ok(())
        },
    )
}

pub fn saved() -> Harness {
    Harness::new(
        "names-with-a-meaning",
        format!("{} names that shells, editors, compilers or other systems read in another way ({:?} ...), with what they may be taken for there or missing; spelled relatively, with a dot segment, absolutely: saved, loaded, changed outside and reloaded, and what is in the directory then", NAMES.len(), &NAMES[..12]),
        |ctx| {
            let Some(at) = place(ctx)? else { return Ok(()) };
            let given = at.spelling(ctx);
            let file = at.dir.join(at.name);
            if at.name.is_empty() || at.name.starts_with("..") && at.name.trim() == ".." && at.name.len() == 2 {
                return Ok(());
            }
            if let Some(d) = file.parent() {
                let _ = std::fs::create_dir_all(d);
            }
            let other = ctx.flag();
            if let Some(o) = at.other.as_ref().filter(|_| other) {
                put(o, "another file");
            }
            ctx.state(&(&given, other));
            let list = || {
                let mut v = Vec::new();
                let mut dirs = vec![at.dir.clone(), ctx_home()];
                while let Some(d) = dirs.pop() {
                    for e in std::fs::read_dir(&d).unwrap() {
                        let q = e.unwrap().path();
                        if q.is_dir() {
                            dirs.push(q);
                        } else {
                            let text = std::fs::read_to_string(&q).unwrap_or_default();
                            v.push((q, text));
                        }
                    }
                }
                v.sort();
                v
            };
            let mut want = list();
            let mut b = Buffer::new();
            b.insert("saved here");
            b.path = Some(given.clone());
            b.save().map_err(|e| format!("saving to {:?} failed: {}", given, e))?;
            want.push((file.clone(), "saved here".into()));
            want.sort();
            let got = list();
            ctx.transitions(4);
            if got != want {
                return Err(format!("after saving to {:?} there is {:?}, expected {:?}", given, got, want));
            }
            let l = Buffer::from_file(&given).map_err(|e| format!("loading {:?} failed: {}", given, e))?;
            if l.data() != "saved here" || l.path != given.canonicalize().ok() {
                return Err(format!("loading {:?} gives {:?} with path {:?}", given, l.data(), l.path));
            }
            std::fs::write(&file, "changed outside").unwrap();
            b.reload().map_err(|e| format!("reloading {:?} failed: {}", given, e))?;
            if b.data() != "changed outside" {
                return Err(format!("reloading {:?} gives {:?}", given, b.data()));
            }
            std::fs::remove_file(&file).unwrap();
            if Buffer::from_file(&given).is_ok() || b.reload().is_ok() {
                return Err(format!("{:?} is gone, but can be loaded", given));
            }
            Ok(())
        },
    )
}

fn ctx_home() -> PathBuf {
    PathBuf::from(std::env::var_os("HOME").unwrap())
}

pub fn created() -> Harness {
    Harness::new(
        "names-with-a-meaning",
        format!("directories of {} names that shells, editors or other systems read in another way ({:?} ...), there or not, with what they may be taken for there or missing; spelled relatively, with a dot segment, absolutely; given as the workspace, or as the folder of definitions", NAMES.len(), &NAMES[..12]),
        |ctx| {
            let Some(at) = place(ctx)? else { return Ok(()) };
            let there = ctx.flag() && !at.name.is_empty();
            let other = ctx.flag();
            let definitions = ctx.flag();
            let given = at.spelling(ctx);
            let dir = at.dir.join(at.name);
            let put = |d: &Path, name: &str| {
                std::fs::create_dir_all(d).unwrap();
                std::fs::write(d.join("x.sublime-syntax"), format!("%YAML 1.2\n---\nname: {n}\nscope: source.{n}\nfile_extensions: [{n}]\ncontexts:\n  main:\n    - match: x\n      scope: x.{n}\n", n = name)).unwrap();
            };
            if there {
                put(&dir, "itself");
            }
            if let Some(o) = at.other.as_ref().filter(|_| other) {
                put(o, "another");
            }
            if given.is_dir() != there {
                return Ok(());
            }
            ctx.state(&(&given, there, other, definitions));
            ctx.transition();
            if definitions {
                match Workspace::new(&at.dir, Some(&given)) {
                    Ok(w) if there => {
                        let found = w.syntax_set.find_syntax_by_extension("itself").is_some();
                        let mistaken = w.syntax_set.find_syntax_by_extension("another").is_some();
                        // One may lie within the other.
                        let within = other && at.other.as_ref().map_or(false, |o| o.starts_with(&dir));
                        if !found || mistaken != within {
                            return Err(format!("definitions of {:?}: its own {}, those of {:?} {}", given, found, at.other, mistaken));
                        }
                    }
                    Err(_) if !there => ctx.count("refused"),
                    Ok(_) => return Err(format!("{:?} does not exist, but definitions can be loaded from it", given)),
                    Err(e) => return Err(format!("no workspace with definitions from {:?}: {}", given, e)),
                }
            } else {
                match Workspace::new(&given, None) {
                    Ok(w) if there => {
                        if w.path != dir.canonicalize().unwrap() {
                            return Err(format!("a workspace for {:?} has path {:?}", given, w.path));
                        }
                    }
                    Err(_) if !there => ctx.count("refused"),
                    Ok(w) => return Err(format!("{:?} does not exist, but a workspace for it has path {:?}", given, w.path)),
                    Err(e) => return Err(format!("no workspace for {:?}: {}", given, e)),
                }
            }
            Ok(())
        },
    )
}
