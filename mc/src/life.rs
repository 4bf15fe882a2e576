//! What a buffer or workspace does over its life besides what it is asked for, and what the
//! world around it does meanwhile: files nobody saved to, handles that are never given back,
//! public fields that change, time that passes.

use crate::edits::{placed, s, Placed};
use crate::engine::{Ctx, HResult, Harness};
use crate::faults;
use crate::model::{Layout, Move};
use crate::sys::{first_change, p, rewind, show, CallLog, Focus, Op, Sys};
use crate::ws::Elsewhere;
use scribe::buffer::{Position, Range};
use scribe::{Buffer, Workspace};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::time::{Duration, SystemTime};

// --- Files nobody saved to --------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
struct Entry {
    inode: u64,
    mode: u32,
    owner: (u32, u32),
    links: u64,
    modified: (i64, i64),
    changed: (i64, i64),
    content: Option<Vec<u8>>,
}

type Files = BTreeMap<PathBuf, Entry>;

/// What is below a directory, given what was there before.
fn files(dir: &Path, into: &mut Files, known: &Files) {
    let Ok(list) = fs::read_dir(dir) else { return };
    for e in list.flatten() {
        let path = e.path();
        let Ok(m) = fs::symlink_metadata(&path) else { continue };
        let dir = m.is_dir();
        let mut new = Entry {
            inode: m.ino(),
            mode: m.mode(),
            owner: (m.uid(), m.gid()),
            links: m.nlink(),
            modified: (m.mtime(), m.mtime_nsec()),
            changed: (m.ctime(), m.ctime_nsec()),
            content: None,
        };
        if !dir {
            new.content = match known.get(&path) {
                Some(k) if (k.inode, k.modified, k.changed) == (new.inode, new.modified, new.changed) && k.content.as_ref().map_or(false, |c| c.len() as u64 == m.len()) => k.content.clone(),
                _ => fs::read(&path).ok(),
            };
        }
        into.insert(path.clone(), new);
        if dir {
            files(&path, into, known);
        }
    }
}

fn stamp(path: &Path) {
    let t = SystemTime::now() - Duration::from_secs(86_400);
    if let Ok(f) = fs::File::open(path) {
        let _ = f.set_times(fs::FileTimes::new().set_modified(t));
    }
}

const BYSTANDERS: &[&str] = &[
    "doc~", "doc.bak", "doc.swp", ".doc.swp", "#doc#", ".#doc", "doc.tmp", ".doc.tmp", "doc.orig", "doc.new", "doc.lock", "tmp", "sub/doc", "DOC",
];
const LIFE: &[&str] = &[
    "insert", "insert at length", "delete", "delete a range", "replace", "undo", "redo", "start a group", "end the group", "look", "take the tokens", "reload", "open doc", "open other", "open what is missing",
    "open a directory", "next", "previous", "close", "add one with another's path", "add one without path", "name it anew", "refresh the syntax", "save", "save without path", "another workspace", "drop the workspace",
];

pub fn only_saving_writes(thorough: bool) -> Harness {
    let depth = if thorough { 4 } else { 3 };
    Harness::new(
        "only-saving-writes",
        format!(
            "a workspace with two files open, and {} files of names that editors use next to them or none; {} steps of {:?}, and dropping everything; after each step the names, contents, inodes, permissions, owners and times of all files there, in the working directory, the home directory and that for temporary files",
            BYSTANDERS.len(), depth, LIFE
        ),
        move |ctx| {
            // What others find there stays from one execution to the next, unless something
            // happened to it.
            let crowded = ctx.flag();
            let dir = ctx.scratch.join(if crowded { "crowded-life" } else { "life" });
            if !dir.exists() {
                fs::create_dir_all(dir.join("sub")).unwrap();
                fs::create_dir_all(dir.join("cwd")).unwrap();
                for b in BYSTANDERS.iter().take(if crowded { BYSTANDERS.len() } else { 0 }) {
                    fs::write(dir.join(b), format!("this is {}", b)).unwrap();
                    stamp(&dir.join(b));
                }
            }
            let _ = fs::remove_file(dir.join("fresh"));
            let away = Elsewhere::new();
            if away.is_some() {
                let _ = std::env::set_current_dir(dir.join("cwd"));
            }
            let r = run_life(ctx, &dir, depth);
            drop(away);
            if r.is_err() {
                let _ = fs::remove_dir_all(&dir);
            }
            r
        },
    )
}

fn run_life(ctx: &mut Ctx, dir: &Path, depth: usize) -> HResult {
    fs::write(dir.join("doc"), "one\ntwo\n").unwrap();
    fs::write(dir.join("other"), "other\r\n").unwrap();
    for f in ["doc", "other"] {
        stamp(&dir.join(f));
    }
    let home = std::env::var_os("HOME").map(PathBuf::from).unwrap();
    let temporary = std::env::temp_dir();
    let all = |dir: &Path, known: &Files| {
        let mut f = Files::new();
        files(dir, &mut f, known);
        files(&home, &mut f, known);
        files(&temporary, &mut f, known);
        f
    };
    let mut before = all(dir, &Files::new());
    let mut w = Some(Workspace::new(dir, None).map_err(|e| e.to_string())?);
    for f in ["other", "doc"] {
        w.as_mut().unwrap().open_buffer(&dir.join(f)).map_err(|e| e.to_string())?;
    }
    unchanged(&before, all(dir, &before), None, "opening two files")?;
    for _ in 0..depth {
        let step = LIFE[ctx.choose(LIFE.len())];
        let mut saved: Option<(PathBuf, String)> = None;
        if let Some(w) = w.as_mut() {
            match step {
                "next" => w.next_buffer(),
                "previous" => w.previous_buffer(),
                "close" => w.close_current_buffer(),
                "open doc" => drop(w.open_buffer(&dir.join("doc"))),
                "open other" => drop(w.open_buffer(&dir.join("other"))),
                "open what is missing" => drop(w.open_buffer(&dir.join("missing"))),
                "open a directory" => drop(w.open_buffer(&dir.join("sub"))),
                "add one without path" => w.add_buffer(Buffer::new()),
                "add one with another's path" => {
                    let mut b = Buffer::new();
                    b.path = Some(dir.join("doc"));
                    w.add_buffer(b);
                }
                "refresh the syntax" => drop(w.update_current_syntax()),
                "another workspace" => drop(Workspace::new(&dir.join("sub"), None)),
                "take the tokens" => {
                    if let Ok(t) = w.current_buffer_tokens() {
                        if let Ok(i) = t.iter() {
                            i.for_each(drop);
                        }
                    }
                    let _ = (w.buffer_paths().len(), w.current_buffer_path().is_some());
                }
                _ => (),
            }
            if let Some(b) = w.current_buffer.as_mut() {
                match step {
                    "insert" => b.insert("x"),
                    "insert at length" => b.insert("a long line of text\n".repeat(30)),
                    "delete" => b.delete(),
                    "delete a range" => b.delete_range(Range::new(p(0, 1), p(1, 1))),
                    "replace" => b.replace("something else"),
                    "undo" => b.undo(),
                    "redo" => b.redo(),
                    "start a group" => b.start_operation_group(),
                    "end the group" => b.end_operation_group(),
                    "look" => {
                        let _ = (b.search("x"), b.line_count(), b.read(&Range::new(p(0, 0), p(1, 0))), b.modified(), b.file_name(), b.file_extension(), b.data());
                        b.cursor.move_to_last_line();
                        b.cursor.move_to_end_of_line();
                    }
                    "reload" => drop(b.reload()),
                    "name it anew" => b.path = Some(dir.join("fresh")),
                    "save" => {
                        if b.save().is_ok() {
                            if let Some(path) = &b.path {
                                saved = Some((path.clone(), b.data()));
                            }
                        }
                    }
                    "save without path" => {
                        let path = b.path.take();
                        let _ = b.save();
                        b.path = path;
                    }
                    _ => (),
                }
            }
        }
        if step == "drop the workspace" {
            w = None;
        }
        ctx.transition();
        ctx.state(&(step, w.as_ref().and_then(|w| w.current_buffer.as_ref()).map(|b| (b.data(), b.path.clone()))));
        ctx.log(|| step.to_string());
        let what = saved.as_ref().map(|s| s.0.clone());
        unchanged(&before, all(dir, &before), saved, step)?;
        if let Some(path) = what {
            ctx.count("saved");
            stamp(&path);
            before = all(dir, &before);
        }
    }
    drop(w);
    unchanged(&before, all(dir, &before), None, "dropping everything")
}

/// Nothing but the saved file has changed.
fn unchanged(before: &Files, mut now: Files, saved: Option<(PathBuf, String)>, step: &str) -> HResult {
    let mut was = before.clone();
    if let Some((path, text)) = saved {
        // What saving makes of its own file is decided elsewhere, up to its content.
        match now.remove(&path) {
            Some(e) if e.content.as_deref() == Some(text.as_bytes()) => (),
            e => return Err(format!("after saving {:?} its file is {:?}", text, e)),
        }
        // A name of its own, which makes its directory newer.
        if was.remove(&path).is_none() {
            was.remove(path.parent().unwrap());
            now.remove(path.parent().unwrap());
        }
    }
    for (path, e) in &was {
        match now.get(path) {
            None => return Err(format!("{}: {} is gone", step, path.display())),
            // What is in a directory counts for itself.
            Some(n) if n.content.is_none() => (),
            Some(n) if n != e => return Err(format!("{}: {} was {:?} and is {:?}", step, path.display(), brief(e), brief(n))),
            _ => (),
        }
    }
    for path in now.keys() {
        if !was.contains_key(path) {
            return Err(format!("{}: {} has come into being", step, path.display()));
        }
    }
    Ok(())
}

fn brief(e: &Entry) -> Entry {
    let mut e = e.clone();
    if let Some(c) = &mut e.content {
        c.truncate(60);
    }
    e
}

// --- Handles ----------------------------------------------------------------------------

/// No process may have more files open than this, besides those it starts with.
pub const HANDLES: u64 = 130;

/// More often than files can be open at a time.
const OFTEN: usize = 160;

const KINDS: &[&str] = &[
    "saving", "saving into a missing directory", "saving to a directory", "saving without path", "reloading", "reloading what is missing", "reloading what is no text", "reloading a directory", "loading", "loading what is missing",
    "loading what is no text", "loading a directory", "opening what is open", "opening what is missing", "opening what is no text", "opening and closing",
];
const CREATIONS: &[&str] = &[
    "creating a workspace", "creating one with definitions", "creating one with broken definitions",
    "creating one where nothing is",
];

pub fn over_and_over(creating: bool) -> Harness {
    let kinds = if creating { CREATIONS } else { KINDS };
    Harness::new(
        "over-and-over",
        format!("each of {:?}, {} times, where {} files can be open at once; then loading, editing, saving, reloading and opening once each", kinds, OFTEN, HANDLES),
        move |ctx| {
            let kind = kinds[ctx.choose(kinds.len())];
            let dir = ctx.scratch.join("often");
            let _ = fs::remove_dir_all(&dir);
            for d in ["sub", "defs", "broken"] {
                fs::create_dir_all(dir.join(d)).unwrap();
            }
            fs::write(dir.join("doc"), "doc\n").unwrap();
            fs::write(dir.join("bad"), b"\xff\xfe\xfd").unwrap();
            fs::write(dir.join("defs/a.sublime-syntax"), "%YAML 1.2\n---\nname: A\nscope: source.a\ncontexts:\n  main:\n    - match: x\n").unwrap();
            fs::write(dir.join("broken/a.sublime-syntax"), "%YAML 1.2\n---\nname: [").unwrap();
            let mut b = Buffer::from_file(&dir.join("doc")).map_err(|e| e.to_string())?;
            let mut w = Workspace::new(&dir, None).map_err(|e| e.to_string())?;
            if kind.starts_with("opening") {
                w.open_buffer(&dir.join("doc")).map_err(|e| e.to_string())?;
            }
            let times = OFTEN;
            for i in 0..times {
                let at = |name: &str| Some(dir.join(name));
                let failed = match kind {
                    "saving" => {
                        b.insert("x");
                        b.save().err().map(|e| e.to_string())
                    }
                    "reloading" => {
                        fs::write(dir.join("doc"), format!("{}", i)).unwrap();
                        b.reload().err().map(|e| e.to_string())
                    }
                    "loading" => Buffer::from_file(&dir.join("doc")).err().map(|e| e.to_string()),
                    "opening what is open" => w.open_buffer(&dir.join("doc")).err().map(|e| e.to_string()),
                    "opening and closing" => {
                        w.close_current_buffer();
                        w.open_buffer(&dir.join("doc")).err().map(|e| e.to_string())
                    }
                    "creating a workspace" => Workspace::new(&dir, None).err().map(|e| e.to_string()),
                    "creating one with definitions" => Workspace::new(&dir, at("defs").as_deref()).err().map(|e| e.to_string()),
                    other => {
                        let given = b.path.take();
                        let r = match other {
                            "saving into a missing directory" => {
                                b.path = at("none/doc");
                                b.save().is_err()
                            }
                            "saving to a directory" => {
                                b.path = at("sub");
                                b.save().is_err()
                            }
                            "saving without path" => b.save().is_err(),
                            "reloading what is missing" => {
                                b.path = at("missing");
                                b.reload().is_err()
                            }
                            "reloading what is no text" => {
                                b.path = at("bad");
                                b.reload().is_err()
                            }
                            "reloading a directory" => {
                                b.path = at("sub");
                                b.reload().is_err()
                            }
                            "loading what is missing" => Buffer::from_file(&dir.join("missing")).is_err(),
                            "loading what is no text" => Buffer::from_file(&dir.join("bad")).is_err(),
                            "loading a directory" => Buffer::from_file(&dir.join("sub")).is_err(),
                            "opening what is missing" => w.open_buffer(&dir.join("missing")).is_err(),
                            "opening what is no text" => w.open_buffer(&dir.join("bad")).is_err(),
                            "creating one with broken definitions" => Workspace::new(&dir, at("broken").as_deref()).is_err(),
                            _ => Workspace::new(&dir.join("missing"), None).is_err(),
                        };
                        b.path = given;
                        if r {
                            None
                        } else {
                            Some("success is reported".to_string())
                        }
                    }
                };
                ctx.transition();
                if let Some(e) = failed {
                    return Err(format!("{}, time {}: {}", kind, i + 1, e));
                }
            }
            ctx.state(&kind);
            let what = |e: String| format!("after {} {} times: {}", kind, times, e);
            b.insert("last");
            b.save().map_err(|e| what(format!("saving: {}", e)))?;
            let again = Buffer::from_file(&dir.join("doc")).map_err(|e| what(format!("loading: {}", e)))?;
            b.reload().map_err(|e| what(format!("reloading: {}", e)))?;
            w.open_buffer(&dir.join("doc")).map_err(|e| what(format!("opening: {}", e)))?;
            if again.data() != b.data() {
                return ctx.foreign();
            }
            let _ = fs::remove_dir_all(&dir);
            Ok(())
        },
    )
}

pub fn more_than_handles() -> Harness {
    Harness::new(
        "more-buffers-than-open-files",
        format!("{} files opened in one workspace, where {} files can be open at once; by path, or loaded and added; then each opened again, the last edited and saved, and all closed", OFTEN, HANDLES),
        move |ctx| {
            let loaded = ctx.flag();
            let dir = ctx.scratch.join("many");
            let _ = fs::remove_dir_all(&dir);
            fs::create_dir_all(&dir).unwrap();
            let mut w = Workspace::new(&dir, None).map_err(|e| e.to_string())?;
            let path = |i: usize| dir.join(i.to_string());
            for i in 0..OFTEN {
                fs::write(path(i), format!("content {}", i)).unwrap();
            }
            for i in 0..OFTEN {
                if loaded {
                    let b = Buffer::from_file(&path(i)).map_err(|e| format!("loading file {}: {}", i, e))?;
                    w.add_buffer(b);
                } else {
                    w.open_buffer(&path(i)).map_err(|e| format!("opening file {}: {}", i, e))?;
                }
            }
            for i in (0..OFTEN).step_by(7).chain([OFTEN - 1]) {
                w.open_buffer(&path(i)).map_err(|e| format!("opening file {} again: {}", i, e))?;
                let got = w.current_buffer.as_ref().map(|b| b.data()).unwrap_or_default();
                if got != format!("content {}", i) {
                    return Err(format!("opening file {} again, of {}, selects a buffer holding {:?}", i, OFTEN, got));
                }
                ctx.transition();
            }
            if w.buffer_paths().len() != OFTEN {
                return Err(format!("there are {} buffers for {} files", w.buffer_paths().len(), OFTEN));
            }
            let b = w.current_buffer.as_mut().unwrap();
            b.insert("x");
            b.save().map_err(|e| format!("saving with {} buffers open: {}", OFTEN, e))?;
            ctx.state(&loaded);
            for _ in 0..OFTEN {
                w.close_current_buffer();
            }
            if w.current_buffer.is_some() {
                return ctx.foreign();
            }
            let _ = fs::remove_dir_all(&dir);
            Ok(())
        },
    )
}

// --- Public fields ----------------------------------------------------------------------

/// Relative to `dir`, part by part.
fn within(path: &Path, dir: &Path) -> PathBuf {
    let (p, d): (Vec<_>, Vec<_>) = (path.components().collect(), dir.components().collect());
    if p.len() >= d.len() && p[..d.len()] == d[..] {
        p[d.len()..].iter().collect()
    } else {
        path.to_path_buf()
    }
}

pub fn moved_workspace(thorough: bool) -> Harness {
    let depth = if thorough { 5 } else { 4 };
    Harness::new(
        "workspace-elsewhere",
        format!("{} steps of: giving the workspace each of 6 directories (below, above, beside, one that does not exist), adding a buffer with one of 8 paths or opening one of 3 files, giving the current buffer another path, next, close; after each, the paths reported", depth),
        move |ctx| {
            let root = ctx.scratch.join("roots");
            for f in ["a/f", "a/b/f", "ab/f"] {
                fs::create_dir_all(root.join(f).parent().unwrap()).unwrap();
                fs::write(root.join(f), "x").unwrap();
            }
            let dirs = ["a", "a/b", "ab", "", "none", "a/b/c"];
            let paths = ["a/f", "a/b/f", "ab/f", "f", "a", "a/b/c/d/f", "none/f", "a/bf"];
            let mut w = Workspace::new(&root.join("a"), None).map_err(|e| e.to_string())?;
            let mut list: Vec<Option<PathBuf>> = Vec::new();
            let mut cur = 0;
            for _ in 0..depth {
                let c = ctx.choose(dirs.len() + 2 * paths.len() + 3 + 3);
                let step = if c < dirs.len() {
                    w.path = root.join(dirs[c]).components().collect();
                    format!("the workspace is given {:?}", dirs[c])
                } else if c < dirs.len() + paths.len() {
                    let path = root.join(paths[c - dirs.len()]);
                    let mut b = Buffer::new();
                    b.path = Some(path.clone());
                    w.add_buffer(b);
                    cur = if list.is_empty() { 0 } else { cur + 1 };
                    list.insert(cur, Some(path));
                    "added".to_string()
                } else if c < dirs.len() + 2 * paths.len() {
                    let path = root.join(paths[c - dirs.len() - paths.len()]);
                    let Some(b) = w.current_buffer.as_mut() else { return Ok(()) };
                    b.path = Some(path.clone());
                    list[cur] = Some(path);
                    "given another path".to_string()
                } else {
                    let c = c - dirs.len() - 2 * paths.len();
                    match c {
                        0..=2 => {
                            let path = root.join(["a/f", "a/b/f", "ab/f"][c]);
                            w.open_buffer(&path).map_err(|e| e.to_string())?;
                            match list.iter().enumerate().find(|(i, q)| *i == cur && q.as_ref() == Some(&path)).or(list.iter().enumerate().find(|q| q.1.as_ref() == Some(&path))) {
                                Some((i, _)) => cur = i,
                                None => {
                                    cur = if list.is_empty() { 0 } else { cur + 1 };
                                    list.insert(cur, Some(path));
                                }
                            }
                            "opened".to_string()
                        }
                        3 => {
                            w.next_buffer();
                            if !list.is_empty() {
                                cur = (cur + 1) % list.len();
                            }
                            "next".to_string()
                        }
                        4 => {
                            w.close_current_buffer();
                            if !list.is_empty() {
                                list.remove(cur);
                                cur = cur.saturating_sub(1);
                            }
                            "closed".to_string()
                        }
                        _ => {
                            w.add_buffer(Buffer::new());
                            cur = if list.is_empty() { 0 } else { cur + 1 };
                            list.insert(cur, None);
                            "added without path".to_string()
                        }
                    }
                };
                ctx.transition();
                ctx.state(&(&w.path, &list, cur));
                let at = w.path.clone();
                let want: Vec<Option<PathBuf>> = list.iter().map(|q| q.as_ref().map(|q| within(q, &at))).collect();
                let got: Vec<Option<PathBuf>> = w.buffer_paths().into_iter().map(|q| q.map(Path::to_path_buf)).collect();
                ctx.log(|| format!("{} (at {:?}): {:?}", step, at, got));
                if got != want {
                    return Err(format!("{}, workspace at {:?}: the buffers' paths are reported as {:?}, expected {:?}", step, at, got, want));
                }
                let got = w.current_buffer_path().map(Path::to_path_buf);
                let want = want.get(cur).cloned().flatten();
                if got != want {
                    return Err(format!("{}, workspace at {:?}: the current path is reported as {:?}, expected {:?}", step, at, got, want));
                }
            }
            Ok(())
        },
    )
}

// --- Listeners --------------------------------------------------------------------------

pub fn listeners(thorough: bool) -> Harness {
    let depth = if thorough { 6 } else { 5 };
    Harness::new(
        "listeners-come-and-go",
        format!("{} steps of: a listener set, or replaced, or removed; insert at start or end, delete at start, replace, undo, redo, start and end of a group; what the listener of the time is told, and that no former one is told anything", depth),
        move |ctx| {
            let mut sys = Sys::fresh("ab\ncd", Focus::Nothing);
            let mut former: Vec<Rc<RefCell<CallLog>>> = Vec::new();
            for _ in 0..depth {
                let op = match ctx.choose(10) {
                    0 => {
                        former.extend(sys.log.take());
                        sys = sys.with_callback();
                        continue;
                    }
                    1 => {
                        if let Some(l) = sys.log.take() {
                            former.push(l);
                        } else {
                            // Nothing to remove.
                            return Ok(());
                        }
                        sys.real.change_callback = None;
                        continue;
                    }
                    2 => Placed::At(p(0, 0), Op::Insert("x\n".into())),
                    3 => Placed::At(Layout::of(&sys.m.text).end(), Op::Insert("y".into())),
                    4 => Placed::At(p(0, 0), Op::Delete),
                    5 => Placed::Just(Op::Replace("ab\nr".into())),
                    6 => Placed::Just(Op::Undo),
                    7 => Placed::Just(Op::Redo),
                    8 => Placed::Just(Op::Start),
                    _ => Placed::Just(Op::End),
                };
                for l in &former {
                    l.borrow_mut().calls.clear();
                }
                let before = sys.real.data();
                if !placed(ctx, &mut sys, op)? {
                    return ctx.foreign();
                }
                let after = sys.real.data();
                for l in &former {
                    if !l.borrow().calls.is_empty() {
                        return Err(format!("changing {:?} to {:?} is announced to a listener that has been removed", before, after));
                    }
                }
                if let (Some(l), true) = (&sys.log, before != after) {
                    let l = l.borrow();
                    let first = first_change(&before, &after);
                    match l.calls.iter().map(|c| (c.0.line, c.0.offset)).min() {
                        Some(low) if low <= first => ctx.count("changes announced"),
                        low => return Err(format!("changing {:?} to {:?} from {:?} on: the lowest position reported to the listener is {:?}", before, after, first, low)),
                    }
                }
            }
            Ok(())
        },
    )
}

// --- Time -------------------------------------------------------------------------------

/// What passes, in milliseconds.
const JUMPS: &[(&str, i64)] = &[
    ("0.6 s", 600),
    ("3 s", 3_000),
    ("61 s", 61_000),
    ("31 min", 1_860_000),
    ("25 h", 90_000_000),
    ("400 days", 34_560_000_000),
    ("-2 h (the clock is set back)", -7_200_000),
];

pub fn time_passes(focus: Focus, thorough: bool) -> Harness {
    let depth = if thorough { 5 } else { 4 };
    let own = match focus {
        Focus::CursorMoves | Focus::CursorBounds => "up, down, right, end of line, last line, insert",
        Focus::Modified => "insert, delete, undo, redo, save, reload, another program writing the file",
        _ => "insert at start or end, delete, replace, undo, redo, start and end of a group",
    };
    Harness::new(
        "time-passes",
        format!("{} steps of: {}; with one of {:?} passing before each of them, or before one", depth, own, JUMPS.iter().map(|j| j.0).collect::<Vec<_>>()),
        move |ctx| {
            let (name, jump) = *ctx.pick(JUMPS);
            let when = ctx.choose(depth + 1);
            let _clock = faults::Clock::new();
            let text = "abcd\ne\nfghi";
            let mut sys = match focus {
                Focus::Modified => Sys::from_file(ctx.scratch, text, focus),
                _ => Sys::fresh(text, focus),
            };
            if focus == Focus::Callback {
                sys = sys.with_callback();
            }
            for i in 0..depth {
                if when == 0 || when == i + 1 {
                    faults::Clock::pass(jump);
                    ctx.log(|| format!("({} pass)", name));
                }
                let l = Layout::of(&sys.m.text);
                let op = match focus {
                    Focus::CursorMoves | Focus::CursorBounds => match ctx.choose(6) {
                        0 => Placed::Just(Op::Move(Move::Down)),
                        1 => Placed::Just(Op::Move(Move::Up)),
                        2 => Placed::Just(Op::Move(Move::Right)),
                        3 => Placed::Just(Op::Move(Move::End)),
                        4 => Placed::Just(Op::Move(Move::LastLine)),
                        _ => Placed::Just(Op::Insert("z".into())),
                    },
                    Focus::Modified => match ctx.choose(7) {
                        0 => Placed::At(p(0, 0), Op::Insert("z".into())),
                        1 => Placed::At(p(0, 1), Op::Delete),
                        2 => Placed::Just(Op::Undo),
                        3 => Placed::Just(Op::Redo),
                        4 => Placed::Just(Op::Save),
                        5 => Placed::Just(Op::Reload),
                        _ => Placed::Just(Op::External(format!("{}\nmore", sys.disk))),
                    },
                    _ => match ctx.choose(8) {
                        0 => Placed::At(p(0, 0), Op::Insert("x".into())),
                        1 => Placed::At(l.end(), Op::Insert("y".into())),
                        2 => Placed::At(p(0, 0), Op::Delete),
                        3 => Placed::Just(Op::Replace("ab\nr".into())),
                        4 => Placed::Just(Op::Undo),
                        5 => Placed::Just(Op::Redo),
                        6 => Placed::Just(Op::Start),
                        _ => Placed::Just(Op::End),
                    },
                };
                if !placed(ctx, &mut sys, op)? {
                    return ctx.foreign();
                }
            }
            if focus == Focus::Text {
                if when == 0 {
                    faults::Clock::pass(jump);
                }
                rewind(ctx, &mut sys, name)?;
            }
            Ok(())
        },
    )
}

// --- Ways to consume --------------------------------------------------------------------

const WAYS: usize = 15;

/// Every way to consume an iterator yields what asking for one item after the other does.
pub fn consumed<I>(ctx: &mut Ctx, what: &dyn Fn() -> String, make: &dyn Fn() -> I) -> HResult
where
    I: Iterator,
    I::Item: PartialEq + std::fmt::Debug,
{
    let mut full = Vec::new();
    let mut it = make();
    while let Some(x) = it.next() {
        full.push(x);
        if full.len() > 10_000 {
            return ctx.foreign();
        }
    }
    drop(it);
    let n = full.len();
    let way = ctx.choose(WAYS);
    let k = if matches!(way, 3 | 4 | 5 | 6 | 9 | 10 | 11 | 14) { ctx.choose(n + 2) } else { 0 };
    ctx.transition();
    let wrong = |how: String, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug| -> HResult { Err(format!("{}, {}: {:?}, expected {:?}", what(), how, got, want)) };
    let same = |how: String, got: &[I::Item], want: &[&I::Item]| -> HResult {
        if got.len() != want.len() || got.iter().zip(want).any(|(g, w)| g != *w) {
            return wrong(how, &got, &want);
        }
        Ok(())
    };
    let from = |k: usize| full[k.min(n)..].iter().collect::<Vec<_>>();
    match way {
        0 => match make().count() {
            c if c != n => wrong("count()".into(), &c, &n),
            _ => Ok(()),
        },
        1 => {
            let l = make().last();
            if l.as_ref() != full.last() {
                return wrong("last()".into(), &l, &full.last());
            }
            Ok(())
        }
        2 => {
            let mut it = make();
            for left in (0..=n).rev() {
                let (low, high) = it.size_hint();
                if low > left || high.map_or(false, |h| h < left) {
                    return wrong(format!("size_hint() with {} items left", left), &(low, high), &left);
                }
                it.next();
            }
            Ok(())
        }
        3 => {
            let mut it = make();
            let x = it.nth(k);
            if x.as_ref() != full.get(k) {
                return wrong(format!("nth({})", k), &x, &full.get(k));
            }
            same(format!("what follows nth({})", k), &it.collect::<Vec<_>>(), &from(k + 1))
        }
        4 => same(format!("skip({})", k), &make().skip(k).collect::<Vec<_>>(), &from(k)),
        5 => same(format!("step_by({})", k + 1), &make().step_by(k + 1).collect::<Vec<_>>(), &full.iter().step_by(k + 1).collect::<Vec<_>>()),
        6 => {
            let mut it = make();
            let head: Vec<_> = it.by_ref().take(k).collect();
            same(format!("take({})", k), &head, &full.iter().take(k).collect::<Vec<_>>())?;
            same(format!("what follows take({})", k), &it.collect::<Vec<_>>(), &from(k))
        }
        7 => same(
            "fold()".into(),
            &make().fold(Vec::new(), |mut v, x| {
                v.push(x);
                v
            }),
            &from(0),
        ),
        8 => {
            let mut v = Vec::new();
            make().for_each(|x| v.push(x));
            same("for_each()".into(), &v, &from(0))
        }
        9 => {
            let mut it = make();
            let mut i = 0;
            let x = it.find(|_| {
                i += 1;
                i > k
            });
            if x.as_ref() != full.get(k) {
                return wrong(format!("find() of item {}", k), &x, &full.get(k));
            }
            same(format!("what follows find() of item {}", k), &it.collect::<Vec<_>>(), &from(k + 1))
        }
        10 => {
            let mut it = make();
            let mut i = 0;
            let any = it.any(|_| {
                i += 1;
                i > k
            });
            if any != (k < n) {
                return wrong(format!("any() of item {}", k), &any, &(k < n));
            }
            same(format!("what follows any() of item {}", k), &it.collect::<Vec<_>>(), &from(k + 1))
        }
        11 => {
            // One behind the other.
            let (mut a, mut b) = (make(), make());
            for i in 0..k.min(n) {
                let x = a.next();
                if x.as_ref() != full.get(i) {
                    return wrong(format!("item {} of the first of two", i), &x, &full.get(i));
                }
            }
            let mut c = make();
            for i in 0..n + 1 {
                let got = (a.next(), b.next(), c.next());
                let want = (full.get(k.min(n) + i), full.get(i), full.get(i));
                if (got.0.as_ref(), got.1.as_ref(), got.2.as_ref()) != want {
                    return wrong(format!("three side by side, the first {} ahead, round {}", k, i), &got, &want);
                }
            }
            Ok(())
        }
        12 => {
            let mut it = make().peekable();
            let mut v = Vec::new();
            while it.peek().is_some() {
                v.extend(it.next());
            }
            same("peekable()".into(), &v, &from(0))
        }
        13 => {
            // Repeatedly over the next.
            let mut it = make();
            let mut i = 1;
            loop {
                let x = it.nth(1);
                if x.as_ref() != full.get(i) {
                    return wrong(format!("nth(1) for item {}", i), &x, &full.get(i));
                }
                if x.is_none() {
                    break;
                }
                i += 2;
            }
            for _ in 0..3 {
                if let Some(x) = it.nth(0) {
                    return wrong("after the end".into(), &x, &"nothing");
                }
            }
            Ok(())
        }
        _ => {
            let mut it = make();
            it.nth(k);
            match it.count() {
                c if c != n.saturating_sub(k + 1) => wrong(format!("count() after nth({})", k), &c, &n.saturating_sub(k + 1)),
                _ => Ok(()),
            }
        }
    }
}

pub fn lines_consumed(thorough: bool) -> Harness {
    let len = if thorough { 7 } else { 5 };
    let atoms = s(&["a", "\n", "\r\n", "\u{e9}"]);
    Harness::new(
        "consumed-otherwise",
        format!("line iteration over every text of 0..={} of {:?}: counted, asked for the last, the n-th or those after n, every n-th, some and then the rest, folded, searched, peeked at, hinted at, several side by side; each for every n", len, atoms),
        move |ctx| {
            let n = ctx.choose(len + 1);
            let text: String = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
            ctx.state(&text);
            consumed(ctx, &|| format!("lines of {:?}", text), &|| scribe::util::LineIterator::new(&text))
        },
    )
}

// --- Search terms of any length ---------------------------------------------------------

fn occurrences(text: &[u8], needle: &[u8]) -> Vec<usize> {
    // Knuth, Morris and Pratt.
    let mut fail = vec![0usize; needle.len() + 1];
    let mut k = 0;
    for i in 1..needle.len() {
        while k > 0 && needle[k] != needle[i] {
            k = fail[k];
        }
        if needle[k] == needle[i] {
            k += 1;
        }
        fail[i + 1] = k;
    }
    let mut found = Vec::new();
    k = 0;
    for (i, b) in text.iter().enumerate() {
        while k > 0 && (k == needle.len() || needle[k] != *b) {
            k = fail[k];
        }
        if k < needle.len() && needle[k] == *b {
            k += 1;
        }
        if k == needle.len() {
            found.push(i + 1 - k);
        }
    }
    found
}

pub fn long_terms(thorough: bool) -> Harness {
    let mut sizes: Vec<usize> = (1..=40).collect();
    for k in 6..=if thorough { 14 } else { 12 } {
        sizes.extend([(1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 2]);
    }
    sizes.extend([100, 300, 1000]);
    sizes.extend([65_535, 65_536, 65_537]);
    sizes.sort();
    Harness::new(
        "long-terms",
        format!("terms of {} lengths up to 65537 bytes (up to {} where they consist of one character or two in turn), of 8 kinds, alone in the text, after 1 to 3, the length less one, or the length of other characters, twice in a row, overlapping itself, with one byte missing or different at the start, in the middle or the end, in several lines", sizes.len(), if thorough { 16_386 } else { 4098 }),
        move |ctx| {
            let n = *ctx.pick(&sizes);
            let kind = ctx.choose(8);
            if kind < 2 && n > 20_000 {
                return Ok(());
            }
            let needle: String = match kind {
                0 => "a".repeat(n),
                1 => "ab".chars().cycle().take(n).collect(),
                2 => format!("{}b", "a".repeat(n - 1)),
                3 => format!("b{}", "a".repeat(n - 1)),
                4 if n > 2 => format!("{}bc", "a".repeat(n - 2)),
                5 => (0..n).map(|i| (b'a' + ((i * i + i / 7) % 26) as u8) as char).collect(),
                6 if n % 2 == 0 => "\u{e9}".repeat(n / 2 - 1) + "\u{f6}",
                7 if n > 4 => format!("{}c{}", "a".repeat(n / 2), "a".repeat(n - 1 - n / 2)),
                _ => return Ok(()),
            };
            let replaced = |at: usize| {
                let mut v: Vec<char> = needle.chars().collect();
                let at = at.min(v.len() - 1);
                v[at] = 'x';
                v.into_iter().collect::<String>()
            };
            let chars = needle.chars().count();
            let text = match ctx.choose(14) {
                0 => needle.clone(),
                c @ 1..=3 => format!("{}{}", "xyz"[..c].to_string(), needle),
                4 => format!("{}{}y", "x".repeat(n - 1), needle),
                5 => format!("{}{}", "a".repeat(n), needle),
                6 => format!("{}{}", needle, needle),
                7 => format!("{}{}", needle, needle.chars().skip(chars / 2).collect::<String>()),
                8 => needle.chars().skip(1).collect(),
                9 => needle.chars().take(chars - 1).collect(),
                10 => format!("{}{}", replaced(0), replaced(chars)),
                11 => format!("{}{}", replaced(chars / 2), needle),
                12 => format!("{}\nx{}\r\n{}z", replaced(chars), needle, needle),
                _ => format!("{}\n{}", needle.chars().take(chars - 1).collect::<String>(), needle),
            };
            let mut b = Buffer::new();
            b.insert(text.as_str());
            let got = b.search(&needle);
            ctx.transition();
            ctx.state(&(n, kind, text.len()));
            let mut want: Vec<Position> = Vec::new();
            for (i, line) in text.split('\n').enumerate() {
                let line = line.strip_suffix('\r').unwrap_or(line);
                let mut at = 0;
                let mut offset = 0;
                for o in occurrences(line.as_bytes(), needle.as_bytes()) {
                    offset += line[at..o].chars().count();
                    at = o;
                    want.push(p(i, offset));
                }
            }
            ctx.count(if want.is_empty() { "terms that do not occur" } else { "terms that occur" });
            if got != want {
                let f = |v: &[Position]| format!("{} positions, first {:?}", v.len(), v.first().map(show));
                return Err(format!("a term of {} bytes (kind {}) in a text of {} bytes: {}, expected {}", n, kind, text.len(), f(&got), f(&want)));
            }
            Ok(())
        },
    )
}

// --- Several files ----------------------------------------------------------------------

/// What reload loads is what the path at that time names.
pub fn reloaded_from(thorough: bool) -> Harness {
    let depth = if thorough { 6 } else { 5 };
    Harness::new(
        "reload-from-another-path",
        format!("a buffer loaded from the first of two files or new; {} steps of: giving it the path of either file, of a link to the second, of a file that is missing, or none; inserting, undo, redo, save, reload, another program rewriting, removing or replacing the file; all undone at the end", depth),
        move |ctx| {
            let dir = ctx.scratch.join("from");
            let _ = fs::create_dir(&dir);
            let paths: Vec<PathBuf> = ["doc", "second", "link", "missing"].iter().map(|n| dir.join(n)).collect();
            let _ = fs::remove_file(&paths[3]);
            fs::write(&paths[0], "one\ntwo").unwrap();
            fs::write(&paths[1], "second\u{e9}\n").unwrap();
            if fs::symlink_metadata(&paths[2]).is_err() {
                std::os::unix::fs::symlink("second", &paths[2]).unwrap();
            }
            // The third path names the second file.
            let mut disk = vec![Some("one\ntwo".to_string()), Some("second\u{e9}\n".to_string()), None];
            let file = |path: usize| [0, 1, 1, 2][path];
            let mut at = None;
            let mut sys = if ctx.flag() {
                Sys::fresh("", Focus::Replace)
            } else {
                at = Some(0);
                Sys::from_file_as_it_is(&dir, "one\ntwo", Focus::Replace)
            };
            sys.real.id = Some(9);
            if at.is_some() && !sys.apply(ctx, &Op::MoveTo(p(1, 2)))? {
                return ctx.foreign();
            }
            for step in 0..depth {
                let c = ctx.choose(13);
                let op = match c {
                    0..=4 => {
                        at = if c == 4 { None } else { Some(c) };
                        sys.real.path = at.map(|i| paths[i].clone());
                        sys.path = sys.real.path.clone();
                        sys.m.has_path = at.is_some();
                        ctx.log(|| format!("path {:?}", sys.real.path));
                        continue;
                    }
                    5 => Op::Insert("i".into()),
                    6 => Op::Undo,
                    7 => Op::Redo,
                    8 => {
                        let Some(i) = at else { continue };
                        if !sys.apply(ctx, &Op::Save)? {
                            return ctx.foreign();
                        }
                        disk[file(i)] = Some(sys.m.text.clone());
                        continue;
                    }
                    9 => match at.map(|i| disk[file(i)].clone()) {
                        Some(Some(d)) => {
                            sys.disk = d;
                            sys.no_file = false;
                            Op::Reload
                        }
                        missing => {
                            let text = sys.real.data();
                            let r = sys.real.reload();
                            if r.is_ok() || sys.real.data() != text {
                                return Err(format!("reload {} gave {:?} and changed the text from {:?} to {:?}", if missing.is_some() { "of a missing file" } else { "without path" }, r.map_err(|e| e.to_string()), text, sys.real.data()));
                            }
                            continue;
                        }
                    },
                    10 | 11 => {
                        let Some(i) = at else { continue };
                        let new = format!("outside {}\n\u{e9}", step);
                        if c == 11 {
                            // Another file in its place.
                            fs::write(dir.join("new"), &new).unwrap();
                            fs::rename(dir.join("new"), &paths[if i == 2 { 1 } else { i }]).unwrap();
                        } else {
                            fs::write(&paths[i], &new).unwrap();
                        }
                        disk[file(i)] = Some(new);
                        continue;
                    }
                    _ => {
                        let Some(i) = at else { continue };
                        let _ = fs::remove_file(paths[if i == 2 { 1 } else { i }].clone());
                        disk[file(i)] = None;
                        continue;
                    }
                };
                if !sys.apply(ctx, &op)? {
                    return ctx.foreign();
                }
                if c == 9 && (ctx.fresh() || ctx.tracing()) {
                    if sys.real.modified() {
                        return Err(format!("modified right after a reload of {:?}", sys.real.path));
                    }
                    if sys.real.path != sys.path || sys.real.id != Some(9) {
                        return Err(format!("after a reload the path is {:?}, given {:?}, and the id {:?}", sys.real.path, sys.path, sys.real.id));
                    }
                }
            }
            for _ in 0..sys.m.undo.len() + 1 {
                if !sys.apply(ctx, &Op::Undo)? {
                    return ctx.foreign();
                }
            }
            Ok(())
        },
    )
}

// --- Tokens in step ---------------------------------------------------------------------

const TURNS: &[&str] = &[
    "write one letter over another", "exchange two lines", "insert at the cursor", "delete a line", "replace by as much", "undo", "redo", "save", "as much from outside, reloaded", "next", "another definition", "the first definition", "another path",
    "start a group", "end the group", "look at the tokens", "move the cursor",
];

/// The tokens of the current buffer are those of its text as of now, whatever else about the
/// buffer and its text is as it was.
pub fn tokens_in_step(thorough: bool) -> Harness {
    let depth = if thorough { 5 } else { 4 };
    let turns: Vec<usize> = if thorough { (0..13).filter(|i| *i != 6).collect() } else { (0..TURNS.len()).collect() };
    Harness::new(
        "tokens-in-step",
        format!("two buffers, one of a file and one without; {} steps out of {:?}; the tokens of the current one after each step, or only at the end", depth, turns.iter().map(|i| TURNS[*i]).collect::<Vec<_>>()),
        move |ctx| {
            let dir = ctx.scratch.join("turns");
            let _ = fs::create_dir(&dir);
            fs::write(dir.join("f.cut3"), "fn a\n\"b\n").unwrap();
            let defs = crate::text::cutting();
            let mut w = Workspace::new(&dir, None).map_err(|e| e.to_string())?;
            w.syntax_set = defs.clone();
            let mut other = Buffer::new();
            other.insert("fn c\n\"d\n");
            w.add_buffer(other);
            w.open_buffer(&dir.join("f.cut3")).map_err(|e| e.to_string())?;
            let always = ctx.flag();
            for step in 0..depth {
                let c = *ctx.pick(&turns);
                let Some(b) = w.current_buffer.as_mut() else { return ctx.foreign() };
                let text = b.data();
                let letter = char::from(b'k' + step as u8);
                match c {
                    0 => {
                        b.cursor.move_to(p(0, 3));
                        b.delete();
                        b.insert(letter);
                    }
                    1 => {
                        let at = text.find('\n').map_or(0, |i| i + 1);
                        b.replace(format!("{}{}", &text[at..], &text[..at]));
                    }
                    2 => b.insert("'"),
                    3 => b.delete_range(Range::new(p(0, 0), p(1, 0))),
                    4 => b.replace(text.chars().map(|c| if c == '\n' { c } else if c == '"' { letter } else { '"' }).collect::<String>()),
                    5 => b.undo(),
                    6 => b.redo(),
                    7 => {
                        let _ = b.save();
                    }
                    8 => {
                        let Some(path) = b.path.clone() else { continue };
                        let on_disk = fs::read_to_string(&path).unwrap_or(text);
                        fs::write(&path, on_disk.replace(|c: char| c.is_alphanumeric(), &letter.to_string())).unwrap();
                        b.reload().map_err(|e| e.to_string())?;
                    }
                    9 => w.next_buffer(),
                    10 => b.syntax_definition = defs.find_syntax_by_extension("cut1").cloned(),
                    11 => b.syntax_definition = defs.find_syntax_by_extension("cut3").cloned(),
                    12 => {
                        b.path = Some(dir.join("g.cut1"));
                        let _ = w.update_current_syntax();
                    }
                    13 => b.start_operation_group(),
                    14 => b.end_operation_group(),
                    15 => {
                        let _ = w.current_buffer_tokens().map(|t| t.iter().map(|i| i.count()));
                    }
                    _ => b.cursor.move_right(),
                }
                ctx.transition();
                if (always || step + 1 == depth) && (ctx.fresh() || ctx.tracing()) {
                    let Some(b) = w.current_buffer.as_ref() else { return ctx.foreign() };
                    let Some(def) = b.syntax_definition.as_ref() else { return ctx.foreign() };
                    let text = b.data();
                    ctx.state(&(&text, &def.name, b.modified()));
                    ctx.log(|| format!("{}: {:?} as {}", TURNS[c], text, def.name));
                    let tokens = w.current_buffer_tokens().map_err(|e| format!("after {}: no tokens for {:?}: {}", TURNS[c], text, e))?;
                    crate::text::token_set_check(ctx, &tokens, &text, def, &w.syntax_set).map_err(|e| format!("after {}: {}", TURNS[c], e))?;
                } else if always {
                    let _ = w.current_buffer_tokens();
                }
            }
            Ok(())
        },
    )
}

// --- Files nearly equal to what is saved ------------------------------------------------

/// Saving over a file that differs in little from the text writes that little.
pub fn nearly_saved(thorough: bool) -> Harness {
    let sizes: Vec<usize> = if thorough {
        vec![2, 3, 16, 100, 255, 256, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10_000, 16_384, 65_535, 65_536, 65_537, 131_072, 200_000, 1_048_577, 4_000_000]
    } else {
        vec![2, 3, 100, 256, 512, 1024, 4095, 4096, 4097, 8192, 10_000, 65_536, 65_537, 200_000, 1_048_577]
    };
    Harness::new(
        "nearly-saved",
        format!("files of {:?} bytes; one byte changed, two exchanged, one moved, one added or removed, two lines exchanged, at the start, a quarter, the middle, three quarters and the end; by editing the loaded text and saving, by another program and saving the text as it is, or by another program and reloading; the times of the file as they were or not", sizes),
        move |ctx| {
            let n = *ctx.pick(&sizes);
            let quarter = ctx.choose(5);
            let kind = ctx.choose(6);
            let how = ctx.choose(3);
            let keep_times = ctx.flag();
            let at = (n * quarter / 4).min(n - 2);
            let path = ctx.scratch.join("nearly");
            // No two adjacent characters are equal.
            let text: String = (0..n).map(|i| if i % 61 == 60 { '\n' } else { char::from(b'a' + (i % 23) as u8) }).collect();
            let mut new = text.clone().into_bytes();
            match kind {
                0 => new[at] = b'#',
                1 => new.swap(at, at + 1),
                2 => {
                    let byte = new.remove(at);
                    new.insert((at + n / 3) % n, byte);
                }
                3 => new.insert(at, b'#'),
                4 => drop(new.remove(at)),
                _ => {
                    let lines: Vec<&str> = text.split_inclusive('\n').collect();
                    let i = (lines.len() * quarter / 4).min(lines.len().saturating_sub(2));
                    let mut lines = lines;
                    if lines.len() > 1 {
                        lines.swap(i, i + 1);
                    }
                    new = lines.concat().into_bytes();
                }
            }
            let new = String::from_utf8(new).unwrap();
            fs::write(&path, &text).unwrap();
            let times = fs::metadata(&path).unwrap();
            let put_back = |path: &Path| {
                let f = fs::OpenOptions::new().write(true).open(path).unwrap();
                let _ = f.set_times(fs::FileTimes::new().set_modified(times.modified().unwrap()).set_accessed(times.accessed().unwrap()));
            };
            let mut b = Buffer::from_file(&path).map_err(|e| e.to_string())?;
            let (held, want) = match how {
                0 => {
                    // By an edit where the size allows for it, else as a whole.
                    if kind == 0 && n <= 10_000 {
                        let q = Layout::of(&text).containing(at);
                        b.delete_range(Range::new(q, Layout::of(&text).containing(at + 1)));
                        b.cursor.move_to(q);
                        b.insert("#");
                    } else {
                        b.replace(new.clone());
                    }
                    if keep_times {
                        put_back(&path);
                    }
                    b.save().map_err(|e| format!("saving failed: {}", e))?;
                    (fs::read_to_string(&path).unwrap(), &new)
                }
                1 => {
                    fs::write(&path, &new).unwrap();
                    if keep_times {
                        put_back(&path);
                    }
                    b.save().map_err(|e| format!("saving failed: {}", e))?;
                    (fs::read_to_string(&path).unwrap(), &text)
                }
                _ => {
                    fs::write(&path, &new).unwrap();
                    if keep_times {
                        put_back(&path);
                    }
                    b.reload().map_err(|e| format!("reloading failed: {}", e))?;
                    (b.data(), &new)
                }
            };
            ctx.transitions(2);
            ctx.state(&(n, quarter, kind, how, keep_times));
            ctx.log(|| format!("{} bytes, changed in way {} at {}, {}", n, kind, at, ["edited and saved", "changed from outside and saved", "changed from outside and reloaded"][how]));
            if held != *want {
                let first = held.bytes().zip(want.bytes()).position(|(a, b)| a != b);
                return Err(format!("{} bytes, changed in way {} at {}, {}: {} bytes, expected {}, differing from byte {:?} on", n, kind, at, ["edited and saved: the file has", "changed from outside and saved: the file has", "changed from outside and reloaded: the text has"][how], held.len(), want.len(), first));
            }
            Ok(())
        },
    )
}
