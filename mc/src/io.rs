//! Files: round trips (C06) and faults (C07).

use crate::edits::{s, COMB, HAN};
use crate::engine::{Ctx, HResult, Harness};
use crate::faults::{self, Injected};
use crate::model::Layout;
use crate::sys::{p, rewind, show, Focus, Op, Sys};
use scribe::{Buffer, Workspace};
use std::path::{Path, PathBuf};

/// Sizes on both sides of every power of two up to 2^k.
pub fn ladder(k: u32) -> Vec<usize> {
    let mut v = vec![0, 1];
    for i in 1..=k {
        let n = 1usize << i;
        for x in [n - 1, n, n + 1] {
            if !v.contains(&x) {
                v.push(x);
            }
        }
    }
    v
}

/// A regular text of about `n` bytes.
pub fn filler(n: usize, shape: usize) -> String {
    let unit = match shape {
        0 => "a",
        1 => "line\n",
        2 => "\u{6F22}\u{e9}",
        3 => "x\r\n",
        4 => "\n",
        5 => "e\u{301} b\u{1F469}\u{200d}\u{1F467}\t\n",
        _ => "0123456789abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ\u{e9}\n\n",
    };
    let mut t = String::with_capacity(n + 32);
    while t.len() + unit.len() <= n {
        t.push_str(unit);
    }
    while t.len() < n {
        t.push('z');
    }
    t
}
pub const SHAPES: usize = 7;

/// Saves `text` and loads it again, several ways.
fn round_trip(ctx: &mut Ctx, b: &mut Buffer, path: &Path) -> HResult {
    let text = b.data();
    if let Err(e) = b.save() {
        return Err(format!("saving {:?} failed: {}", short(&text), e));
    }
    let disk = std::fs::read(path).map_err(|e| format!("no file after saving: {}", e))?;
    if disk != text.as_bytes() {
        return Err(format!(
            "saved {:?}, but the file holds {:?}",
            short(&text),
            short(&String::from_utf8_lossy(&disk))
        ));
    }
    if b.data() != text {
        return Err(format!("saving changed {:?} to {:?}", short(&text), short(&b.data())));
    }
    loaded(ctx, path, &disk)?;
    ctx.transitions(2);
    Ok(())
}

fn loaded(ctx: &mut Ctx, path: &Path, disk: &[u8]) -> HResult {
    let got = Buffer::from_file(path);
    ctx.transition();
    match (got, std::str::from_utf8(disk)) {
        (Ok(c), Ok(want)) => {
            if c.data() != want {
                return Err(format!("the file holds {:?}, loaded as {:?}", short(want), short(&c.data())));
            }
            if c.data().len() != want.len() {
                return Err("length differs".into());
            }
            if (c.cursor.line, c.cursor.offset) != (0, 0) {
                return Err(format!("the cursor of a loaded buffer is at {}", show(&c.cursor)));
            }
            if c.path.as_deref() != Some(path) {
                return Err(format!("loaded from {:?}, the path is {:?}", path, c.path));
            }
            ctx.count("valid contents loaded");
            Ok(())
        }
        (Err(_), Err(_)) => {
            ctx.count("invalid contents refused");
            Ok(())
        }
        (Ok(c), Err(_)) => Err(format!("{:?} is not UTF-8, but loads as {:?}", disk, c.data())),
        (Err(e), Ok(t)) => Err(format!("loading {:?} failed: {}", short(t), e)),
    }
}

pub fn short(t: &str) -> String {
    if t.len() <= 120 {
        t.to_string()
    } else {
        let head: String = t.chars().take(40).collect();
        format!("{}... ({} bytes)", head, t.len())
    }
}

fn previous(path: &Path, text: &str, which: usize) {
    match which {
        0 => {
            let _ = std::fs::remove_file(path);
        }
        1 => std::fs::write(path, "").unwrap(),
        2 => std::fs::write(path, format!("{}{}tail that must go\n", text, text)).unwrap(),
        3 => std::fs::write(path, text).unwrap(),
        4 => std::fs::write(path, [0xff, 0xfe, 0x00, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80]).unwrap(),
        _ => std::fs::write(path, "q").unwrap(),
    }
}

/// Names of files to save.
const NAMES: &[&str] = &[
    "file", "file.txt", "file.tmp", "file.bak", "file~", ".hidden", ".hidden.txt", "a.b.c", "#file#", "file.", "\u{e9} \u{1F469}", "file.swp", "tmp", ".tmp",
    "long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name-long-name.txt",
];

/// Names that programs are wont to derive from the name of a file they write.
fn derived(name: &str) -> Vec<String> {
    let stem = Path::new(name).file_stem().unwrap().to_string_lossy().into_owned();
    let mut v: Vec<String> = Vec::new();
    for e in ["tmp", "temp", "bak", "backup", "swp", "swo", "new", "old", "orig", "lock", "part", "save", "partial", "scribe", "~", "1", "0"] {
        v.push(format!("{}.{}", stem, e));
        v.push(format!("{}.{}", name, e));
        v.push(format!(".{}.{}", name, e));
        v.push(format!(".{}.{}", stem, e));
        v.push(e.to_string());
        v.push(format!(".{}", e));
    }
    v.extend([format!("{}~", name), format!(".{}", name), format!("#{}#", name), format!(".#{}", name), format!("~{}", name), format!(".~{}", name), format!("{}_", name), format!("_{}", name), stem.clone()]);
    v.sort();
    v.dedup();
    v
}

pub fn c06(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let atoms = s(&[
            "a", "\n", "\r", "\r\n", "\u{feff}", "\0", "\u{fffd}", "\u{10ffff}", COMB, "\t", "\u{1b}", "\u{2028}",
            "\u{85}", "\u{1a}", HAN, " ",
        ]);
        let len = if thorough { 4 } else { 3 };
        v.push(Harness::new(
            "round-trip-texts",
            format!("every text of 0..={} atoms of {:?}, typed into a buffer, saved over a file that was absent, empty, longer, equal, binary, shorter; loaded again", len, atoms),
            move |ctx| {
                let n = ctx.choose(len + 1);
                let text: String = (0..n).map(|_| ctx.pick(&atoms).clone()).collect();
                let which = ctx.choose(6);
                let path = ctx.scratch.join("rt");
                previous(&path, &text, which);
                let mut b = Buffer::new();
                b.insert(text.clone());
                b.path = Some(path.clone());
                ctx.state(&(&text, which));
                ctx.log(|| format!("text {:?}, previous content {}", text, which));
                if b.data() != text {
                    return ctx.foreign();
                }
                round_trip(ctx, &mut b, &path)
            },
        ));
    }
    {
        let reps: Vec<u8> = vec![
            0x00, 0x0a, 0x0d, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc1, 0xc2, 0xdf, 0xe0, 0xe2, 0xed,
            0xee, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xfe, 0xff, 0xbb,
        ];
        let reps4: Vec<u8> = if thorough { reps.clone() } else { vec![0x0a, 0x41, 0x80, 0x8f, 0x90, 0xbf, 0xc2, 0xe2, 0xed, 0xf0, 0xf4, 0xff] };
        v.push(Harness::new(
            "load-every-bytes",
            format!("every file content of 0, 1 and 2 bytes; 3 bytes over {} and 4 bytes over {} representative byte values; loaded fresh and reloaded into an edited buffer", reps.len(), reps4.len()),
            move |ctx| {
                let n = ctx.choose(5);
                let mut bytes = Vec::new();
                for _ in 0..n {
                    bytes.push(match n {
                        1 | 2 => ctx.choose(256) as u8,
                        3 => *ctx.pick(&reps),
                        _ => *ctx.pick(&reps4),
                    });
                }
                let path = ctx.scratch.join("lb");
                std::fs::write(&path, &bytes).unwrap();
                ctx.state(&bytes);
                ctx.log(|| format!("file content {:?}", bytes));
                loaded(ctx, &path, &bytes)?;
                // Reload agrees.
                let mut b = Buffer::new();
                b.insert("text\nbefore");
                b.path = Some(path.clone());
                let r = b.reload();
                ctx.transition();
                match (r, std::str::from_utf8(&bytes)) {
                    (Ok(()), Ok(t)) if b.data() == t => Ok(()),
                    (Err(_), Err(_)) if b.data() == "text\nbefore" => Ok(()),
                    (r, t) => Err(format!(
                        "reloading {:?} (valid: {}) gives {:?} and the text {:?}",
                        bytes,
                        t.is_ok(),
                        r.map_err(|e| e.to_string()),
                        b.data()
                    )),
                }
            },
        ));
    }
    {
        let depth = if thorough { 6 } else { 5 };
        v.push(Harness::new(
            "save-after-histories",
            format!("file \"ab\\r\\ncd\"; {} steps of: insert at three places, delete, delete-range, replace, undo, redo, save, reload, external change; a final save and load", depth),
            move |ctx| {
                let mut sys = Sys::from_file(ctx.scratch, "ab\r\ncd", Focus::Nothing);
                for _ in 0..depth {
                    let l = Layout::of(&sys.m.text);
                    let c = ctx.choose(11);
                    let op = match c {
                        0 => Op::Insert("\u{e9}\n".into()),
                        1 => Op::Undo,
                        2 => Op::Redo,
                        3 => Op::Save,
                        4 => Op::Delete,
                        5 => Op::DeleteRange(p(0, 1), p(1, 1)),
                        6 => Op::Replace("r\u{6F22}".into()),
                        7 => Op::Reload,
                        8 => Op::External("\u{feff}ext\r\nernal\0".into()),
                        9 => Op::Insert("0123456789".into()),
                        _ => Op::MoveTo(l.end()),
                    };
                    if !sys.apply(ctx, &op)? {
                        return ctx.foreign();
                    }
                    if c == 3 && ctx.fresh() {
                        let disk = std::fs::read(sys.path.as_ref().unwrap()).unwrap();
                        if disk != sys.real.data().as_bytes() {
                            return Err(format!(
                                "saved {:?}, the file holds {:?}",
                                sys.real.data(),
                                String::from_utf8_lossy(&disk)
                            ));
                        }
                    }
                    if c == 7 && ctx.fresh() && sys.real.data() != sys.disk {
                        return Err(format!("reloaded {:?} as {:?}", sys.disk, sys.real.data()));
                    }
                }
                let path = sys.path.clone().unwrap();
                round_trip(ctx, &mut sys.real, &path)
            },
        ));
    }
    {
        let sizes = ladder(if thorough { 20 } else { 16 });
        v.push(Harness::new(
            "round-trip-sizes",
            format!("texts of {} sizes up to {} bytes, {} shapes, gap at the end, start or middle, over a longer, shorter or absent file; saved, loaded, reloaded", sizes.len(), sizes.last().unwrap(), SHAPES),
            move |ctx| {
                let n = *ctx.pick(&sizes);
                let text = filler(n, ctx.choose(SHAPES));
                let gap = ctx.choose(3);
                let which = *ctx.pick(&[0, 2, 5]);
                let path = ctx.scratch.join("sz");
                previous(&path, &text, which);
                let mut b = Buffer::new();
                b.insert(text.clone());
                let l = Layout::of(&text);
                match gap {
                    1 => {
                        b.insert("q");
                        b.delete();
                    }
                    2 => {
                        b.cursor.move_to(l.containing(text.len() / 2));
                        b.insert("q");
                        b.undo();
                    }
                    _ => (),
                }
                if b.data() != text {
                    return ctx.foreign();
                }
                b.path = Some(path.clone());
                ctx.state(&(n, &text, gap, which));
                ctx.log(|| format!("{} bytes, {:?}, gap {}", n, short(&text), gap));
                round_trip(ctx, &mut b, &path)?;
                b.insert("pending");
                if let Err(e) = b.reload() {
                    return Err(format!("reloading {:?} failed: {}", short(&text), e));
                }
                if b.data() != text {
                    return Err(format!("reloading {:?} gives {:?}", short(&text), short(&b.data())));
                }
                ctx.transition();
                Ok(())
            },
        ));
    }
    v.push(Harness::new(
        "unusual-files",
        "files whose reported size is not their length (those of the kernel that stay the same, where they exist), sparse files, links, and files reached through them; loaded, reloaded into an edited buffer; the writable ones saved over and loaded again".to_string(),
        move |ctx| {
            const KERNEL: [&str; 14] = [
                "/proc/version",
                "/proc/filesystems",
                "/proc/cmdline",
                "/proc/devices",
                "/proc/crypto",
                "/proc/self/limits",
                "/proc/self/mounts",
                "/proc/sys/kernel/ostype",
                "/proc/sys/kernel/osrelease",
                "/proc/sys/kernel/version",
                "/proc/config.gz",
                "/sys/devices/system/cpu/online",
                "/sys/devices/system/cpu/possible",
                "/sys/kernel/mm/transparent_hugepage/enabled",
            ];
            let i = ctx.choose(KERNEL.len() + 6);
            let d = ctx.scratch.to_path_buf();
            let own = |name: &str| d.join(name);
            let path = match i.checked_sub(KERNEL.len()) {
                None => PathBuf::from(KERNEL[i]),
                Some(k) => {
                    let target = own("unusual");
                    let _ = std::fs::remove_file(&target);
                    std::fs::write(&target, "text \u{e9}\r\n").unwrap();
                    let link = own("unusual-link");
                    let _ = std::fs::remove_file(&link);
                    match k {
                        0 | 1 => {
                            // Nothing but a hole, up to its size; or from a text on.
                            if k == 0 {
                                std::fs::write(&target, "").unwrap();
                            }
                            std::fs::OpenOptions::new().write(true).open(&target).unwrap().set_len(70_000).unwrap();
                            target
                        }
                        2 => {
                            std::os::unix::fs::symlink(&target, &link).unwrap();
                            link
                        }
                        3 => {
                            std::os::unix::fs::symlink("unusual", &link).unwrap();
                            let second = own("unusual-second");
                            let _ = std::fs::remove_file(&second);
                            std::os::unix::fs::symlink(&link, &second).unwrap();
                            second
                        }
                        4 => {
                            std::fs::hard_link(&target, &link).unwrap();
                            link
                        }
                        _ => {
                            let sub = own("unusual-dir");
                            let _ = std::fs::create_dir(&sub);
                            sub.join("../unusual")
                        }
                    }
                }
            };
            // Files that are not here, or do not stay the same, say nothing.
            let (Ok(a), Ok(b)) = (std::fs::read(&path), std::fs::read(&path)) else { return Ok(()) };
            if a != b {
                return Ok(());
            }
            ctx.state(&i);
            ctx.log(|| format!("{:?} holds {:?}", path, short(&String::from_utf8_lossy(&a))));
            let canonical = path.canonicalize().unwrap();
            let loaded = Buffer::from_file(&path);
            let mut edited = Buffer::new();
            edited.insert("text\nbefore");
            edited.path = Some(path.clone());
            let reloaded = edited.reload();
            if std::fs::read(&path).ok() != Some(a.clone()) {
                return Ok(());
            }
            ctx.transitions(2);
            let Ok(want) = String::from_utf8(a) else {
                return if loaded.is_err() && reloaded.is_err() { Ok(()) } else { Err(format!("{:?} is not UTF-8, but loads", path)) };
            };
            match loaded {
                Ok(b) if b.data() == want && b.path.as_ref().and_then(|q| q.canonicalize().ok()) == Some(canonical) => (),
                Ok(b) => return Err(format!("{:?} holds {:?}, loaded as {:?} with the path {:?}", path, short(&want), short(&b.data()), b.path)),
                Err(e) => return Err(format!("loading {:?} failed: {}", path, e)),
            }
            if reloaded.is_err() || edited.data() != want {
                return Err(format!("{:?} holds {:?}, reloaded as {:?}", path, short(&want), short(&edited.data())));
            }
            ctx.count("valid contents loaded");
            if i < KERNEL.len() {
                return Ok(());
            }
            edited.replace("saved \u{1F469}\n");
            edited.save().map_err(|e| format!("saving to {:?} failed: {}", path, e))?;
            ctx.transition();
            match std::fs::read(&path) {
                Ok(now) if now == "saved \u{1F469}\n".as_bytes() => Ok(()),
                r => Err(format!("saved to {:?}, which gives {:?} then", path, r)),
            }
        },
    ));
    v.push(crate::names::saved());
    v.push(crate::big::large_files(thorough));
    v.push(crate::strings::encodings());
    v.push(crate::dated::dated(Focus::Nothing));
    v.push(Harness::new(
        "neighbours",
        format!("a file of {} names, there before or not, saved twice, reloaded and saved, alone in its directory or next to files of {} names derived from it: what is in the directory after each", NAMES.len(), derived("x").len()),
        move |ctx| {
            let name = *ctx.pick(NAMES);
            let dir = ctx.scratch.join("neighbours");
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir(&dir).unwrap();
            let target = dir.join(name);
            let mut files: std::collections::BTreeMap<PathBuf, String> = Default::default();
            let crowded = ctx.flag();
            if crowded {
                for (i, n) in derived(name).into_iter().enumerate() {
                    let q = dir.join(n);
                    let held = format!("neighbour {}", i);
                    // Some names do not exist, e.g. for being too long.
                    if q != target && std::fs::write(&q, &held).is_ok() {
                        files.insert(q, held);
                    }
                }
            }
            let before = ctx.choose(3);
            if before > 0 {
                let held = ["", "short", "something longer than what is saved here"][before];
                std::fs::write(&target, held).unwrap();
                files.insert(target.clone(), held.into());
            }
            ctx.state(&(name, crowded, before));
            ctx.log(|| format!("{:?}, crowded {}, before {}", name, crowded, before));
            let mut b = Buffer::new();
            b.insert("first \u{e9}\n");
            b.path = Some(target.clone());
            for step in 0..4 {
                match step {
                    2 => b.reload().map_err(|e| format!("reloading {:?} failed: {}", name, e))?,
                    _ => b.save().map_err(|e| format!("saving {:?} failed: {}", name, e))?,
                }
                ctx.transition();
                files.insert(target.clone(), b.data());
                let mut found: std::collections::BTreeMap<PathBuf, String> = Default::default();
                for e in std::fs::read_dir(&dir).unwrap() {
                    let q = e.unwrap().path();
                    let held = std::fs::read(&q).map(|c| String::from_utf8_lossy(&c).into_owned()).unwrap_or("(not a file)".into());
                    found.insert(q, held);
                }
                if found != files {
                    let differs = files.iter().filter(|(q, h)| found.get(*q) != Some(*h)).chain(found.iter().filter(|(q, _)| !files.contains_key(*q))).next().unwrap();
                    return Err(format!("after {} {:?}, {:?} holds {:?}, expected {:?}", if step == 2 { "reloading" } else { "saving" }, name, differs.0, found.get(differs.0), files.get(differs.0)));
                }
                b.insert(format!("step {} ", step));
            }
            Ok(())
        },
    ));
    {
        let depth = if thorough { 7 } else { 6 };
        v.push(Harness::new(
            "several-files",
            format!("{} steps of: insert, undo, take the path of one of three files, save, change or remove the file outside; every file after each save, and loaded at the end", depth),
            move |ctx| {
                let files: Vec<PathBuf> = (0..3).map(|i| ctx.scratch.join(format!("several{}", i))).collect();
                let mut disk: Vec<Option<String>> = vec![Some("first\n".into()), Some("the second, longer \u{e9}".into()), None];
                for (q, d) in files.iter().zip(&disk) {
                    match d {
                        Some(d) => std::fs::write(q, d).unwrap(),
                        None => drop(std::fs::remove_file(q)),
                    }
                }
                let mut b = Buffer::from_file(&files[0]).map_err(|e| format!("loading failed: {}", e))?;
                let mut at = 0;
                for step in 0..depth {
                    let c = ctx.choose(8);
                    match c {
                        0 => b.insert(format!("{}\n", step)),
                        1 => b.undo(),
                        2..=4 => {
                            at = c - 2;
                            b.path = Some(files[at].clone());
                        }
                        5 => {
                            b.save().map_err(|e| format!("saving failed: {}", e))?;
                            disk[at] = Some(b.data());
                        }
                        6 => {
                            disk[at] = Some(format!("outside {}", step));
                            std::fs::write(&files[at], format!("outside {}", step)).unwrap();
                        }
                        _ => {
                            disk[at] = None;
                            let _ = std::fs::remove_file(&files[at]);
                        }
                    }
                    ctx.transition();
                    ctx.state(&(b.data(), at, &disk));
                    ctx.log(|| format!("operation {} -> text {:?}, files {:?}", c, b.data(), disk));
                    if c == 5 && (ctx.fresh() || ctx.tracing()) {
                        for (q, d) in files.iter().zip(&disk) {
                            let now = std::fs::read_to_string(q).ok();
                            if now != *d {
                                return Err(format!("after saving {:?} to {:?}, {:?} holds {:?}, expected {:?}", b.data(), files[at], q, now, d));
                            }
                        }
                    }
                }
                for (q, d) in files.iter().zip(&disk) {
                    match (Buffer::from_file(q), d) {
                        (Ok(b), Some(d)) if b.data() == *d => (),
                        (Err(_), None) => (),
                        (r, d) => return Err(format!("{:?} holds {:?}, loaded as {:?}", q, d, r.map(|b| b.data()).map_err(|e| e.to_string()))),
                    }
                }
                Ok(())
            },
        ));
    }
    {
        v.push(Harness::new(
            "round-trip-every-scalar",
            "every Unicode scalar value, 16 per file, each between other characters, at the start, and at the end of the file".to_string(),
            move |ctx| {
                let Some(chars) = scalars(ctx, 16) else { return Ok(()) };
                let c0 = chars[0];
                let mut text = String::new();
                text.push(c0);
                for c in &chars {
                    text.push('x');
                    text.push(*c);
                }
                let path = ctx.scratch.join("sc");
                let mut b = Buffer::new();
                b.insert(text.clone());
                b.path = Some(path.clone());
                ctx.state(&text);
                ctx.log(|| format!("text {:?}", text));
                if b.data() != text {
                    return ctx.foreign();
                }
                round_trip(ctx, &mut b, &path)
            },
        ));
    }
    v.push(crate::life::only_saving_writes(thorough));
    v.push(crate::life::nearly_saved(thorough));
    v
}

/// Chooses a block of `k` consecutive code points; together the blocks cover all of Unicode.
/// None if the block holds surrogates only.
pub fn scalars(ctx: &mut Ctx, k: u32) -> Option<Vec<char>> {
    let blocks = 0x110000 / k;
    let (a, b) = (blocks / 256, 256);
    let i = (ctx.choose(a as usize) * b + ctx.choose(b)) as u32;
    let v: Vec<char> = (i * k..(i + 1) * k).filter_map(char::from_u32).collect();
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}

// --- C07 --------------------------------------------------------------------------------

/// What a buffer looks like from outside.
fn face(b: &Buffer) -> String {
    format!(
        "text {:?}, cursor {}, modified {}, path {:?}, id {:?}, syntax {:?}",
        b.data(),
        show(&b.cursor),
        b.modified(),
        b.path,
        b.id,
        b.syntax_definition.as_ref().map(|s| s.name.clone())
    )
}

fn workspace_face(w: &mut Workspace) -> String {
    let paths: Vec<Option<PathBuf>> = w.buffer_paths().into_iter().map(|p| p.map(|p| p.to_path_buf())).collect();
    format!(
        "index {:?}, paths {:?}, current {:?}",
        w.current_buffer_index(),
        paths,
        w.current_buffer.as_ref().map(face)
    )
}

/// Brings a file-backed buffer into one of several states with something to lose.
fn prepare(ctx: &mut Ctx, sys: &mut Sys, which: usize) -> Result<bool, String> {
    let ops: Vec<Op> = match which {
        0 => vec![],
        1 => vec![Op::Insert("new ".into()), Op::MoveTo(p(0, 2))],
        2 => vec![Op::Insert("u".into()), Op::Insert("v".into()), Op::Undo, Op::MoveTo(p(1, 0))],
        3 => vec![Op::Insert("u".into()), Op::Start, Op::Insert("g".into()), Op::Delete],
        4 => vec![Op::Insert("u".into()), Op::Save, Op::Undo],
        5 => vec![Op::Replace("other\ntext \u{e9}\n".into()), Op::MoveTo(p(1, 3))],
        6 => vec![Op::Start, Op::Insert("s".into()), Op::Save, Op::Insert("t".into())],
        _ => vec![Op::Insert("u".into()), Op::Save, Op::Insert("w".into()), Op::Undo],
    };
    for op in ops {
        if !sys.apply(ctx, &op)? {
            return Ok(false);
        }
    }
    Ok(true)
}
const STATES: usize = 8;

/// The model agrees with the buffer's observable state and whole history.
fn agree(ctx: &mut Ctx, sys: &mut Sys, when: &str) -> HResult {
    if sys.real.data() != sys.m.text || sys.real.modified() != sys.m.modified() {
        return Err(format!(
            "{}: text {:?} modified {}, expected {:?} modified {}",
            when,
            sys.real.data(),
            sys.real.modified(),
            sys.m.text,
            sys.m.modified()
        ));
    }
    rewind(ctx, sys, when)
}

fn contents() -> Vec<String> {
    vec![
        "one\ntwo\n".into(),
        "".into(),
        "\u{e9}\u{6F22}\n".into(),
        filler(9000, 6),
    ]
}

fn single_faults(budget: usize) -> Vec<Harness> {
    let mut v = Vec::new();
    v.push(Harness::new(
        "save-faults",
        format!("save of 4 contents in {} buffer states; each system call it makes answered by success, an interrupt, a short or zero transfer, or an error, up to {} injected answers per save; then a retry and the whole history", STATES, budget),
        move |ctx| {
            let content = ctx.pick(&contents()).clone();
            let which = ctx.choose(STATES);
            let mut sys = Sys::from_file(ctx.scratch, &content, Focus::Nothing);
            if !prepare(ctx, &mut sys, which)? {
                return ctx.foreign();
            }
            let before = face(&sys.real);
            ctx.state(&(&content, which));
            let (r, inj) = faults::inject(ctx, budget, || sys.real.save());
            ctx.transition();
            ctx.log(|| format!("save with {:?}: {:?}", inj, r.as_ref().map_err(|e| e.to_string())));
            count(ctx, &inj, r.is_ok());
            let disk = || std::fs::read(sys.path.as_ref().unwrap()).unwrap_or_default();
            match r {
                Ok(()) => {
                    sys.m.sync();
                    if disk() != sys.real.data().as_bytes() {
                        return Err(format!(
                            "save under {:?} reported success, but the file holds {:?} instead of {:?}",
                            inj,
                            short(&String::from_utf8_lossy(&disk())),
                            short(&sys.real.data())
                        ));
                    }
                }
                Err(e) => {
                    if !inj.fatal() {
                        return Err(format!("save under {:?} failed: {}", inj, e));
                    }
                    let after = face(&sys.real);
                    if after != before {
                        return Err(format!("a save that failed under {:?} changed the buffer from {} to {}", inj, before, after));
                    }
                    // The cause is gone: the retry succeeds. Or nobody retries.
                    if ctx.flag() {
                        if let Err(e) = sys.real.save() {
                            return Err(format!("retrying a save that failed under {:?} failed: {}", inj, e));
                        }
                        sys.m.sync();
                        let disk = std::fs::read(sys.path.as_ref().unwrap()).unwrap_or_default();
                        if disk != sys.real.data().as_bytes() {
                            return Err(format!("the retried save left {:?} in the file", short(&String::from_utf8_lossy(&disk))));
                        }
                    }
                }
            }
            agree(ctx, &mut sys, "after the save")
        },
    ));
    v.push(Harness::new(
        "reload-faults",
        format!("reload of 4 contents changed on disk in 3 ways, {} buffer states; faults as above, up to {}; then a retry and the whole history", STATES, budget),
        move |ctx| {
            let content = ctx.pick(&contents()).clone();
            let which = ctx.choose(STATES);
            let disk = match ctx.choose(3) {
                0 => "changed \u{1F469}\u{200d}\u{1F467}\r\n".to_string(),
                1 => String::new(),
                _ => content.clone(),
            };
            let mut sys = Sys::from_file(ctx.scratch, &content, Focus::Nothing);
            if !prepare(ctx, &mut sys, which)? || !sys.apply(ctx, &Op::External(disk.clone()))? {
                return ctx.foreign();
            }
            let before = face(&sys.real);
            ctx.state(&(&content, which, &disk));
            let (r, inj) = faults::inject(ctx, budget, || sys.real.reload());
            ctx.transition();
            ctx.log(|| format!("reload with {:?}: {:?}", inj, r.as_ref().map_err(|e| e.to_string())));
            count(ctx, &inj, r.is_ok());
            match r {
                Ok(()) => {
                    sys.m.reload(&disk);
                    if sys.real.data() != disk {
                        return Err(format!(
                            "reload under {:?} reported success, but the text is {:?} instead of {:?}",
                            inj,
                            short(&sys.real.data()),
                            short(&disk)
                        ));
                    }
                }
                Err(e) => {
                    if !inj.fatal() {
                        return Err(format!("reload under {:?} failed: {}", inj, e));
                    }
                    let after = face(&sys.real);
                    if after != before {
                        return Err(format!("a reload that failed under {:?} changed the buffer from {} to {}", inj, before, after));
                    }
                    if ctx.flag() {
                        if let Err(e) = sys.real.reload() {
                            return Err(format!("retrying a reload that failed under {:?} failed: {}", inj, e));
                        }
                        sys.m.reload(&disk);
                        if sys.real.data() != disk {
                            return Err(format!("the retried reload gives {:?} instead of {:?}", short(&sys.real.data()), short(&disk)));
                        }
                    }
                }
            }
            agree(ctx, &mut sys, "after the reload")
        },
    ));
    v.push(Harness::new(
        "load-faults",
        format!("Buffer::from_file of 4 contents; faults as above, up to {}", budget),
        move |ctx| {
            let content = ctx.pick(&contents()).clone();
            let path = ctx.scratch.join("doc");
            std::fs::write(&path, &content).unwrap();
            ctx.state(&content);
            let (r, inj) = faults::inject(ctx, budget, || Buffer::from_file(&path));
            ctx.transition();
            ctx.log(|| format!("load with {:?}: {:?}", inj, r.as_ref().map(|b| b.data()).map_err(|e| e.to_string())));
            count(ctx, &inj, r.is_ok());
            match r {
                Ok(b) => {
                    if b.data() != content || b.path.as_deref() != Some(path.as_path()) || b.modified() {
                        return Err(format!("load under {:?} succeeded, but gives {}", inj, face(&b)));
                    }
                }
                Err(e) => {
                    if !inj.fatal() {
                        return Err(format!("load under {:?} failed: {}", inj, e));
                    }
                }
            }
            Ok(())
        },
    ));
    v.push(Harness::new(
        "open-faults",
        format!("Workspace::open_buffer of a new file, of one open in the background, of the current one; with 0 to 2 other buffers, edits pending; faults as above, up to {}; then a retry", budget),
        move |ctx| {
            let others = ctx.choose(3);
            let target = ctx.choose(3);
            let edited = ctx.flag();
            let dir = ctx.scratch.to_path_buf();
            let mut w = match Workspace::new(&dir, None) {
                Ok(w) => w,
                Err(_) => return ctx.foreign(),
            };
            let file = dir.join("target.rs");
            let text = "fn \u{e9}() {}\n".repeat(20);
            std::fs::write(&file, &text).unwrap();
            if target > 0 && w.open_buffer(&file).is_err() {
                return ctx.foreign();
            }
            for i in 0..others {
                let mut b = Buffer::new();
                b.insert(format!("other {}", i));
                w.add_buffer(b);
            }
            if target == 2 && w.open_buffer(&file).is_err() {
                return ctx.foreign();
            }
            let mut expected = text.clone();
            if edited {
                if let Some(b) = w.current_buffer.as_mut() {
                    b.insert("pending ");
                    if b.path.as_ref() == Some(&file) {
                        expected = b.data();
                    }
                }
            }
            let total = w.buffer_paths().len();
            let already = target > 0;
            let before = workspace_face(&mut w);
            ctx.state(&(others, target, edited));
            let (r, inj) = faults::inject(ctx, budget, || w.open_buffer(&file));
            ctx.transition();
            ctx.log(|| format!("open with {:?}: {:?}", inj, r.as_ref().map_err(|e| e.to_string())));
            count(ctx, &inj, r.is_ok());
            if let Err(e) = r {
                if !inj.fatal() {
                    return Err(format!("open under {:?} failed: {}", inj, e));
                }
                let after = workspace_face(&mut w);
                if after != before {
                    return Err(format!("an open that failed under {:?} changed the workspace from {} to {}", inj, before, after));
                }
                if let Err(e) = w.open_buffer(&file) {
                    return Err(format!("retrying an open that failed under {:?} failed: {}", inj, e));
                }
            }
            let now = w.buffer_paths().len();
            if now != total + if already { 0 } else { 1 } {
                return Err(format!("opening under {:?} took the workspace from {} to {} buffers", inj, total, now));
            }
            let Some(b) = w.current_buffer.as_ref() else { return Err("no current buffer after opening".into()) };
            if b.path.as_ref() != Some(&file) || b.data() != expected {
                return Err(format!("after opening under {:?} the current buffer is {}", inj, face(b)));
            }
            Ok(())
        },
    ));
    v
}

pub fn c07(thorough: bool) -> Vec<Harness> {
    let mut v = single_faults(if thorough { 4 } else { 3 });
    let names = ["save-errors", "reload-errors", "load-errors", "open-errors"];
    v.extend(single_faults(1).into_iter().zip(names).map(|(h, name)| faults::every_errno(name, 200, h)));
    {
        let depth = if thorough { 5 } else { 4 };
        v.push(Harness::new(
            "fault-histories",
            format!("file of 9 bytes; {} steps of: insert, delete-range, undo, redo, start and end group, an outside change (text, or not UTF-8), its removal, save, reload, another path; one system call at most answered by a fault in each save and reload, up to 2 in all; text, cursor, modified state and the file after each; then the whole history", depth),
            move |ctx| fault_history(ctx, depth),
        ));
    }
    v.push(crate::ws::faulty(thorough));
    v.push(Harness::new(
        "real-faults",
        "save, reload, load, open on paths that really fail: a directory, a missing directory, a file as directory, a symlink loop, a name too long, an empty path, no path, a name with a NUL byte, a removed file, invalid UTF-8; every buffer state".to_string(),
        move |ctx| {
            let which = ctx.choose(STATES);
            let mut sys = Sys::from_file(ctx.scratch, "one\ntwo \u{e9}\n", Focus::Nothing);
            if !prepare(ctx, &mut sys, which)? {
                return ctx.foreign();
            }
            let d = ctx.scratch.to_path_buf();
            let kind = ctx.choose(10);
            let good = sys.path.clone().unwrap();
            let bad: Option<PathBuf> = match kind {
                0 => Some(d.clone()),
                1 => Some(d.join("missing").join("x")),
                2 => Some(good.join("x")),
                3 => {
                    let l = d.join("loop");
                    let _ = std::os::unix::fs::symlink(&l, &l);
                    Some(l)
                }
                4 => Some(d.join("n".repeat(300))),
                5 => Some(PathBuf::new()),
                6 => None,
                7 => Some(d.join("nul\0byte")),
                8 => Some(d.join("removed")),
                _ => {
                    let f = d.join("binary");
                    std::fs::write(&f, [b'a', 0xff, b'b']).unwrap();
                    Some(f)
                }
            };
            let action = ctx.choose(4);
            ctx.state(&(which, kind, action));
            // Combinations that are no failure.
            let sound = match (kind, action) {
                (8, 0) | (9, 0) => true,
                (6, 2..=3) => return Ok(()),
                _ => false,
            };
            sys.real.path = bad.clone();
            let before = face(&sys.real);
            let r: Result<(), String> = match action {
                0 => sys.real.save().map_err(|e| e.to_string()),
                1 => sys.real.reload().map_err(|e| e.to_string()),
                2 => Buffer::from_file(bad.as_ref().unwrap()).map(|_| ()).map_err(|e| e.to_string()),
                _ => {
                    let Ok(mut w) = Workspace::new(&d, None) else { return ctx.foreign() };
                    let mut other = Buffer::new();
                    other.insert("kept");
                    w.add_buffer(other);
                    let before = workspace_face(&mut w);
                    let r = w.open_buffer(bad.as_ref().unwrap());
                    let after = workspace_face(&mut w);
                    if r.is_err() && before != after {
                        return Err(format!("opening {:?} failed and changed the workspace from {} to {}", bad, before, after));
                    }
                    r.map_err(|e| e.to_string())
                }
            };
            ctx.transition();
            ctx.log(|| format!("action {} on {:?}: {:?}", action, bad, r));
            if sound {
                let _ = std::fs::remove_file(bad.as_ref().unwrap());
                return match r {
                    Ok(()) => Ok(()),
                    Err(e) => Err(format!("saving to {:?} failed: {}", bad, e)),
                };
            }
            if r.is_ok() {
                return Err(format!("action {} on {:?} reported success", action, bad));
            }
            ctx.count("real failures reported");
            let after = face(&sys.real);
            if after != before {
                return Err(format!("a failed action {} on {:?} changed the buffer from {} to {}", action, bad, before, after));
            }
            sys.real.path = Some(good);
            agree(ctx, &mut sys, "after the failure")
        },
    ));
    v.push(crate::life::over_and_over(false));
    v
}

fn count(ctx: &mut Ctx, inj: &Injected, ok: bool) {
    ctx.count(match (inj.0.is_empty(), inj.fatal(), ok) {
        (true, _, _) => "calls without fault",
        (false, false, _) => "calls with harmless faults only",
        (false, true, true) => "calls that survived an error",
        (false, true, false) => "calls that reported an error",
    });
}

fn fault_history(ctx: &mut Ctx, depth: usize) -> HResult {
    let mut sys = Sys::from_file(ctx.scratch, "one\n\u{e9}\u{6F22}", Focus::Nothing);
    let first = sys.path.clone().unwrap();
    let second = ctx.scratch.join("second");
    let _ = std::fs::remove_file(&second);
    let mut left = 2;
    for step in 0..depth {
        let path = sys.real.path.clone().unwrap();
        let before = face(&sys.real);
        let c = ctx.choose(12);
        match c {
            8 | 9 => {
                let disk = std::fs::read(&path).ok();
                let text = disk.and_then(|d| String::from_utf8(d).ok());
                let possible = c == 8 || text.is_some();
                let b = &mut sys.real;
                let (r, inj) = faults::inject(ctx, left.min(1), || if c == 8 { b.save().map_err(|e| e.to_string()) } else { b.reload().map_err(|e| e.to_string()) });
                left -= inj.0.len();
                ctx.transition();
                ctx.log(|| format!("{} with {:?}: {:?}", ["save", "reload"][c - 8], inj, r));
                count(ctx, &inj, r.is_ok());
                match r {
                    Ok(()) if !possible => return Err(format!("reload under {:?} reported success, with a file that holds no text", inj)),
                    Ok(()) if c == 8 => {
                        sys.m.sync();
                        let now = std::fs::read(&path).unwrap_or_default();
                        if now != sys.real.data().as_bytes() {
                            return Err(format!(
                                "save under {:?} reported success, but the file holds {:?} instead of {:?}",
                                inj,
                                String::from_utf8_lossy(&now),
                                sys.real.data()
                            ));
                        }
                    }
                    Ok(()) => {
                        let d = text.unwrap();
                        sys.m.reload(&d);
                        if sys.real.data() != d {
                            return Err(format!("reload under {:?} reported success, but gives {:?} instead of {:?}", inj, sys.real.data(), d));
                        }
                    }
                    Err(e) => {
                        if possible && !inj.fatal() {
                            return Err(format!("{} under {:?} failed: {}", ["save", "reload"][c - 8], inj, e));
                        }
                        let after = face(&sys.real);
                        if before != after {
                            return Err(format!("a call that failed under {:?} changed the buffer from {} to {}", inj, before, after));
                        }
                    }
                }
            }
            5 => std::fs::write(&path, format!("changed {}\n\u{e9}", step)).unwrap(),
            6 => std::fs::write(&path, [b'a', 0xc3, b'\n']).unwrap(),
            7 => {
                let _ = std::fs::remove_file(&path);
            }
            10 => sys.real.path = Some(if path == first { second.clone() } else { first.clone() }),
            11 => sys.real.cursor.move_to(p(1, 1)).then(|| sys.m.cursor.move_to(&Layout::of(&sys.m.text), p(1, 1))).map_or((), |_| ()),
            _ => {
                let op = match c {
                    0 => Op::Insert(format!("\u{6F22}{}\n", step)),
                    1 => Op::DeleteRange(p(0, 1), p(0, 2)),
                    2 => Op::Undo,
                    3 => Op::Redo,
                    _ if sys.m.group.is_some() => Op::End,
                    _ => Op::Start,
                };
                if !sys.apply(ctx, &op)? {
                    return ctx.foreign();
                }
            }
        }
        if ctx.fresh() || ctx.tracing() {
            ctx.state(&(&sys.m.text, sys.m.undo.len(), sys.m.redo.len(), sys.m.modified(), left));
            if sys.real.data() != sys.m.text || sys.real.modified() != sys.m.modified() {
                return Err(format!(
                    "step {}: text {:?} modified {}, expected {:?} modified {}",
                    step,
                    sys.real.data(),
                    sys.real.modified(),
                    sys.m.text,
                    sys.m.modified()
                ));
            }
        }
    }
    agree(ctx, &mut sys, "after the history")
}
