//! Files with times, permissions and owners of all kinds, and changes from outside that keep
//! or set them: what the file holds is all that counts.

use crate::engine::{Ctx, HResult, Harness};
use crate::io::short;
use crate::sys::{p, Focus, Op, Sys};
use std::fs;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::Path;
use std::time::{Duration, SystemTime};

const TIMES: &[&str] = &["now", "an hour ago", "in an hour", "1970", "2100", "1960"];
fn time(which: usize) -> SystemTime {
    let now = SystemTime::now();
    let hour = Duration::from_secs(3600);
    match which {
        0 => now,
        1 => now - hour,
        2 => now + hour,
        3 => SystemTime::UNIX_EPOCH,
        4 => SystemTime::UNIX_EPOCH + Duration::from_secs(4_102_444_800),
        _ => SystemTime::UNIX_EPOCH - Duration::from_secs(315_619_200),
    }
}

fn stamp(path: &Path, t: SystemTime) {
    if let Ok(f) = fs::File::open(path) {
        let _ = f.set_times(fs::FileTimes::new().set_modified(t).set_accessed(t));
    }
}

const MODES: &[u32] = &[0o644, 0o444, 0o200, 0o777, 0o000];

/// What the program may do, as opposed to what the permissions suggest.
fn permitted(path: &Path) -> bool {
    fs::OpenOptions::new().read(true).write(true).open(path).is_ok()
}

const OUTSIDE: usize = 7;

pub fn dated(focus: Focus) -> Harness {
    Harness::new(
        "dated-files",
        format!(
            "files of 3 contents modified at each of {:?}, with each of {} permissions (where these permit anyway); loaded, then edited, saved, edited and undone, or not; from outside: nothing, touched, or other content of equal, larger or smaller size, in the same file or another one in its place, modified then, at the same time as before, or at each of those times; then reloaded, saved, both in either order, undone, loaded anew",
            TIMES, MODES.len()
        ),
        move |ctx| {
            let content = *ctx.pick(&["one\n", "", "\u{e9}\u{6F22}\r\nx"]);
            let path = ctx.scratch.join("doc");
            let _ = fs::remove_file(&path);
            fs::write(&path, content).unwrap();
            let since = ctx.choose(TIMES.len());
            let before = time(since);
            stamp(&path, before);
            let mode = *ctx.pick(MODES);
            if focus == Focus::Nothing {
                scribe::Buffer::from_file(&path).map_err(|e| format!("{}, which holds {:?}, cannot be loaded: {}", what(&path), content, e))?;
            }
            let mut sys = Sys::from_file_as_it_is(ctx.scratch, content, focus);
            let r = run(ctx, &mut sys, &path, since, before, mode);
            let _ = fs::set_permissions(&path, fs::Permissions::from_mode(0o644));
            let _ = fs::remove_file(&path);
            r
        },
    )
}

fn run(ctx: &mut Ctx, sys: &mut Sys, path: &Path, since: usize, before: SystemTime, mode: u32) -> HResult {
    let _ = fs::set_permissions(path, fs::Permissions::from_mode(mode));
    if !permitted(path) {
        ctx.count("not permitted");
        return Ok(());
    }
    let edits = match ctx.choose(4) {
        0 => vec![],
        1 => vec![Op::Insert("x".into())],
        2 => vec![Op::Insert("x".into()), Op::Save],
        _ => vec![Op::Insert("x".into()), Op::MoveTo(p(0, 1)), Op::Insert("y".into()), Op::Undo],
    };
    for op in edits {
        if !step(ctx, sys, path, &op)? {
            return ctx.foreign();
        }
    }
    let outside = ctx.choose(OUTSIDE);
    if outside > 0 {
        let old = fs::metadata(path).and_then(|m| m.modified()).map_err(|e| e.to_string())?;
        let same: String = sys.disk.chars().map(|c| if c == 'o' { 'p' } else { c }).collect();
        let new = match outside {
            1 => sys.disk.clone(),
            2 | 3 => same,
            4 | 5 => format!("{}more\n", sys.disk),
            _ => String::new(),
        };
        if outside % 2 == 1 && outside > 1 {
            let _ = fs::remove_file(path);
        }
        if !sys.apply(ctx, &Op::External(new))? {
            return ctx.foreign();
        }
        match ctx.choose(TIMES.len() + 2) {
            0 => stamp(path, old),
            1 => stamp(path, before),
            i => stamp(path, time(i - 2)),
        }
        if outside % 2 == 1 && outside > 1 {
            let _ = fs::set_permissions(path, fs::Permissions::from_mode(mode));
        }
    }
    ctx.state(&(sys.disk.clone(), sys.m.text.clone(), outside, mode, since));
    let last = match ctx.choose(6) {
        0 => vec![Op::Reload],
        1 => vec![Op::Save],
        2 => vec![Op::Save, Op::Reload],
        3 => vec![Op::Reload, Op::Insert("z".into()), Op::Save],
        4 => vec![Op::Undo, Op::Undo, Op::Redo, Op::Reload, Op::Undo],
        _ => vec![],
    };
    for op in last {
        if !step(ctx, sys, path, &op)? {
            return ctx.foreign();
        }
    }
    let anew = scribe::Buffer::from_file(path).map_err(|e| format!("{} cannot be loaded: {}", what(path), e))?;
    if anew.data() != sys.disk {
        return Err(format!("loading {}, which holds {}, gives {}", what(path), short(&sys.disk), short(&anew.data())));
    }
    Ok(())
}

fn what(path: &Path) -> String {
    match fs::metadata(path) {
        Ok(m) => format!("a file of mode {:o} modified at {}", m.mode(), m.mtime()),
        Err(e) => format!("a file ({})", e),
    }
}

fn step(ctx: &mut Ctx, sys: &mut Sys, path: &Path, op: &Op) -> Result<bool, String> {
    let about = what(path);
    if !sys.apply(ctx, op).map_err(|e| format!("{}, {}", e, about))? {
        // Nothing but a call that failed brings that about where loading and saving count.
        let again = match op {
            Op::Save => sys.real.save().map_err(|e| e.to_string()),
            Op::Reload => sys.real.reload().map_err(|e| e.to_string()),
            _ => Ok(()),
        };
        if let (Focus::Nothing, Err(e)) = (sys.focus, again) {
            return Err(format!("{:?} with {}: {}", op, about, e));
        }
        return Ok(false);
    }
    match op {
        Op::Save => {
            let now = fs::read(path).unwrap_or_default();
            if now != sys.m.text.as_bytes() {
                return Err(format!("saving {} to {} leaves {}", short(&sys.m.text), about, short(&String::from_utf8_lossy(&now))));
            }
        }
        Op::Reload if sys.real.data() != sys.disk => {
            return Err(format!("reloading {}, which holds {}, gives {}", about, short(&sys.disk), short(&sys.real.data())));
        }
        _ => (),
    }
    if sys.focus != Focus::Nothing && sys.real.modified() != sys.m.modified() {
        return Err(format!("{:?} with {}: modified is {}", op, about, sys.real.modified()));
    }
    Ok(true)
}
