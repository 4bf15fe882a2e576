//! Workspaces: C16-C19.

use crate::engine::{Ctx, HResult, Harness};
use crate::faults::inject;
use crate::model::{Layout, MBuf};
use crate::sys::{p, show};
use scribe::buffer::{Position, Range, Token, TokenSet};
use scribe::{Buffer, ErrorKind, Workspace};
use std::cell::RefCell;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use syntect::parsing::{SyntaxReference, SyntaxSet};

/// Announced changes: which buffer's callback ran.
type Calls = Rc<RefCell<Vec<usize>>>;

/// What the workspace is meant to know about a buffer.
#[derive(Clone)]
struct Entry {
    /// Order of creation; stands for the buffer's identity.
    tag: usize,
    m: MBuf,
    path: Option<PathBuf>,
    id: Option<usize>,
    syntax: Option<String>,
    /// The content of its file when this buffer was last in sync with it does not matter
    /// here: C05 decides that. Whether it has a callback does.
    callback: bool,
}

struct Sim {
    real: Workspace,
    list: Vec<Entry>,
    current: Option<usize>,
    /// Every id ever seen, with the buffer it belongs to.
    ids: Vec<(usize, usize)>,
    tags: usize,
    calls: Calls,
    dir: PathBuf,
}

/// Where the files are, made anew for each execution.
fn layout(scratch: &Path) -> PathBuf {
    let ws = scratch.join("ws");
    let _ = std::fs::create_dir_all(&ws);
    ws
}

fn write(path: &Path, text: &str) {
    if let Some(d) = path.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(path, text).unwrap();
}

impl Sim {
    fn new(ctx: &mut Ctx) -> Result<Sim, String> {
        let dir = layout(ctx.scratch);
        let real = Workspace::new(&dir, None).map_err(|e| format!("no workspace for {:?}: {}", dir, e))?;
        Ok(Sim { real, list: Vec::new(), current: None, ids: Vec::new(), tags: 0, calls: Calls::default(), dir })
    }

    fn entry(&mut self) -> Option<&mut Entry> {
        self.current.map(|i| &mut self.list[i])
    }

    fn listen(&self, b: &mut Buffer, tag: usize) {
        let calls = self.calls.clone();
        b.change_callback = Some(Box::new(move |_| calls.borrow_mut().push(tag)));
    }

    fn placed(&mut self, mut e: Entry) -> HResult {
        let at = self.current.map_or(0, |i| i + 1);
        let Some(b) = self.real.current_buffer.as_ref() else { return Err("no buffer is selected after adding one".into()) };
        let Some(id) = b.id else { return Err("an added buffer has no id".into()) };
        if let Some((_, owner)) = self.ids.iter().find(|x| x.0 == id) {
            return Err(format!("buffer number {} got the id {} that buffer number {} has had", e.tag, id, owner));
        }
        self.ids.push((id, e.tag));
        e.id = Some(id);
        e.syntax = b.syntax_definition.as_ref().map(|s| s.name.clone());
        self.list.insert(at, e);
        self.current = Some(at);
        Ok(())
    }

    fn add(&mut self, text: &str, path: Option<PathBuf>, callback: bool) -> HResult {
        let tag = self.tags;
        self.tags += 1;
        let mut b = Buffer::new();
        let mut m = MBuf::new("", false);
        if !text.is_empty() {
            b.insert(text);
            m.insert(text);
        }
        b.path = path.clone();
        m.has_path = path.is_some();
        if callback {
            self.listen(&mut b, tag);
        }
        // Whatever id it had elsewhere means nothing here.
        if tag % 2 == 1 {
            b.id = Some(0);
        }
        self.real.add_buffer(b);
        self.placed(Entry { tag, m, path, id: None, syntax: None, callback })
    }

    /// Opens a file of this content under some spelling of `canonical`.
    fn open(&mut self, spelling: &Path, canonical: &Path, content: &str) -> HResult {
        if let Err(e) = self.real.open_buffer(spelling) {
            return Err(format!("opening {:?} failed: {}", spelling, e));
        }
        self.opened(canonical, content)
    }

    /// What opening it should have done.
    fn opened(&mut self, canonical: &Path, content: &str) -> HResult {
        let c = Some(canonical.to_path_buf());
        // A buffer may have been given another spelling of its file's path.
        let same = |e: &Entry| e.path == c || e.path.as_ref().and_then(|q| q.canonicalize().ok()) == c;
        if self.current.map_or(false, |i| same(&self.list[i])) {
            return Ok(());
        }
        if let Some(i) = self.list.iter().position(same) {
            self.current = Some(i);
            return Ok(());
        }
        let tag = self.tags;
        self.tags += 1;
        self.placed(Entry { tag, m: MBuf::new(content, true), path: c, id: None, syntax: None, callback: false })
    }

    fn next(&mut self) {
        self.real.next_buffer();
        if let Some(i) = self.current {
            self.current = Some(if i + 1 == self.list.len() { 0 } else { i + 1 });
        }
    }
    fn previous(&mut self) {
        self.real.previous_buffer();
        if let Some(i) = self.current {
            self.current = Some(if i == 0 { self.list.len() - 1 } else { i - 1 });
        }
    }
    fn close(&mut self) {
        self.real.close_current_buffer();
        if let Some(i) = self.current {
            self.list.remove(i);
            self.current = if self.list.is_empty() { None } else { Some(i.saturating_sub(1)) };
        }
    }

    fn reported(&self, path: &Option<PathBuf>) -> Option<PathBuf> {
        path.as_ref().map(|q| {
            // By components, spelled out.
            let (w, c): (Vec<_>, Vec<_>) = (self.dir.components().collect(), q.components().collect());
            if c.len() >= w.len() && c[..w.len()] == w[..] {
                c[w.len()..].iter().collect()
            } else {
                q.clone()
            }
        })
    }

    /// Index, paths and selection agree with each other and with the model.
    fn order(&mut self, what: &str) -> HResult {
        let index = self.real.current_buffer_index();
        if index != self.current {
            return Err(format!("{}: the current index is {:?}, expected {:?}", what, index, self.current));
        }
        let want: Vec<Option<PathBuf>> = self.list.iter().map(|e| self.reported(&e.path)).collect();
        let got: Vec<Option<PathBuf>> = self.real.buffer_paths().iter().map(|q| q.map(|q| q.to_path_buf())).collect();
        if got != want {
            return Err(format!("{}: the paths are {:?}, expected {:?}", what, got, want));
        }
        let got = self.real.current_buffer_path().map(|q| q.to_path_buf());
        let want = self.current.and_then(|i| self.reported(&self.list[i].path));
        if got != want {
            return Err(format!("{}: the current path is {:?}, expected {:?}", what, got, want));
        }
        match (self.real.current_buffer.as_ref(), self.current) {
            (None, None) => Ok(()),
            (Some(b), Some(i)) => {
                let e = &self.list[i];
                if b.id != e.id || b.data() != e.m.text || b.path != e.path {
                    return Err(format!(
                        "{}: selected is the buffer with id {:?}, path {:?}, text {:?}; expected {:?}, {:?}, {:?}",
                        what,
                        b.id,
                        b.path,
                        b.data(),
                        e.id,
                        e.path,
                        e.m.text
                    ));
                }
                Ok(())
            }
            (b, i) => Err(format!("{}: a buffer is selected: {}; the current index is {:?}", what, b.is_some(), i)),
        }
    }

    /// Everything about the selected buffer is as it was left.
    fn intact(&mut self, what: &str) -> HResult {
        let Some(i) = self.current else { return Ok(()) };
        let e = &self.list[i];
        let Some(b) = self.real.current_buffer.as_ref() else { return Err(format!("{}: no buffer selected", what)) };
        let face = format!(
            "text {:?}, cursor {}, modified {}, path {:?}, id {:?}, syntax {:?}, callback {}",
            b.data(),
            show(&b.cursor),
            b.modified(),
            b.path,
            b.id,
            b.syntax_definition.as_ref().map(|s| s.name.clone()),
            b.change_callback.is_some()
        );
        let want = format!(
            "text {:?}, cursor {}, modified {}, path {:?}, id {:?}, syntax {:?}, callback {}",
            e.m.text,
            show(&e.m.cursor.pos),
            e.m.modified(),
            e.path,
            e.id,
            e.syntax,
            e.callback
        );
        if face != want {
            return Err(format!("{}: buffer number {} is {}; expected {}", what, e.tag, face, want));
        }
        Ok(())
    }

    /// Runs an edit on the selected buffer and its model.
    fn edit(&mut self, what: &str, f: impl FnOnce(&mut Buffer, &mut MBuf)) -> HResult {
        let Some(i) = self.current else { return Ok(()) };
        let Some(b) = self.real.current_buffer.as_mut() else { return Err(format!("{}: no buffer selected", what)) };
        self.calls.borrow_mut().clear();
        let e = &mut self.list[i];
        let before = b.data();
        f(b, &mut e.m);
        let calls = self.calls.borrow();
        if let Some(t) = calls.iter().find(|t| **t != e.tag) {
            return Err(format!("{}: editing buffer number {} ran the callback of number {}", what, e.tag, t));
        }
        if e.callback && b.data() != before && calls.is_empty() {
            return Err(format!("{}: the callback of buffer number {} no longer runs", what, e.tag));
        }
        Ok(())
    }

    /// Once around in either direction, then every history back and forth.
    fn tour(&mut self, ctx: &mut Ctx) -> HResult {
        let n = self.list.len();
        for _ in 0..n {
            self.next();
            self.order("touring forwards")?;
            self.intact("touring forwards")?;
        }
        for _ in 0..n {
            self.previous();
            self.intact("touring backwards")?;
        }
        ctx.transitions(2 * n as u64);
        for _ in 0..n {
            let steps = self.list[self.current.unwrap()].m.undo.len() + 2;
            for _ in 0..steps {
                self.edit("undoing", |b, m| {
                    b.undo();
                    m.undo();
                })?;
                self.order("undoing")?;
            }
            for _ in 0..steps {
                self.edit("redoing", |b, m| {
                    b.redo();
                    m.redo();
                })?;
                self.order("redoing")?;
            }
            self.intact("after undoing and redoing everything")?;
            self.next();
            ctx.transitions(2 * steps as u64 + 1);
        }
        Ok(())
    }

    fn record(&self, ctx: &mut Ctx) {
        let s: Vec<_> = self.list.iter().map(|e| (e.tag, e.m.text.clone(), e.m.cursor.pos.line, e.m.cursor.pos.offset, e.m.undo.len(), e.m.redo.len())).collect();
        ctx.state(&(s, self.current));
    }
}

// --- C16 --------------------------------------------------------------------------------

const NAV: [&str; 9] = ["add", "open a", "open b", "open missing", "next", "previous", "close", "add with path", "add empty"];

fn navigate(ctx: &mut Ctx, sim: &mut Sim, op: usize) -> HResult {
    let dir = sim.dir.clone();
    match op {
        0 => sim.add(&format!("text {}", sim.tags), None, false)?,
        1 => sim.open(&dir.join("a"), &dir.join("a"), "file a\n")?,
        2 => sim.open(&dir.join("b.rs"), &dir.join("b.rs"), "file b\n")?,
        3 => {
            if sim.real.open_buffer(&dir.join("missing")).is_ok() {
                return Err("opening a missing file succeeded".into());
            }
        }
        4 => sim.next(),
        5 => sim.previous(),
        6 => sim.close(),
        7 => {
            let q = dir.join(format!("unsaved {}", sim.tags));
            sim.add("", Some(q), false)?
        }
        _ => sim.add("", None, false)?,
    }
    ctx.transition();
    ctx.log(|| format!("{} -> current {:?} of {}", NAV[op], sim.current, sim.list.len()));
    sim.record(ctx);
    Ok(())
}

fn files(dir: &Path) {
    write(&dir.join("a"), "file a\n");
    write(&dir.join("b.rs"), "file b\n");
}

pub fn c16(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let depth = if thorough { 6 } else { 5 };
        v.push(Harness::new(
            "navigation",
            format!("empty workspace; 0..={} steps of {:?}; index, paths and selection after each; then once around in either direction", depth, NAV),
            move |ctx| {
                let mut sim = Sim::new(ctx)?;
                files(&sim.dir);
                sim.order("new workspace")?;
                for _ in 0..depth {
                    let op = ctx.choose(NAV.len());
                    navigate(ctx, &mut sim, op)?;
                    sim.order(NAV[op])?;
                }
                around(ctx, &mut sim)
            },
        ));
    }
    {
        let depth = if thorough { 9 } else { 7 };
        let ops = [0usize, 4, 5, 6];
        v.push(Harness::new(
            "navigation-deep",
            format!("workspace of 0 to 3 buffers, {} steps of add, next, previous, close", depth),
            move |ctx| {
                let n = ctx.choose(4);
                let mut sim = Sim::new(ctx)?;
                for _ in 0..n {
                    navigate(ctx, &mut sim, 0)?;
                }
                for _ in 0..depth {
                    let op = *ctx.pick(&ops);
                    navigate(ctx, &mut sim, op)?;
                    sim.order(NAV[op])?;
                }
                around(ctx, &mut sim)
            },
        ));
    }
    {
        let most = if thorough { 40 } else { 24 };
        v.push(Harness::new(
            "many-buffers",
            format!("1 to {} buffers, and 63 to 65, 127 to 129, 256, 257; the selection moved to each of them; then one of: add, open new, open existing first / middle / last, close, close all; then around in either direction", most),
            move |ctx| {
                let sizes: Vec<usize> = (1..=most).chain([63, 64, 65, 127, 128, 129, 256, 257]).collect();
                let n = *ctx.pick(&sizes);
                let places: Vec<usize> = if n <= most { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
                let at = *ctx.pick(&places);
                let op = ctx.choose(7);
                let mut sim = Sim::new(ctx)?;
                files(&sim.dir);
                for i in 0..n {
                    let q = sim.dir.join(format!("f{}", i));
                    let exists = [0, n / 2, n - 1].contains(&i);
                    if exists {
                        write(&q, "existing");
                        sim.open(&q, &q, "existing")?;
                    } else {
                        sim.add(&format!("text {}", i), Some(q), false)?;
                    }
                }
                sim.order("after adding")?;
                // The shorter way there.
                while sim.current != Some(at) {
                    if sim.current.unwrap() < at { sim.next() } else if at < n / 2 { sim.next() } else { sim.previous() }
                }
                sim.order("after moving")?;
                let dir = sim.dir.clone();
                match op {
                    0 => sim.add("new", None, false)?,
                    1 => sim.open(&dir.join("a"), &dir.join("a"), "file a\n")?,
                    2..=4 => {
                        let q = dir.join(format!("f{}", [0, n / 2, n - 1][op - 2]));
                        sim.open(&q, &q, "existing")?
                    }
                    5 => sim.close(),
                    _ => {
                        for _ in 0..n + 1 {
                            sim.close();
                            sim.order("closing all")?;
                        }
                        sim.add("after all", None, false)?;
                    }
                }
                ctx.transitions(n as u64 + 1);
                sim.record(ctx);
                sim.order("after the operation")?;
                around(ctx, &mut sim)
            },
        ));
    }
    v.push(very_many_buffers());
    v
}

fn around(ctx: &mut Ctx, sim: &mut Sim) -> HResult {
    for _ in 0..sim.list.len() + 1 {
        sim.next();
        sim.order("around forwards")?;
    }
    for _ in 0..sim.list.len() + 2 {
        sim.previous();
        sim.order("around backwards")?;
    }
    ctx.transitions(2 * sim.list.len() as u64 + 3);
    ctx.count(match sim.list.len() {
        0 => "ended empty",
        1 => "ended with one buffer",
        _ => "ended with several buffers",
    });
    Ok(())
}

// --- C17 --------------------------------------------------------------------------------

fn work(ctx: &mut Ctx, sim: &mut Sim, op: usize) -> HResult {
    let dir = sim.dir.clone();
    let mark = format!("{}", sim.tags);
    match op {
        0 => {
            let path = if sim.tags % 2 == 0 { None } else { Some(dir.join(format!("u{}.rs", sim.tags))) };
            sim.add(&format!("new {}\nsecond", sim.tags), path, true)?
        }
        1 | 2 => {
            let q = dir.join(["a", "b.rs"][op - 1]);
            let content = std::fs::read_to_string(&q).unwrap();
            sim.open(&q, &q, &content)?
        }
        3 => {
            let _ = sim.real.open_buffer(&dir.join("missing"));
        }
        4 => sim.next(),
        5 => sim.previous(),
        6 => sim.close(),
        7 => sim.edit("insert", |b, m| {
            b.insert(mark.as_str());
            m.insert(&mark);
        })?,
        8 => sim.edit("undo", |b, m| {
            b.undo();
            m.undo();
        })?,
        9 => sim.edit("redo", |b, m| {
            b.redo();
            m.redo();
        })?,
        10 => sim.edit("start group", |b, m| {
            b.start_operation_group();
            m.start_group();
        })?,
        11 => sim.edit("move", |b, m| {
            // Far down, and a column to remember.
            let q = if b.cursor.line == 0 { p(1, 3) } else { p(0, 2) };
            let l = Layout::of(&m.text);
            b.cursor.move_to(q);
            m.cursor.move_to(&l, q);
        })?,
        12 => {
            let Some(e) = sim.entry() else { return Ok(()) };
            let path = e.path.clone();
            if path.is_none() {
                return Ok(());
            }
            sim.edit("save", |b, m| {
                if b.save().is_ok() {
                    m.sync();
                }
            })?
        }
        13 => sim.edit("end group", |b, m| {
            b.end_operation_group();
            m.end_group();
        })?,
        14 => sim.edit("delete", |b, m| {
            b.delete();
            m.delete();
        })?,
        15 => sim.edit("replace", |b, m| {
            let t = format!("replaced {}\nx", mark);
            b.replace(t.as_str());
            m.replace(&t);
        })?,
        16 => sim.add("", None, false)?,
        17 => {
            let disk = sim.entry().and_then(|e| e.path.clone()).and_then(|q| std::fs::read_to_string(q).ok());
            let mut wrong = None;
            sim.edit("reload", |b, m| match (b.reload(), &disk) {
                (Ok(()), Some(d)) => m.reload(d),
                (Err(_), None) => (),
                (r, _) => wrong = Some(format!("reloading from {:?} gives {:?}", disk, r.map_err(|e| e.to_string()))),
            })?;
            if let Some(w) = wrong {
                return Err(w);
            }
        }
        18 => write(&dir.join("a"), &format!("changed {} outside\n\n", mark)),
        19 => {
            // Looking changes nothing.
            let _ = sim.real.current_buffer_tokens().map(|t| t.iter().map(|i| i.count()));
            let _ = (sim.real.buffer_paths().len(), sim.real.current_buffer_path(), sim.real.current_buffer_index());
            if let Some(b) = sim.real.current_buffer.as_ref() {
                let _ = (b.search("e"), b.line_count(), b.file_name(), b.file_extension(), b.modified());
            }
        }
        20 => {
            let r = sim.real.update_current_syntax();
            if r.is_ok() != sim.current.is_some() {
                return Err(format!("refreshing the syntax with current {:?} gives {:?}", sim.current, r.map_err(|e| e.to_string())));
            }
            let set = &sim.real.syntax_set;
            if let Some(i) = sim.current {
                let e = &mut sim.list[i];
                e.syntax = Some(expected(set, e.path.as_deref()));
            }
        }
        21 => {
            let path = dir.join(format!("renamed{}.py", mark));
            let Some(e) = sim.entry() else { return Ok(()) };
            e.path = Some(path.clone());
            e.m.has_path = true;
            sim.edit("rename", |b, _| b.path = Some(path))?
        }
        22 => sim.edit("move down", |b, m| {
            b.cursor.move_down();
            m.cursor.go(&Layout::of(&m.text), crate::model::Move::Down);
        })?,
        _ => {
            let Some(i) = sim.current else { return Ok(()) };
            let tag = sim.list[i].tag;
            sim.list[i].callback = true;
            let calls = sim.calls.clone();
            sim.edit("listen", |b, _| b.change_callback = Some(Box::new(move |_| calls.borrow_mut().push(tag))))?
        }
    }
    ctx.transition();
    ctx.log(|| format!("{} -> current {:?} of {}", WORK[op], sim.current, sim.list.len()));
    sim.record(ctx);
    Ok(())
}
const WORK: [&str; 24] = [
    "add", "open a", "open b", "open missing", "next", "previous", "close", "insert", "undo", "redo", "start group", "move cursor",
    "save", "end group", "delete", "replace", "add empty", "reload", "change a outside", "look", "refresh syntax", "rename", "move down",
    "listen",
];

fn working(ctx: &mut Ctx, start: usize, depth: usize, ops: &[usize]) -> HResult {
    let mut sim = workspace_with_work(ctx, start)?;
    for _ in 0..depth {
        let op = *ctx.pick(ops);
        work(ctx, &mut sim, op)?;
        sim.order(WORK[op])?;
        sim.intact(WORK[op])?;
    }
    sim.tour(ctx)
}

/// The current buffer's tokens, after every step of a history.
pub fn tokens_in_workspaces(broad: bool, thorough: bool) -> Harness {
    let (name, ops, depth): (_, Vec<usize>, _) = if broad {
        ("tokens-of-current-buffers", vec![0, 2, 4, 6, 7, 8, 9, 14, 15, 17, 18, 20, 21], if thorough { 4 } else { 3 })
    } else {
        ("tokens-of-current-buffers-deep", vec![4, 7, 8, 9, 15, 17, 18], if thorough { 5 } else { 4 })
    };
    Harness::new(
        name,
        format!(
            "empty and three prepared workspaces; {} steps of {:?}; the tokens of the current buffer after each, twice in turn, against its text and definition",
            depth,
            ops.iter().map(|i| WORK[*i]).collect::<Vec<_>>()
        ),
        move |ctx| {
            let start = ctx.choose(4);
            let mut sim = workspace_with_work(ctx, start)?;
            for _ in 0..depth {
                let op = *ctx.pick(&ops);
                // What goes wrong in the step itself belongs to another property.
                if work(ctx, &mut sim, op).is_err() {
                    return ctx.foreign();
                }
                if !ctx.fresh() && !ctx.tracing() {
                    continue;
                }
                let w = &sim.real;
                let Some(b) = w.current_buffer.as_ref() else { continue };
                let Some(def) = b.syntax_definition.as_ref() else { return ctx.foreign() };
                let text = b.data();
                let set = w.current_buffer_tokens().map_err(|e| format!("after {}: no tokens for {:?}: {}", WORK[op], text, e))?;
                crate::text::token_set_check(ctx, &set, &text, def, &w.syntax_set).map_err(|e| format!("after {}: {}", WORK[op], e))?;
                // Two iterations at once do not disturb each other.
                let (Ok(mut a), Ok(mut z)) = (set.iter(), set.iter()) else {
                    return Err(format!("after {}: {:?} can be iterated once only", WORK[op], text));
                };
                loop {
                    let (x, y) = (a.next(), z.next());
                    if x != y {
                        return Err(format!("after {}: two iterations over {:?} yield {:?} and {:?}", WORK[op], text, x, y));
                    }
                    if x.is_none() {
                        break;
                    }
                }
            }
            Ok(())
        },
    )
}

fn workspace_with_work(ctx: &mut Ctx, start: usize) -> Result<Sim, String> {
    let mut sim = Sim::new(ctx)?;
    write(&sim.dir.join("a"), "file a\nline two\n");
    write(&sim.dir.join("b.rs"), "fn b() {}\n");
    let prelude: &[usize] = match start {
        0 => &[],
        1 => &[0, 7, 1],
        2 => &[1, 7, 2, 0, 5],
        _ => &[0, 10, 7, 1, 11, 7, 8],
    };
    for op in prelude {
        work(ctx, &mut sim, *op)?;
    }
    Ok(sim)
}

/// More buffers than sixteen bits count: in the life of a workspace, or at once.
fn very_many_buffers() -> Harness {
    Harness::new(
        "very-many-buffers",
        "65537 and 70000 buffers: added and closed one after another, with one, two or three others there throughout; or all of them open at once, with the selection moved past the ends and to the middle, closed from there".to_string(),
        move |ctx| {
            let n = *ctx.pick(&[65_537usize, 70_000]);
            let at_once = ctx.flag();
            let others = if at_once { 0 } else { ctx.choose(4) };
            let Sim { mut real, dir, .. } = Sim::new(ctx)?;
            ctx.state(&(n, at_once, others));
            ctx.transitions(n as u64);
            let mut ids = std::collections::HashSet::new();
            let new = |i: usize| {
                let mut b = Buffer::new();
                if i % 3 != 0 {
                    b.path = Some(dir.join(i.to_string()));
                }
                b
            };
            let path = |i: usize| if i % 3 != 0 { Some(PathBuf::from(i.to_string())) } else { None };
            let id = |w: &Workspace| w.current_buffer.as_ref().and_then(|b| b.id);
            for i in 0..others {
                real.add_buffer(new(i));
                ids.insert(id(&real));
            }
            for i in others..n {
                real.add_buffer(new(i));
                if !ids.insert(id(&real)) || id(&real).is_none() {
                    return Err(format!("buffer {} gets the id {:?}, which another one has had", i, id(&real)));
                }
                let want = if at_once { i } else { others };
                if real.current_buffer_index() != Some(want) || real.current_buffer_path() != path(i).as_deref() {
                    return Err(format!("buffer {} is added at {:?} with path {:?}", i, real.current_buffer_index(), real.current_buffer_path()));
                }
                if !at_once {
                    real.close_current_buffer();
                    if real.current_buffer_index() != others.checked_sub(1) {
                        return Err(format!("closing buffer {} selects {:?}", i, real.current_buffer_index()));
                    }
                }
            }
            if !at_once {
                let paths: Vec<Option<PathBuf>> = real.buffer_paths().iter().map(|p| p.map(|p| p.to_path_buf())).collect();
                if paths != (0..others).map(path).collect::<Vec<_>>() {
                    return Err(format!("{} buffers left, with paths {:?}", others, paths));
                }
                return Ok(());
            }
            let mut order: Vec<usize> = (0..n).collect();
            let mut current;
            macro_rules! agree {
                ($what:expr) => {
                    if real.current_buffer_index() != Some(current) || real.current_buffer_path() != path(order[current]).as_deref() {
                        return Err(format!("{} of {} buffers: {:?} with path {:?} is selected, expected {}", $what, order.len(), real.current_buffer_index(), real.current_buffer_path(), current));
                    }
                };
            }
            let all = |real: &mut Workspace, order: &[usize], what: &str| -> HResult {
                let paths = real.buffer_paths();
                if paths.len() != order.len() || paths.iter().zip(order).any(|(p, i)| *p != path(*i).as_deref()) {
                    return Err(format!("{}: the paths of {} buffers are wrong ({} reported)", what, order.len(), paths.len()));
                }
                Ok(())
            };
            all(&mut real, &order, "after adding")?;
            real.next_buffer();
            current = 0;
            agree!("next after the last");
            real.previous_buffer();
            current = n - 1;
            agree!("previous before the first");
            for _ in 0..n / 2 {
                real.previous_buffer();
                current -= 1;
                agree!("previous");
            }
            for _ in 0..3 {
                real.close_current_buffer();
                order.remove(current);
                current -= 1;
                agree!("closing");
            }
            all(&mut real, &order, "after closing")?;
            real.add_buffer(new(n + 1));
            current += 1;
            order.insert(current, n + 1);
            agree!("adding amid");
            if !ids.insert(id(&real)) {
                return Err(format!("the id {:?} is given again", id(&real)));
            }
            all(&mut real, &order, "after adding amid")?;
            // All the way to the end, and around.
            while current + 1 < order.len() {
                real.next_buffer();
                current += 1;
                agree!("next");
            }
            real.next_buffer();
            current = 0;
            agree!("around");
            real.close_current_buffer();
            order.remove(0);
            agree!("closing the first");
            all(&mut real, &order, "at the end")
        },
    )
}

pub fn c17(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        let depth = if thorough { 5 } else { 4 };
        v.push(Harness::new(
            "work-broad",
            format!("empty workspace; {} steps of {:?}; the selected buffer after each, then a tour of all buffers and all their histories", depth, WORK),
            move |ctx| {
                let ops: Vec<usize> = (0..WORK.len()).collect();
                working(ctx, 0, depth, &ops)
            },
        ));
        let depth = depth - 1;
        v.push(Harness::new(
            "work-prepared-broad",
            format!("three workspaces of two or three buffers with histories and open groups; {} steps of {:?}; as above", depth, WORK),
            move |ctx| {
                let ops: Vec<usize> = (0..WORK.len()).collect();
                let start = 1 + ctx.choose(3);
                working(ctx, start, depth, &ops)
            },
        ));
    }
    {
        let depth = if thorough { 5 } else { 4 };
        let ops = [0usize, 1, 4, 6, 7, 8, 10, 11, 12, 15];
        v.push(Harness::new(
            "work-prepared",
            format!("three workspaces of two or three buffers with histories and open groups; {} steps of {:?}; as above", depth, ops.iter().map(|i| WORK[*i]).collect::<Vec<_>>()),
            move |ctx| {
                let start = 1 + ctx.choose(3);
                working(ctx, start, depth, &ops)
            },
        ));
    }
    {
        let depth = if thorough { 9 } else { 7 };
        v.push(Harness::new(
            "ids",
            format!("{} steps of add, open, close, next: no id is ever given twice", depth),
            move |ctx| {
                let mut sim = Sim::new(ctx)?;
                write(&sim.dir.join("a"), "file a\nline two\n");
                for _ in 0..depth {
                    let op = *ctx.pick(&[0usize, 1, 4, 6]);
                    work(ctx, &mut sim, op)?;
                    sim.order(WORK[op])?;
                }
                sim.tour(ctx)
            },
        ));
    }
    {
        v.push(Harness::new(
            "remembered-columns",
            "two or three buffers, each cursor placed at every position of a ragged text, then every way of switching away and back (1 to 3 steps of next, previous, opening), then the cursor moved up or down: the remembered column is still known".to_string(),
            move |ctx| {
                let mut sim = Sim::new(ctx)?;
                let dir = sim.dir.clone();
                write(&dir.join("a"), "long line\n\nlonger line\nx");
                write(&dir.join("b.rs"), "fn b() {\n}\n");
                let n = 2 + ctx.choose(2);
                sim.open(&dir.join("a"), &dir.join("a"), "long line\n\nlonger line\nx")?;
                let l = Layout::of("long line\n\nlonger line\nx");
                let at = *ctx.pick(&l.all());
                let down = ctx.flag();
                sim.edit("move", |b, m| {
                    b.cursor.move_to(at);
                    m.cursor.move_to(&l, at);
                    if down {
                        b.cursor.move_down();
                        m.cursor.go(&l, crate::model::Move::Down);
                    }
                })?;
                for i in 1..n {
                    sim.add(&format!("other {}", i), None, true)?;
                }
                let steps = 1 + ctx.choose(3);
                for _ in 0..steps {
                    match ctx.choose(3) {
                        0 => sim.next(),
                        1 => sim.previous(),
                        _ => sim.open(&dir.join("b.rs"), &dir.join("b.rs"), "fn b() {\n}\n")?,
                    }
                }
                sim.open(&dir.join("a"), &dir.join("a"), "")?;
                sim.order("back again")?;
                sim.intact("back again")?;
                let m = *ctx.pick(&[crate::model::Move::Up, crate::model::Move::Down, crate::model::Move::LastLine]);
                sim.edit("move on", |b, mb| {
                    match m {
                        crate::model::Move::Up => b.cursor.move_up(),
                        crate::model::Move::Down => b.cursor.move_down(),
                        _ => b.cursor.move_to_last_line(),
                    }
                    mb.cursor.go(&l, m);
                })?;
                ctx.transitions(steps as u64 + 3);
                sim.record(ctx);
                sim.intact("moved on")
            },
        ));
    }
    v.push(very_many_buffers());
    v
}

// --- C07, seen from the workspace -----------------------------------------------------------

/// Histories in which every system call of opening, saving and reloading may fail.
pub fn faulty(thorough: bool) -> Harness {
    let depth = if thorough { 4 } else { 3 };
    const OPS: [&str; 10] = ["open a", "open b", "open missing", "save", "reload", "insert", "close", "next", "add empty", "change a outside"];
    Harness::new(
        "workspace-fault-histories",
        format!("workspaces of 0, 2 and 3 buffers; {} steps of {:?}, one system call at most answered by a fault in each open, save and reload; everything after each step, then a tour of all buffers and all their histories", depth, OPS),
        move |ctx| {
            let start = ctx.choose(3);
            let mut sim = Sim::new(ctx)?;
            let dir = sim.dir.clone();
            let files = [dir.join("a"), dir.join("b.rs"), dir.join("missing")];
            write(&files[0], "file \u{e9}\nline two\n");
            write(&files[1], "fn b() {}\n");
            let insert = |sim: &mut Sim| {
                let mark = format!("\u{6F22}{}", sim.tags);
                sim.edit("insert", |b, m| {
                    b.insert(mark.as_str());
                    m.insert(&mark);
                })
            };
            for op in [&[][..], &[0, 5, 1], &[1, 5, 0, 5, 8, 7]][start] {
                match op {
                    0 | 1 => {
                        let text = std::fs::read_to_string(&files[*op]).unwrap();
                        sim.open(&files[*op], &files[*op], &text)?
                    }
                    5 => insert(&mut sim)?,
                    7 => sim.next(),
                    _ => sim.add("", None, false)?,
                }
            }
            for step in 0..depth {
                let op = ctx.choose(OPS.len());
                match op {
                    0..=2 => {
                        let text = std::fs::read_to_string(&files[op]);
                        let (r, inj) = inject(ctx, 1, || sim.real.open_buffer(&files[op]));
                        ctx.log(|| format!("open with {:?}: {:?}", inj, r.as_ref().map_err(|e| e.to_string())));
                        match (r, text) {
                            (Ok(()), Ok(text)) => sim.opened(&files[op], &text)?,
                            (Ok(()), Err(_)) => return Err(format!("opening {:?} under {:?} succeeded", files[op], inj)),
                            (Err(e), Ok(_)) if !inj.fatal() => return Err(format!("opening under {:?} failed: {}", inj, e)),
                            _ => ctx.count("calls that reported an error"),
                        }
                    }
                    3 | 4 => {
                        let disk = |sim: &Sim| sim.current.and_then(|i| sim.list[i].path.clone()).and_then(|q| std::fs::read(q).ok());
                        if sim.current.is_none() {
                            continue;
                        }
                        let before = disk(&sim);
                        let text = before.clone().and_then(|d| String::from_utf8(d).ok());
                        let possible = if op == 3 { before.is_some() } else { text.is_some() };
                        let mut out = None;
                        sim.edit(OPS[op], |b, m| {
                            let (r, inj) = inject(ctx, 1, || if op == 3 { b.save().map_err(|e| e.to_string()) } else { b.reload().map_err(|e| e.to_string()) });
                            if r.is_ok() && op == 3 {
                                m.sync();
                            }
                            if let (Ok(()), 4, Some(text)) = (&r, op, &text) {
                                m.reload(text);
                            }
                            out = Some((r, inj));
                        })?;
                        let (r, inj) = out.unwrap();
                        ctx.log(|| format!("{} with {:?}: {:?}", OPS[op], inj, r));
                        match r {
                            Ok(()) if !possible => return Err(format!("{} under {:?} succeeded", OPS[op], inj)),
                            Ok(()) if op == 3 => {
                                let now = disk(&sim).map(|d| String::from_utf8_lossy(&d).into_owned());
                                let want = sim.list[sim.current.unwrap()].m.text.clone();
                                if now.as_ref() != Some(&want) {
                                    return Err(format!("save under {:?} reported success, the file holds {:?} instead of {:?}", inj, now, want));
                                }
                            }
                            Err(e) if possible && !inj.fatal() => return Err(format!("{} under {:?} failed: {}", OPS[op], inj, e)),
                            Err(_) => ctx.count("calls that reported an error"),
                            _ => (),
                        }
                    }
                    5 => insert(&mut sim)?,
                    6 => sim.close(),
                    7 => sim.next(),
                    8 => sim.add("", None, false)?,
                    _ => write(&files[0], &format!("changed outside {}\n", step)),
                }
                ctx.transition();
                ctx.log(|| format!("{} -> current {:?} of {}", OPS[op], sim.current, sim.list.len()));
                sim.record(ctx);
                sim.order(OPS[op])?;
                sim.intact(OPS[op])?;
            }
            sim.tour(ctx)
        },
    )
}

// --- C18 --------------------------------------------------------------------------------

/// Directories, files and links; each file with all the ways to spell it.
struct Tree {
    dir: PathBuf,
    /// Canonical path, content, spellings.
    files: Vec<(PathBuf, String, Vec<PathBuf>)>,
    bad: Vec<PathBuf>,
}

fn link(to: &Path, at: &Path) {
    let _ = std::os::unix::fs::symlink(to, at);
}

/// The same file, starting from the process's working directory.
pub fn relative(path: &Path) -> PathBuf {
    let cwd = std::env::current_dir().unwrap();
    let mut r = PathBuf::new();
    for _ in cwd.components().skip(1) {
        r.push("..");
    }
    r.join(path.strip_prefix("/").unwrap())
}

fn tree(scratch: &Path) -> Tree {
    let root = scratch.join("tree");
    let dir = root.join("ws");
    for d in ["ws/sub", "ws2", "out", "ws/deep/er"] {
        let _ = std::fs::create_dir_all(root.join(d));
    }
    link(&dir, &root.join("wslink"));
    link(Path::new("sub"), &dir.join("sublink"));
    link(Path::new("../out"), &dir.join("outlink"));
    link(Path::new("sub/b.rs"), &dir.join("blink"));
    link(Path::new("blink"), &dir.join("blinklink"));
    link(&root.join("out/c"), &dir.join("clink.txt"));
    link(&dir.join("a.txt"), &root.join("out/backlink"));
    link(Path::new("nowhere"), &dir.join("dangling"));
    link(Path::new("loop"), &dir.join("loop"));
    let s = |v: &[&str]| -> Vec<PathBuf> {
        let mut r: Vec<PathBuf> = v.iter().map(|x| PathBuf::from(format!("{}/{}", root.display(), x))).collect();
        let rel: Vec<PathBuf> = r.iter().take(2).map(|x| relative(x)).collect();
        r.extend(rel);
        r
    };
    let t = Tree {
        files: vec![
            (
                dir.join("a.txt"),
                "content a\n".into(),
                s(&["ws/a.txt", "out/backlink", "ws/./a.txt", "ws/sub/../a.txt", "ws//a.txt", "wslink/a.txt", "ws/sublink/../a.txt", "ws/outlink/backlink"]),
            ),
            (
                dir.join("sub/b.rs"),
                "fn b() {}\n".into(),
                s(&["ws/sub/b.rs", "ws/blink", "ws/blinklink", "ws/sublink/b.rs", "wslink/sublink/./b.rs"]),
            ),
            (
                root.join("out/c"),
                "content c".into(),
                s(&["out/c", "ws/clink.txt", "ws/outlink/c", "ws/../out/c"]),
            ),
            (root.join("ws2/d"), "content d\n".into(), s(&["ws2/d", "ws/../ws2/d"])),
        ],
        bad: ["ws/missing", "ws/sub", "ws/dangling", "ws/loop", "ws/a.txt/x", "ws/binary", ""]
            .iter()
            .map(|x| if x.is_empty() { PathBuf::new() } else { root.join(x) })
            .collect(),
        dir,
    };
    for f in &t.files {
        std::fs::write(&f.0, &f.1).unwrap();
    }
    std::fs::write(t.dir.join("binary"), [0x66, 0xff, 0x0a]).unwrap();
    t
}

fn workspace_at(t: &Tree, how: usize) -> Result<Workspace, String> {
    let root = t.dir.parent().unwrap();
    let d = match how {
        0 => t.dir.clone(),
        1 => root.join("wslink"),
        2 => root.join("ws/sub/.."),
        3 => relative(&t.dir),
        _ => PathBuf::from(format!("{}/", t.dir.display())),
    };
    Workspace::new(&d, None).map_err(|e| format!("no workspace for {:?}: {}", d, e))
}

fn open_tree(ctx: &mut Ctx, sim: &mut Sim, t: &Tree, k: usize, spelling: usize) -> HResult {
    let f = &t.files[k];
    let on_disk = std::fs::read_to_string(&f.0).unwrap();
    let sp = f.2[spelling].clone();
    let n = sim.list.len();
    sim.open(&sp, &f.0, &on_disk)?;
    ctx.transition();
    ctx.count(if sim.list.len() > n { "opened anew" } else { "found open" });
    ctx.log(|| format!("open {:?} -> current {:?} of {}", sp, sim.current, sim.list.len()));
    sim.order(&format!("opening {:?}", sp))
}

pub fn c18(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    {
        v.push(Harness::new(
            "every-two-spellings",
            "4 files (inside, in a subdirectory, outside, in a directory whose name starts like the workspace's) with 4 to 10 spellings each (relative, dot segments, doubled slashes, links to the file, its directory, the workspace, and chains); the workspace itself given in 5 ways; open one spelling, or give it to a new buffer and save that, edit or not, 0 to 2 other buffers (named or untitled) in between, open another".to_string(),
            move |ctx| {
                let t = tree(ctx.scratch);
                let real = workspace_at(&t, ctx.choose(5))?;
                let mut sim = Sim { real, list: Vec::new(), current: None, ids: Vec::new(), tags: 0, calls: Calls::default(), dir: t.dir.clone() };
                let k = ctx.choose(t.files.len());
                let (s1, s2) = (ctx.choose(t.files[k].2.len()), ctx.choose(t.files[k].2.len()));
                let between = ctx.choose(4);
                let edited = ctx.flag();
                let given = ctx.flag();
                ctx.state(&(k, s1, s2, between, edited, given));
                if given {
                    let sp = t.files[k].2[s1].clone();
                    sim.add("", Some(sp), false)?;
                    let content = t.files[k].1.clone();
                    let mut failed = None;
                    sim.edit("fill and save", |b, m| {
                        b.insert(content.as_str());
                        m.insert(&content);
                        failed = b.save().err();
                        m.sync();
                    })?;
                    if let Some(e) = failed {
                        return Err(format!("saving failed: {}", e));
                    }
                } else {
                    open_tree(ctx, &mut sim, &t, k, s1)?;
                }
                if edited {
                    sim.edit("insert", |b, m| {
                        b.insert("unsaved ");
                        m.insert("unsaved ");
                    })?;
                }
                match between {
                    0 => (),
                    1 => sim.add("other", None, false)?,
                    2 => sim.add("", None, false)?,
                    _ => {
                        open_tree(ctx, &mut sim, &t, (k + 1) % 4, 0)?;
                        open_tree(ctx, &mut sim, &t, (k + 2) % 4, 1)?;
                        sim.previous();
                    }
                }
                open_tree(ctx, &mut sim, &t, k, s2)?;
                sim.intact("opened again")?;
                sim.tour(ctx)
            },
        ));
    }
    {
        let depth = if thorough { 5 } else { 4 };
        v.push(Harness::new(
            "opening-histories",
            format!("{} steps of: open one of 8 spellings of 4 files, a path that cannot be opened (missing, directory, dangling link, link loop, below a file, not text, empty; one per step), add an untitled empty buffer, edit, undo, save, save under another file's path in canonical or other spelling, an outside change of the file, close, next", depth),
            move |ctx| {
                let t = tree(ctx.scratch);
                let real = workspace_at(&t, 0)?;
                let mut sim = Sim { real, list: Vec::new(), current: None, ids: Vec::new(), tags: 0, calls: Calls::default(), dir: t.dir.clone() };
                let opens = [(0, 0), (0, 1), (1, 1), (1, 8 - 1), (2, 0), (2, 2), (3, 0), (0, 8)];
                for step in 0..depth {
                    let c = ctx.choose(opens.len() + 10);
                    if c < opens.len() {
                        let (k, s) = opens[c];
                        let s = s.min(t.files[k].2.len() - 1);
                        open_tree(ctx, &mut sim, &t, k, s)?;
                    } else {
                        match c - opens.len() {
                            0 => {
                                let q = &t.bad[step % t.bad.len()];
                                if sim.real.open_buffer(q).is_ok() {
                                    return Err(format!("opening {:?} succeeded", q));
                                }
                                ctx.count("refused");
                            }
                            1 => sim.edit("insert", |b, m| {
                                b.insert("e");
                                m.insert("e");
                            })?,
                            2 => {
                                let mut failed = None;
                                sim.edit("save", |b, m| match (b.path.is_some(), b.save()) {
                                    (true, Ok(())) => m.sync(),
                                    (true, Err(e)) => failed = Some(e.to_string()),
                                    (false, Ok(())) => failed = Some("a buffer without path was saved".to_string()),
                                    (false, Err(_)) => (),
                                })?;
                                if let Some(e) = failed {
                                    return Err(format!("saving failed: {}", e));
                                }
                            }
                            x @ (3 | 9) => {
                                // The buffer becomes file d.
                                if sim.list.iter().any(|e| e.path.as_ref().map_or(false, |q| q.ends_with("d"))) {
                                    return Ok(());
                                }
                                let q = if x == 3 { t.files[3].0.clone() } else { t.files[3].2[1 + step % 2].clone() };
                                let Some(e) = sim.entry() else { return Ok(()) };
                                e.path = Some(q.clone());
                                e.m.has_path = true;
                                let mut failed = None;
                                sim.edit("save as", |b, m| {
                                    b.path = Some(q);
                                    match b.save() {
                                        Ok(()) => m.sync(),
                                        Err(e) => failed = Some(e),
                                    }
                                })?;
                                if let Some(e) = failed {
                                    return Err(format!("saving failed: {}", e));
                                }
                            }
                            4 => std::fs::write(&t.files[0].0, format!("changed outside {}\n", step)).unwrap(),
                            5 => sim.close(),
                            6 => sim.next(),
                            7 => sim.add("", None, false)?,
                            _ => sim.edit("undo", |b, m| {
                                b.undo();
                                m.undo();
                            })?,
                        }
                        ctx.transition();
                        ctx.log(|| format!("step {} -> current {:?} of {}", c, sim.current, sim.list.len()));
                    }
                    sim.record(ctx);
                    sim.order("opening history")?;
                    sim.intact("opening history")?;
                }
                sim.tour(ctx)
            },
        ));
    }
    v.push(Harness::new(
        "failed-opens",
        "each of 7 paths that cannot be opened, in workspaces of 0 to 3 buffers, each of them selected, edited or not: an error, and everything as it was".to_string(),
        move |ctx| {
            let t = tree(ctx.scratch);
            let real = workspace_at(&t, 0)?;
            let mut sim = Sim { real, list: Vec::new(), current: None, ids: Vec::new(), tags: 0, calls: Calls::default(), dir: t.dir.clone() };
            let n = ctx.choose(4);
            for k in 0..n {
                if k > 0 && ctx.flag() {
                    sim.add("", None, false)?;
                } else {
                    open_tree(ctx, &mut sim, &t, k, 0)?;
                }
                if ctx.flag() {
                    sim.edit("insert", |b, m| {
                        b.insert("e");
                        m.insert("e");
                    })?;
                }
            }
            let turns = ctx.choose(n.max(1));
            for _ in 0..turns {
                sim.next();
            }
            let bad = ctx.pick(&t.bad).clone();
            ctx.state(&(n, turns, &bad));
            for _ in 0..2 {
                if sim.real.open_buffer(&bad).is_ok() {
                    return Err(format!("opening {:?} succeeded", bad));
                }
                ctx.transition();
                ctx.count("refused");
                sim.order("after a failed open")?;
                sim.intact("after a failed open")?;
            }
            // What could not be opened can be, once it is there.
            if bad.ends_with("missing") {
                std::fs::write(&bad, "no longer missing").unwrap();
                let r = sim.open(&bad, &bad, "no longer missing");
                let _ = std::fs::remove_file(&bad);
                r?;
                sim.order("opened after all")?;
            }
            sim.tour(ctx)
        },
    ));
    {
        let names: Vec<&'static str> = vec![
            "plain", ".hidden", "two.dots.rs", "no_extension.", " leading", "trailing ", "\u{e9}\u{301}\u{1F469}", "new\nline", "-dash", "..double", "a", "ws", "CON",
            "*?[", "\"quoted\"", "back\\slash", "tab\t", "~", "$HOME", "%41", "very/deep/in/side", "f:1", "f:1:2", "file:f", "file:/f", "f#L1", "f?x", "f;1", "f@2", "f~1", "f.gz", "f.zip/in", "-", "--", "nul", "C:f",
        ];
        let mut names: Vec<PathBuf> = names.iter().map(PathBuf::from).collect();
        for n in [&b"not\xff-text"[..], b"\xff", b"caf\xe9.rs", b"d\xff/f", b"\xf0\x9f\x91"] {
            names.push(PathBuf::from(std::ffi::OsString::from_vec(n.to_vec())));
        }
        v.push(Harness::new(
            "every-kind-of-name",
            format!("files named {:?}, inside the workspace, beside it, and in a directory beside it that starts with its name: opened absolutely, opened again relatively, reported path", names),
            move |ctx| {
                let root = ctx.scratch.join("names");
                let dir = root.join("ws");
                let _ = std::fs::create_dir_all(&dir);
                let name = ctx.pick(&names).clone();
                let text = format!("{:?}", name);
                let place = ctx.choose(4);
                let base = match place {
                    0 => dir.clone(),
                    1 => root.join("beside"),
                    2 => root.join("ws2"),
                    _ => dir.join("ws"),
                };
                let path = base.join(&name);
                write(&path, &text);
                let real = Workspace::new(&dir, None).map_err(|e| e.to_string())?;
                let mut sim = Sim { real, list: Vec::new(), current: None, ids: Vec::new(), tags: 0, calls: Calls::default(), dir };
                ctx.state(&(&name, place));
                sim.add("first", None, false)?;
                sim.open(&path, &path, &text)?;
                sim.order("opened")?;
                sim.previous();
                sim.open(&relative(&path), &path, &text)?;
                sim.order("opened relatively")?;
                sim.add("last", None, false)?;
                sim.open(&path, &path, &text)?;
                sim.order("opened again")?;
                ctx.transitions(6);
                let r = sim.tour(ctx);
                let _ = std::fs::remove_dir_all(&root);
                r
            },
        ));
    }
    {
        // Pairs of names that are nearly the same, and mean different files.
        let groups: Vec<Vec<&'static str>> = vec![
            vec!["name.rs", "Name.rs", "name.RS", "NAME.rs", "name.rs ", " name.rs", "name.rs.", "name..rs", "name", "name.rs~", ".name.rs", "name.rst", "nam.rs", "sub/name.rs", "Sub/name.rs", "name.rs\n", "name%2Ers", "name\\.rs"],
            vec!["\u{e9}", "e\u{301}", "E\u{301}", "\u{c9}", "e", "\u{c3}\u{a9}", "\u{ff45}\u{301}"],
            vec!["\u{212a}", "K", "k", "\u{df}", "ss", "\u{1e9e}", "\u{130}", "i", "\u{131}", "I", "\u{fb01}", "fi"],
            vec!["a", "a\u{200b}", "\u{feff}a", "a\u{fe0f}", "a\t", "a\u{a0}", "a\u{2028}", "ab", "aa", "a/b", "ab/a"],
        ];
        let mut groups: Vec<Vec<std::ffi::OsString>> = groups.into_iter().map(|g| g.into_iter().map(|n| n.into()).collect()).collect();
        groups.push(
            [&b"f"[..], b"f\xff", b"f\xfe", b"f\xff\xff", b"\xfff", b"f\xef\xbf\xbd", b"f\xc3\xbf", b"f\xc3", b"f?", b"d\xff/f", b"d\xfe/f", b"d\xef\xbf\xbd/f", b"f\xed\xa0\x80", b"f\xed\xa0\x81"]
                .iter()
                .map(|n| std::ffi::OsString::from_vec(n.to_vec()))
                .collect(),
        );
        let far = format!("{}/", "d".repeat(200)).repeat(16);
        groups.push(
            [
                format!("{}a", "x".repeat(254)),
                format!("{}b", "x".repeat(254)),
                format!("a{}", "x".repeat(254)),
                format!("{}a{}", "x".repeat(127), "x".repeat(127)),
                "x".repeat(255),
                "x".repeat(254),
                format!("{}/{}", "x".repeat(127), "x".repeat(127)),
                format!("{}a", far),
                format!("{}b", far),
                format!("e{}a", far),
                far[..far.len() - 2].to_string(),
            ]
            .iter()
            .map(|n| n.into())
            .collect(),
        );
        v.push(Harness::new(
            "nearly-equal-names",
            format!("every two of {:?} and of 11 names and paths of up to 3300 bytes, of the same group: opened in turn, edited, opened again, with one closed in between or not", &groups[..5]),
            move |ctx| {
                let group = ctx.pick(&groups).clone();
                let (i, j) = (ctx.choose(group.len()), ctx.choose(group.len()));
                let close = ctx.flag();
                if i == j {
                    return Ok(());
                }
                let dir = ctx.scratch.join("similar");
                let _ = std::fs::remove_dir_all(&dir);
                let paths = [dir.join(&group[i]), dir.join(&group[j])];
                // Where one would be the directory of the other, they cannot both exist.
                if paths[0].starts_with(&paths[1]) || paths[1].starts_with(&paths[0]) {
                    return Ok(());
                }
                for (k, path) in paths.iter().enumerate() {
                    write(path, &format!("content {}", k));
                }
                let real = Workspace::new(&dir, None).map_err(|e| e.to_string())?;
                let mut sim = Sim { real, list: Vec::new(), current: None, ids: Vec::new(), tags: 0, calls: Calls::default(), dir: dir.clone() };
                ctx.state(&(&paths, close));
                for (k, path) in paths.iter().enumerate() {
                    let content = format!("content {}", k);
                    sim.open(path, path, &content)?;
                    sim.order("opened")?;
                    sim.edit("insert", |b, m| {
                        b.insert("edited ");
                        m.insert("edited ");
                    })?;
                }
                if close {
                    sim.close();
                }
                for (k, path) in paths.iter().enumerate() {
                    sim.open(&relative(path), path, &format!("content {}", k))?;
                    sim.order("opened again")?;
                }
                ctx.transitions(7);
                let r = sim.tour(ctx);
                let _ = std::fs::remove_dir_all(&dir);
                r
            },
        ));
    }
    v.push(crate::names::opened(3));
    {
        let depth = if thorough { 5 } else { 4 };
        v.push(Harness::new(
            "changing-tree",
            format!("{} steps of: open a file absolutely, by dot segments, through a link, relative to the working directory; let the link point to another file, rename the file, remove or recreate it, rename a directory, make a second file a link to the first, change the working directory, edit, save, close", depth),
            move |ctx| changing_tree(ctx, depth),
        ));
    }
    v.push(crate::life::moved_workspace(thorough));
    v.push(crate::life::more_than_handles());
    v
}

/// Keeps the working directory of this thread apart from that of others, for as long as it is
/// changed. Where the system does not allow that, it stays what it is.
pub struct Elsewhere(PathBuf);
impl Elsewhere {
    pub fn new() -> Option<Elsewhere> {
        thread_local! { static OWN: bool = unsafe { libc::unshare(libc::CLONE_FS) == 0 }; }
        if OWN.with(|o| *o) {
            std::env::current_dir().ok().map(Elsewhere)
        } else {
            None
        }
    }
}
impl Drop for Elsewhere {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}

struct Opened {
    path: PathBuf,
    text: String,
    modified: bool,
}

fn changing_tree(ctx: &mut Ctx, depth: usize) -> HResult {
    let root = ctx.scratch.join("changing");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(root.join("dir")).unwrap();
    let (one, two, three, lnk) = (root.join("one"), root.join("two"), root.join("three"), root.join("link"));
    std::fs::write(&one, "one").unwrap();
    std::fs::write(&two, "two").unwrap();
    std::fs::write(root.join("dir/one"), "one in dir").unwrap();
    link(Path::new("one"), &lnk);
    let away = Elsewhere::new();
    let here = |rel: &str| if away.is_some() { PathBuf::from(rel) } else { relative(&root.join(rel)) };
    if away.is_some() {
        std::env::set_current_dir(&root).unwrap();
    }
    let mut inside = false;
    let mut w = Workspace::new(&if away.is_some() { PathBuf::from(".") } else { root.clone() }, None).map_err(|e| e.to_string())?;
    let mut list: Vec<Opened> = Vec::new();
    let mut current: Option<usize> = None;
    for step in 0..depth {
        let c = ctx.choose(15);
        let mut what = String::new();
        match c {
            0..=5 => {
                let path = match c {
                    0 => one.clone(),
                    1 => two.clone(),
                    2 => lnk.clone(),
                    3 => here("one"),
                    4 => here("link"),
                    _ => root.join("dir/../one"),
                };
                what = format!("open {:?}", path);
                let canonical = std::fs::canonicalize(&path).ok();
                let content = std::fs::read_to_string(&path).ok();
                let r = w.open_buffer(&path);
                ctx.transition();
                match (canonical, content) {
                    (Some(canonical), Some(content)) => {
                        if let Err(e) = r {
                            return Err(format!("{} failed: {}", what, e));
                        }
                        let is = |o: &Opened| o.path == canonical || std::fs::canonicalize(&o.path).ok().as_ref() == Some(&canonical);
                        if list.iter().any(is) {
                            // Changes outside may have made one file of several.
                            let at = w.current_buffer_index();
                            if !at.and_then(|i| list.get(i)).map_or(false, is) || w.buffer_paths().len() != list.len() {
                                return Err(format!("{} is open as {:?}, but buffer {:?} of {} was selected", what, list.iter().position(is), at, w.buffer_paths().len()));
                            }
                            current = at;
                            ctx.count("found open");
                        } else {
                            let at = current.map_or(0, |i| i + 1);
                            list.insert(at, Opened { path: canonical, text: content, modified: false });
                            current = Some(at);
                            ctx.count("opened anew");
                        }
                    }
                    _ => {
                        // Whether what is open can be selected while its file is gone is left open.
                        if r.is_ok() {
                            let at = w.current_buffer_index();
                            if !at.and_then(|i| list.get(i)).map_or(false, |o| o.path == path) || w.buffer_paths().len() != list.len() {
                                return Err(format!("{} succeeded, selecting {:?} of {:?}", what, at, w.buffer_paths()));
                            }
                            current = at;
                        } else {
                            ctx.count("refused");
                        }
                    }
                }
            }
            6 => {
                let to = if std::fs::read_link(&lnk).unwrap() == Path::new("one") { "two" } else { "one" };
                std::fs::remove_file(&lnk).unwrap();
                link(Path::new(to), &lnk);
            }
            7 => {
                let (from, to) = if one.exists() { (&one, &three) } else { (&three, &one) };
                let _ = std::fs::rename(from, to);
            }
            8 => {
                if one.exists() {
                    std::fs::remove_file(&one).unwrap();
                } else {
                    std::fs::write(&one, format!("one again {}", step)).unwrap();
                }
            }
            9 => {
                let linked = std::fs::symlink_metadata(&two).map_or(false, |m| m.file_type().is_symlink());
                let _ = std::fs::remove_file(&two);
                if linked {
                    std::fs::write(&two, "two again").unwrap();
                } else {
                    link(Path::new("one"), &two);
                }
            }
            10 => {
                let (a, b) = (root.join("dir"), root.join("dir2"));
                let (from, to) = if a.exists() { (&a, &b) } else { (&b, &a) };
                std::fs::rename(from, to).unwrap();
            }
            11 => {
                if away.is_none() {
                    return Ok(());
                }
                ctx.count("changes of the working directory");
                inside = !inside;
                let dir = if root.join("dir").exists() { "dir" } else { "dir2" };
                std::env::set_current_dir(if inside { root.join(dir) } else { root.clone() }).unwrap();
            }
            12 => {
                let (Some(b), Some(i)) = (w.current_buffer.as_mut(), current) else { return Ok(()) };
                b.insert("e");
                list[i].text.insert(0, 'e');
                list[i].modified = true;
            }
            13 => {
                let (Some(b), Some(i)) = (w.current_buffer.as_mut(), current) else { return Ok(()) };
                // Where it goes is what its path means now; that may be nowhere.
                match b.save() {
                    Ok(()) => {
                        list[i].modified = false;
                        let held = std::fs::read_to_string(&list[i].path).ok();
                        if held.as_ref() != Some(&list[i].text) {
                            return Err(format!("saved {:?} to {:?}, which holds {:?}", list[i].text, list[i].path, held));
                        }
                    }
                    Err(e) => {
                        if list[i].path.parent().map_or(false, |d| d.exists()) && std::fs::symlink_metadata(&list[i].path).is_err() {
                            return Err(format!("saving to {:?} failed: {}", list[i].path, e));
                        }
                    }
                }
            }
            _ => {
                let Some(i) = current else { return Ok(()) };
                w.close_current_buffer();
                list.remove(i);
                current = if list.is_empty() { None } else { Some(i.saturating_sub(1)) };
            }
        }
        ctx.transition();
        ctx.log(|| format!("step {} {} -> current {:?} of {:?}", c, what, current, list.iter().map(|o| (&o.path, &o.text)).collect::<Vec<_>>()));
        if !ctx.fresh() && !ctx.tracing() {
            continue;
        }
        ctx.state(&(list.iter().map(|o| (o.path.clone(), o.text.clone(), o.modified)).collect::<Vec<_>>(), current, inside));
        let shown: Vec<Option<PathBuf>> = w.buffer_paths().into_iter().map(|q| q.map(|q| q.to_path_buf())).collect();
        let wanted: Vec<Option<PathBuf>> = list.iter().map(|o| Some(o.path.strip_prefix(&root).unwrap().to_path_buf())).collect();
        if shown != wanted || w.current_buffer_index() != current {
            return Err(format!("after step {} {}: paths {:?}, current {:?}; expected {:?}, {:?}", c, what, shown, w.current_buffer_index(), wanted, current));
        }
        if w.current_buffer_path().map(|q| q.to_path_buf()) != current.and_then(|i| wanted[i].clone()) {
            return Err(format!("the current path is {:?}, expected {:?}", w.current_buffer_path(), current.map(|i| &wanted[i])));
        }
    }
    for _ in 0..list.len() {
        let (Some(b), Some(i)) = (w.current_buffer.as_ref(), current) else { return Err("no current buffer".into()) };
        let o = &list[i];
        if b.data() != o.text || b.modified() != o.modified || b.path.as_ref() != Some(&o.path) {
            return Err(format!("buffer {} holds {:?} (modified: {}) at {:?}, expected {:?} ({}) at {:?}", i, b.data(), b.modified(), b.path, o.text, o.modified, o.path));
        }
        w.next_buffer();
        current = Some((i + 1) % list.len());
    }
    Ok(())
}

// --- C19 --------------------------------------------------------------------------------

/// The last registered definition that lists `name`, whatever the case.
fn registered(set: &SyntaxSet, name: &str) -> Option<String> {
    let mut found = None;
    for s in set.syntaxes() {
        if s.file_extensions.iter().any(|e| e.to_ascii_lowercase() == name.to_ascii_lowercase()) {
            found = Some(s.name.clone());
        }
    }
    found
}

/// The rule as stated.
fn expected(set: &SyntaxSet, path: Option<&Path>) -> String {
    let plain = "Plain Text".to_string();
    let Some(name) = path.and_then(|q| q.file_name()) else { return plain };
    // Either part may be no text, and says nothing then.
    let name = name.as_bytes();
    let extension = match name.iter().rposition(|b| *b == b'.') {
        Some(i) if i > 0 && i + 1 < name.len() => std::str::from_utf8(&name[i + 1..]).ok(),
        _ => None,
    };
    let Some(text) = extension.or(std::str::from_utf8(name).ok()) else { return plain };
    registered(set, text).unwrap_or(plain)
}

fn extensions(set: &SyntaxSet) -> Vec<String> {
    let mut v: Vec<String> = set.syntaxes().iter().flat_map(|s| s.file_extensions.clone()).collect();
    v.sort();
    v.dedup();
    v
}

fn syntax_name(w: &Workspace) -> Option<String> {
    w.current_buffer.as_ref().and_then(|b| b.syntax_definition.as_ref()).map(|s| s.name.clone())
}

const SHAPES: usize = 14;
fn shaped(x: &str, shape: usize) -> String {
    match shape {
        0 => format!("x.{}", x),
        1 => x.to_string(),
        2 => format!(".{}", x),
        3 => format!("x.{}", x.to_uppercase()),
        4 => x.to_uppercase(),
        5 => format!("x.{}.unknownext", x),
        6 => format!("x.rs.{}", x),
        7 => format!("{}.rs", x),
        8 => format!("{}.", x),
        9 => format!("x.{}x", x),
        10 => format!("d.{}/plain", x),
        11 => format!("{}.unknownext", x),
        12 => format!(".{}.py", x),
        _ => format!("{}x", x),
    }
}

/// What files may begin with; none of it bears on their syntax.
const CONTENTS: [&str; 10] = [
    "text",
    "",
    "#!/bin/bash\necho\n",
    "#!/usr/bin/env python\n",
    "#!/usr/bin/ruby -w",
    "<?xml version=\"1.0\"?>\n<a/>",
    "<?php echo 1; ?>",
    "-*- mode: ruby -*-\n",
    "{\"a\": 1}\n",
    "<!DOCTYPE html>\r\n<html>\n# vim: ft=c\n",
];

const USER: &str = "%YAML 1.2\n---\nname: User Made\nfile_extensions: [usr, Userfile, py]\nscope: source.usr\ncontexts:\n  main:\n    - match: '[a-z]+'\n      scope: word.usr\n";
const USER2: &str = "%YAML 1.2\n---\nname: Other Made\nfile_extensions: [oth, .othrc, c.d]\nscope: source.oth\ncontexts:\n  main:\n    - match: '[0-9]+'\n      scope: number.oth\n";

fn workspace_with(ctx: &Ctx, user: usize) -> Result<Workspace, String> {
    let dir = layout(ctx.scratch);
    let defs = ctx.scratch.join("defs");
    let _ = std::fs::remove_dir_all(&defs);
    write(&defs.join("user.sublime-syntax"), USER);
    write(&defs.join("nested/other.sublime-syntax"), USER2);
    write(&defs.join("README"), "not a definition");
    Workspace::new(&dir, if user == 1 { Some(&defs) } else { None }).map_err(|e| format!("no workspace: {}", e))
}

pub fn c19(thorough: bool) -> Vec<Harness> {
    let mut v = Vec::new();
    v.push(Harness::new(
        "every-extension",
        format!("every extension and file name known to the bundled definitions, and 12 others, in {} name shapes; buffers and files with {} contents, most of them telling another language; with and without a folder of user definitions (one taking over an extension); buffer added, file opened, path changed and syntax refreshed; with and without a preset definition", SHAPES, CONTENTS.len()),
        move |ctx| {
            let user = ctx.choose(2);
            let shape = ctx.choose(SHAPES);
            let content = *ctx.pick(&CONTENTS);
            let holding = |path: Option<PathBuf>| {
                let mut b = Buffer::new();
                if !content.is_empty() {
                    b.insert(content);
                }
                b.path = path;
                b
            };
            let mut w = workspace_with(ctx, user)?;
            let mut names = extensions(&w.syntax_set);
            for n in ["usr", "userfile", "oth", "unknown", "", "\u{e9}", "r\u{15f}", "rs ", " rs", "rs~", "Plain Text", "Rust"] {
                names.push(n.to_string());
            }
            if user == 1 && registered(&w.syntax_set, "usr").as_deref() != Some("User Made") {
                return Err("the user-supplied definition is not part of the workspace's set".into());
            }
            let ruby = w.syntax_set.find_syntax_by_name("Ruby").cloned();
            let set = w.syntax_set.clone();
            let dir = w.path.join("named");
            for n in &names {
                let name = shaped(n, shape);
                if name.is_empty() || name.starts_with('/') || name == "." || name == ".." || name.ends_with('/') {
                    continue;
                }
                let path = dir.join(&name);
                let want = expected(&set, Some(&path));
                ctx.state(&(user, &name, content));
                ctx.count(if want == "Plain Text" { "plain" } else { "special" });
                // Added with the path.
                w.add_buffer(holding(Some(path.clone())));
                check_name(&w, &want, &format!("adding a buffer for {:?}", path))?;
                // Added with a definition of its own.
                let mut b = holding(Some(path.clone()));
                b.syntax_definition = ruby.clone();
                w.add_buffer(b);
                check_name(&w, "Ruby", &format!("adding a buffer for {:?} that has a definition", path))?;
                // Refreshed explicitly.
                w.update_current_syntax().map_err(|e| format!("refreshing failed: {}", e))?;
                check_name(&w, &want, &format!("refreshing the syntax for {:?}", path))?;
                // The other buffer is untouched by all that; give it another path first.
                w.previous_buffer();
                check_name(&w, &want, "the other buffer")?;
                w.current_buffer.as_mut().unwrap().path = None;
                w.update_current_syntax().map_err(|e| format!("refreshing failed: {}", e))?;
                check_name(&w, "Plain Text", "refreshing after the path is gone")?;
                // Saying what it was before, and what it holds by then, means nothing.
                w.current_buffer.as_mut().unwrap().path = Some(path.clone());
                w.current_buffer.as_mut().unwrap().insert("<?php\n");
                w.update_current_syntax().map_err(|e| format!("refreshing failed: {}", e))?;
                check_name(&w, &want, "refreshing after the path is back")?;
                w.next_buffer();
                check_name(&w, &want, "the buffer that was not refreshed")?;
                w.close_current_buffer();
                w.close_current_buffer();
                // Opened from a file.
                if std::fs::create_dir_all(path.parent().unwrap()).is_ok() && std::fs::write(&path, content).is_ok() {
                    let canonical = path.canonicalize().unwrap();
                    w.open_buffer(&path).map_err(|e| format!("opening {:?} failed: {}", path, e))?;
                    check_name(&w, &expected(&set, Some(&canonical)), &format!("opening {:?}", path))?;
                    w.current_buffer.as_mut().unwrap().syntax_definition = ruby.clone();
                    w.open_buffer(&path).map_err(|e| e.to_string())?;
                    check_name(&w, "Ruby", "opening a buffer that is open")?;
                    w.close_current_buffer();
                }
                ctx.transitions(9);
            }
            let _ = std::fs::remove_dir_all(&dir);
            Ok(())
        },
    ));
    v.push(Harness::new(
        "special-paths",
        "buffers without path, and with paths that have no usable file name (empty, root, dot segments) or one that is not UTF-8; links opened under another name than their target's".to_string(),
        move |ctx| {
            let mut w = workspace_with(ctx, ctx.worker % 2)?;
            let set = w.syntax_set.clone();
            let paths: [Option<&[u8]>; 20] = [
                None,
                Some(b""),
                Some(b"/"),
                Some(b".."),
                Some(b"."),
                Some(b"a/.."),
                Some(b"/x/."),
                Some(b"d.rs/"),
                Some(b"relative.rs"),
                Some(b"../up.py"),
                Some(b"d.rs/x"),
                Some(b"x\xff.rs"),
                Some(b"x.rs\xff"),
                Some(b"\xff"),
                Some(b"\xff.rs/Makefile"),
                Some(b"Makefile\xff"),
                Some(b"Makefile.\xff"),
                Some(b"\xffMakefile.d"),
                Some(b".rs\xff.rs"),
                Some(b"\xe9\xcc.py"),
            ];
            let q = ctx.pick(&paths).map(std::ffi::OsStr::from_bytes);
            ctx.state(&q);
            let mut b = Buffer::new();
            b.path = q.map(PathBuf::from);
            let want = expected(&set, q.map(Path::new));
            w.add_buffer(b);
            check_name(&w, &want, &format!("adding a buffer for {:?}", q))?;
            w.update_current_syntax().map_err(|e| e.to_string())?;
            check_name(&w, &want, &format!("refreshing for {:?}", q))?;
            // Where the name can be given to a file, opening that agrees.
            if let Some(name) = q.filter(|n| n.as_bytes().iter().any(|b| *b > 0x7f) && !n.as_bytes().contains(&b'/')) {
                let at = w.path.join(name);
                write(&at, "text");
                w.open_buffer(&at).map_err(|e| format!("opening {:?}: {}", at, e))?;
                check_name(&w, &want, &format!("opening {:?}", at))?;
                w.close_current_buffer();
            }
            // A link's buffer is its target's.
            let d = w.path.clone();
            write(&d.join("target.rb"), "x = 1\n");
            let _ = std::fs::remove_file(d.join("link.rs"));
            link(&d.join("target.rb"), &d.join("link.rs"));
            w.open_buffer(&d.join("link.rs")).map_err(|e| e.to_string())?;
            check_name(&w, "Ruby", "opening a link")?;
            ctx.transitions(3);
            Ok(())
        },
    ));
    {
        let most = if thorough { 24 } else { 21 };
        v.push(Harness::new(
            "syntax-sizes",
            format!("buffers and files of 0, and of 2^k-1, 2^k and 2^k+1 bytes, k up to {}, in one line, short lines, or empty lines; with the extension of a definition, the name of one, and neither", most),
            move |ctx| {
                let mut w = workspace_with(ctx, 0)?;
                let k = ctx.choose(most + 1);
                let bytes = ((1usize << k) + ctx.choose(3)).saturating_sub(1);
                let unit = ["x", "let a = 1;\n", "\n"][ctx.choose(3)];
                let name = ["big.rs", "Makefile", "big.unknown"][ctx.choose(3)];
                let text: String = unit.chars().cycle().take(bytes).collect();
                ctx.state(&(bytes, unit, name));
                let path = w.path.join(name);
                let want = expected(&w.syntax_set, Some(&path));
                let mut b = Buffer::new();
                b.path = Some(path.clone());
                b.insert(text.as_str());
                w.add_buffer(b);
                check_name(&w, &want, &format!("adding {} bytes for {:?}", bytes, name))?;
                w.current_buffer.as_mut().unwrap().syntax_definition = None;
                w.update_current_syntax().map_err(|e| e.to_string())?;
                check_name(&w, &want, &format!("refreshing {} bytes for {:?}", bytes, name))?;
                w.close_current_buffer();
                write(&path, &text);
                w.open_buffer(&path).map_err(|e| e.to_string())?;
                check_name(&w, &want, &format!("opening {} bytes as {:?}", bytes, name))?;
                let _ = std::fs::remove_file(&path);
                ctx.transitions(3);
                Ok(())
            },
        ));
        let depth = if thorough { 5 } else { 4 };
        v.push(Harness::new(
            "syntax-histories",
            format!("{} steps of: add (no path, .rs, preset), open .rb, change the path to .py or none, drop the definition, refresh, next, close; the definition, and tokenizing, after each", depth),
            move |ctx| {
                let dir = layout(ctx.scratch);
                write(&dir.join("f.rb"), "def x\n");
                let mut w = Workspace::new(&dir, None).map_err(|e| e.to_string())?;
                // (syntax name, path)
                let mut list: Vec<(Option<String>, Option<PathBuf>)> = Vec::new();
                let mut cur: Option<usize> = None;
                let preset = w.syntax_set.find_syntax_by_name("JSON").cloned();
                for _ in 0..depth {
                    let c = ctx.choose(10);
                    match c {
                        0..=2 => {
                            let mut b = Buffer::new();
                            b.insert("let a = 1;\n# b\n");
                            let mut path = None;
                            if c > 0 {
                                path = Some(dir.join("n.rs"));
                            }
                            b.path = path.clone();
                            if c == 2 {
                                b.syntax_definition = preset.clone();
                            }
                            w.add_buffer(b);
                            let at = cur.map_or(0, |i| i + 1);
                            list.insert(at, (Some(["Plain Text", "Rust", "JSON"][c].into()), path));
                            cur = Some(at);
                        }
                        3 => {
                            let q = dir.join("f.rb");
                            w.open_buffer(&q).map_err(|e| e.to_string())?;
                            if cur.map_or(true, |i| list[i].1.as_ref() != Some(&q)) {
                                match list.iter().position(|e| e.1.as_ref() == Some(&q)) {
                                    Some(i) => cur = Some(i),
                                    None => {
                                        let at = cur.map_or(0, |i| i + 1);
                                        list.insert(at, (Some("Ruby".into()), Some(q)));
                                        cur = Some(at);
                                    }
                                }
                            }
                        }
                        4 | 5 => {
                            let q = if c == 4 { Some(dir.join("other.py")) } else { None };
                            if let Some(i) = cur {
                                w.current_buffer.as_mut().unwrap().path = q.clone();
                                list[i].1 = q;
                            }
                        }
                        6 => {
                            if let Some(i) = cur {
                                w.current_buffer.as_mut().unwrap().syntax_definition = None;
                                list[i].0 = None;
                            }
                        }
                        7 => {
                            let r = w.update_current_syntax();
                            match (cur, r) {
                                (Some(i), Ok(())) => list[i].0 = Some(expected(&w.syntax_set, list[i].1.as_deref())),
                                (None, Err(e)) if matches!(e.kind(), ErrorKind::EmptyWorkspace) => (),
                                (c, r) => return Err(format!("refreshing with current {:?} gives {:?}", c, r.map_err(|e| e.to_string()))),
                            }
                        }
                        8 => {
                            w.next_buffer();
                            cur = cur.map(|i| if i + 1 == list.len() { 0 } else { i + 1 });
                        }
                        _ => {
                            w.close_current_buffer();
                            if let Some(i) = cur {
                                list.remove(i);
                                cur = if list.is_empty() { None } else { Some(i.saturating_sub(1)) };
                            }
                        }
                    }
                    ctx.transition();
                    ctx.state(&(&list, cur));
                    ctx.log(|| format!("operation {} -> {:?} current {:?}", c, list, cur));
                    definition(&w, &list, cur)?;
                    if ctx.fresh() || ctx.tracing() {
                        tokens(ctx, &w)?;
                    }
                }
                for _ in 0..list.len() {
                    w.next_buffer();
                    cur = cur.map(|i| if i + 1 == list.len() { 0 } else { i + 1 });
                    definition(&w, &list, cur)?;
                }
                Ok(())
            },
        ));
    }
    v.push(definitions_exchanged(thorough));
    v
}

fn check_name(w: &Workspace, want: &str, what: &str) -> HResult {
    let got = syntax_name(w);
    if got.as_deref() != Some(want) {
        return Err(format!("{}: the syntax is {:?}, expected {:?}", what, got, want));
    }
    Ok(())
}

/// The set of definitions of a workspace can be exchanged.
fn definitions_exchanged(thorough: bool) -> Harness {
    use std::sync::OnceLock;
    static SETS: OnceLock<Vec<SyntaxSet>> = OnceLock::new();
    let depth = if thorough { 5 } else { 4 };
    Harness::new(
        "definitions-exchanged",
        format!("{} steps of: giving the workspace another set of definitions (the bundled ones, these and two others of which one takes over extensions, two that know one and two extensions and are called as bundled ones are); adding a buffer or opening a file with one of 5 names; refreshing; next; the definition of each buffer after that", depth),
        move |ctx| {
            let sets = SETS.get_or_init(|| {
                let with = |defs: &[&str], builder: syntect::parsing::SyntaxSetBuilder| {
                    let mut b = builder;
                    for d in defs {
                        b.add(syntect::parsing::SyntaxDefinition::load_from_str(d, true, None).unwrap());
                    }
                    b.build()
                };
                let empty = || {
                    let mut b = syntect::parsing::SyntaxSetBuilder::new();
                    b.add_plain_text_syntax();
                    b
                };
                vec![
                    crate::syntaxes().clone(),
                    with(&[USER, USER2], crate::syntaxes().clone().into_builder()),
                    with(&["%YAML 1.2\n---\nname: Rust\nfile_extensions: [py]\nscope: source.rust\ncontexts:\n  main:\n    - match: x\n"], empty()),
                    with(&["%YAML 1.2\n---\nname: Python\nfile_extensions: [rs, usr]\nscope: source.python\ncontexts:\n  main:\n    - match: x\n"], empty()),
                ]
            });
            let names = ["x.rs", "x.py", "x.usr", "Makefile", "x.unknown"];
            let dir = layout(ctx.scratch);
            for n in names {
                write(&dir.join(n), "text\n");
            }
            let mut w = Workspace::new(&dir, None).map_err(|e| e.to_string())?;
            let mut list: Vec<(Option<String>, Option<PathBuf>)> = Vec::new();
            let mut cur: Option<usize> = None;
            for _ in 0..depth {
                let c = ctx.choose(sets.len() + 2 * names.len() + 2);
                let what;
                if c < sets.len() {
                    w.syntax_set = sets[c].clone();
                    what = format!("set {} of definitions", c);
                } else if c < sets.len() + 2 * names.len() {
                    let c = c - sets.len();
                    let path = dir.join(names[c / 2]);
                    let open = c % 2 == 1;
                    what = format!("{} {:?}", if open { "opening" } else { "adding" }, path);
                    // What is open, opened again, is as it was.
                    let there = if cur.map_or(false, |i| list[i].1.as_ref() == Some(&path)) { cur } else { list.iter().position(|e| e.1.as_ref() == Some(&path)) };
                    match there {
                        Some(i) if open => {
                            w.open_buffer(&path).map_err(|e| e.to_string())?;
                            cur = Some(i);
                        }
                        _ => {
                            if open {
                                w.open_buffer(&path).map_err(|e| e.to_string())?;
                            } else {
                                let mut b = Buffer::new();
                                b.path = Some(path.clone());
                                w.add_buffer(b);
                            }
                            let at = cur.map_or(0, |i| i + 1);
                            list.insert(at, (Some(expected(&w.syntax_set, Some(&path))), Some(path)));
                            cur = Some(at);
                        }
                    }
                } else if c == sets.len() + 2 * names.len() {
                    what = "refreshing".to_string();
                    let r = w.update_current_syntax();
                    if r.is_ok() != cur.is_some() {
                        return Err(format!("refreshing yields {:?} with {} buffers", r.map_err(|e| e.to_string()), list.len()));
                    }
                    if let Some(i) = cur {
                        list[i].0 = Some(expected(&w.syntax_set, list[i].1.as_deref()));
                    }
                } else {
                    what = "next".to_string();
                    w.next_buffer();
                    cur = cur.map(|i| (i + 1) % list.len());
                }
                ctx.transition();
                ctx.state(&(&list, cur));
                ctx.log(|| what.clone());
                definition(&w, &list, cur).map_err(|e| format!("{}: {}", what, e))?;
            }
            // All of them.
            for _ in 0..list.len() {
                w.next_buffer();
                cur = cur.map(|i| (i + 1) % list.len());
                definition(&w, &list, cur)?;
            }
            Ok(())
        },
    )
}

fn definition(w: &Workspace, list: &[(Option<String>, Option<PathBuf>)], cur: Option<usize>) -> HResult {
    let want = cur.and_then(|i| list[i].0.clone());
    let got = syntax_name(w);
    if got != want || w.current_buffer.is_some() != cur.is_some() {
        return Err(format!("the current syntax is {:?}, expected {:?}", got, want));
    }
    Ok(())
}

fn listed(set: TokenSet, what: &str) -> Result<Vec<String>, String> {
    let it = set.iter().map_err(|e| format!("{}: {}", what, e))?;
    Ok(it
        .map(|t| match t {
            Token::Newline => "newline".to_string(),
            Token::Lexeme(l) => format!("{:?} at {} in {}", l.value, show(&l.position), l.scope),
        })
        .collect())
}

/// Tokenizing works exactly when there is a buffer with a definition, and uses that one.
fn tokens(ctx: &mut Ctx, w: &Workspace) -> HResult {
    let definition: Option<&SyntaxReference> = w.current_buffer.as_ref().and_then(|b| b.syntax_definition.as_ref());
    let r = w.current_buffer_tokens();
    match (&w.current_buffer, definition, r) {
        (None, _, Err(e)) if matches!(e.kind(), ErrorKind::EmptyWorkspace) => ctx.count("empty workspace reported"),
        (Some(_), None, Err(e)) if matches!(e.kind(), ErrorKind::MissingSyntax) => ctx.count("missing syntax reported"),
        (Some(b), Some(d), Ok(set)) => {
            let got = listed(set, "the workspace's tokens")?;
            let want = listed(TokenSet::new(b.data(), d, &w.syntax_set), "the buffer's tokens")?;
            if got != want {
                return Err(format!("the workspace's tokens are {:?}, the buffer's {:?}", got, want));
            }
            ctx.count("tokenized");
        }
        (b, d, r) => {
            return Err(format!(
                "tokenizing with a buffer: {}, a definition: {} gives {:?}",
                b.is_some(),
                d.is_some(),
                r.map(|_| "tokens").map_err(|e| e.to_string())
            ))
        }
    }
    let _ = Range::new(Position::new(), Position::new());
    ctx.transition();
    Ok(())
}
