//! C13, C17: the filesystem, with real files in scratch directories.
use crate::checks_builder::{Tmp, civil, dos};
use crate::ctl::{Ctl, Ctx, R, fail, op};
use crate::ensure;
use crate::env::{Content, crc};
use crate::zipck::{self, Want};
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{PermissionsExt, symlink};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use tokio::io::{AsyncRead, ReadBuf};
use zippity::{AddDirectoryRecursiveError, AddEntryError, Builder, FilesystemEntry};

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().max_blocking_threads(2).build().unwrap();
}

fn block<T>(f: impl Future<Output = T>) -> T {
    RT.with(|rt| rt.block_on(f))
}

fn io<T>(r: std::io::Result<T>, what: &str) -> T {
    match r {
        Ok(x) => x,
        Err(e) => std::panic::panic_any(crate::ctl::Machinery(format!("{what}: {e}"))),
    }
}

/// Runs `f` in a thread that may do on the filesystem what an ordinary user may: None if that is not possible.
fn as_nobody<T: Send>(f: impl FnOnce() -> T + Send) -> Option<T> {
    std::thread::scope(|s| {
        let h = s.spawn(|| {
            // Concerns this thread and those it starts; returns the previous ID
            unsafe { libc::setfsuid(65534) };
            let now = unsafe { libc::setfsuid(u32::MAX) };
            (now == 65534).then(f)
        });
        h.join().unwrap_or_else(|p| std::panic::resume_unwind(p))
    })
}

/// Directories inside of each other, too many to be reached with a path
fn abyss(top: &Path, name: &str, depth: usize) {
    use std::os::fd::{AsRawFd, FromRawFd};
    let n = std::ffi::CString::new(name).unwrap();
    let mut d = io(std::fs::File::open(top), "open");
    for _ in 0..depth {
        let fd = unsafe {
            libc::mkdirat(d.as_raw_fd(), n.as_ptr(), 0o755);
            libc::openat(
                d.as_raw_fd(),
                n.as_ptr(),
                libc::O_RDONLY | libc::O_DIRECTORY,
            )
        };
        if fd < 0 {
            io(Err(std::io::Error::last_os_error()), "openat")
        }
        d = unsafe { std::fs::File::from_raw_fd(fd) };
    }
}

/// A fresh directory below `tmp`, removed when dropped.
struct Scratch(PathBuf);
impl Scratch {
    fn new(tmp: &Tmp) -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = tmp
            .0
            .join(format!("t{}", N.fetch_add(1, Ordering::Relaxed)));
        io(std::fs::create_dir(&p), "mkdir");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn set_time(p: &Path, secs: i64) {
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    let t = libc::timespec {
        tv_sec: secs,
        tv_nsec: 0,
    };
    let ts = [t, t];
    let r = unsafe {
        libc::utimensat(
            libc::AT_FDCWD,
            c.as_ptr(),
            ts.as_ptr(),
            libc::AT_SYMLINK_NOFOLLOW,
        )
    };
    if r != 0 {
        io::<()>(Err(std::io::Error::last_os_error()), "utimensat");
    }
}

// ---------------------------------------------------------------------------------------- C13

#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
enum Kind {
    Empty,
    File,
    Large,
    Dir,
    /// Dangling
    Link,
    /// To a directory with content
    LinkDir,
    /// To a file inside of the tree, with a text that is not valid UTF-8
    LinkFile,
    /// A further name of a regular file made before
    Hard,
}
use Kind::*;

#[derive(Clone, Debug, PartialEq)]
struct Exp {
    kind: char,
    mode: u32,
    mtime: i64,
    content: Vec<u8>,
}

const NAMES: &[&[u8]] = &[
    b"a",
    b"b c",
    "žluť".as_bytes(),
    b".hid",
    b"back\\slash",
    b"-x",
    b"new\nline",
    b"...",
    b"n\xffo",
    b"c:",
    b"UP",
    b"up",
];

struct Maker<'a> {
    ctl: &'a Ctl,
    left: usize,
    kinds: &'a [Kind],
    names: bool,
    n: usize,
    exp: BTreeMap<String, Exp>,
}

fn regular_files(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut l: Vec<_> = io(std::fs::read_dir(dir), "readdir")
        .map(|e| io(e, "readdir").path())
        .collect();
    l.sort();
    for p in l {
        let m = io(std::fs::symlink_metadata(&p), "lstat");
        if m.is_dir() {
            regular_files(&p, out);
        } else if m.is_file() {
            out.push(p);
        }
    }
}

impl Maker<'_> {
    fn expect(&mut self, rel: &str, p: &Path, kind: char, content: Vec<u8>) {
        let m = io(std::fs::symlink_metadata(p), "lstat");
        use std::os::unix::fs::MetadataExt;
        let name = if kind == 'd' {
            format!("{rel}/")
        } else {
            rel.to_string()
        };
        self.exp.insert(
            name,
            Exp {
                kind,
                mode: m.permissions().mode() & 0o777,
                mtime: m.mtime(),
                content,
            },
        );
    }
    fn dir(&mut self, rel: &str, p: &Path) {
        // What a further name may be made for
        let files = |dir: &Path| -> Vec<PathBuf> {
            let mut top = dir.to_path_buf();
            while top.file_name() != Some(OsStr::new("dir")) && top.pop() {}
            let mut out = Vec::new();
            regular_files(&top, &mut out);
            out
        };
        let mut min = 0;
        let mut i = 0;
        loop {
            if self.left == 0 {
                break;
            }
            // Siblings in the order of their kinds: every mix once
            let k = min + self.ctl.choose(self.kinds.len() + 1 - min);
            if k == self.kinds.len() {
                break;
            }
            min = k;
            self.left -= 1;
            let kind = self.kinds[k];
            let name: Vec<u8> = if self.names {
                NAMES[self.ctl.choose(NAMES.len())].to_vec()
            } else {
                [
                    format!("{}", (b'a' + i as u8) as char).as_bytes(),
                    &b".txt"[..if kind == File { 4 } else { 0 }],
                ]
                .concat()
            };
            let q = p.join(OsStr::from_bytes(&name));
            if std::fs::symlink_metadata(&q).is_ok() {
                continue;
            }
            i += 1;
            self.n += 1;
            let n = self.n as i64;
            let text = String::from_utf8_lossy(&name).into_owned();
            let rel = if rel.is_empty() {
                text
            } else {
                format!("{rel}/{text}")
            };
            self.ctl.log(|| format!("    {kind:?} {rel:?}"));
            let chmod = |m: u32| {
                io(
                    std::fs::set_permissions(&q, PermissionsExt::from_mode(m)),
                    "chmod",
                )
            };
            // Odd and even, distinct seconds
            let time = 1_000_000_000 + n * 100_000_007;
            match kind {
                Empty | File | Large => {
                    let content = match kind {
                        Empty => vec![],
                        File => format!("content {n}").into_bytes(),
                        _ => vec![n as u8; 20_000],
                    };
                    io(std::fs::write(&q, &content), "write");
                    chmod([0o640, 0o4755, 0o400, 0o000][n as usize % 4]);
                    set_time(&q, time);
                    self.expect(&rel, &q, 'f', content);
                }
                Dir => {
                    io(std::fs::create_dir(&q), "mkdir");
                    self.dir(&rel, &q);
                    chmod([0o755, 0o1777, 0o700, 0o2775][n as usize % 4]);
                    set_time(&q, time);
                    self.expect(&rel, &q, 'd', vec![]);
                }
                Link | LinkDir | LinkFile => {
                    let target: Vec<u8> = match kind {
                        Link => format!("../nowhere/{n}").into_bytes(),
                        LinkDir => p.as_os_str().as_bytes().to_vec(),
                        _ => b"a\xfe".to_vec(),
                    };
                    io(symlink(OsStr::from_bytes(&target), &q), "symlink");
                    set_time(&q, time);
                    self.expect(&rel, &q, 'l', target);
                }
                Hard => {
                    let files = files(p);
                    if files.is_empty() {
                        continue;
                    }
                    let f = self.ctl.pick(&files);
                    io(std::fs::hard_link(f, &q), "link");
                    self.expect(&rel, &q, 'f', io(std::fs::read(f), "read"));
                }
            }
        }
    }
}

/// Without a time converter modification times are not recorded.
fn utc() -> Builder<FilesystemEntry> {
    let mut b = Builder::new();
    b.system_time_timezone(chrono::Utc);
    b
}

/// The names in the central directory, in its order.
fn names_of(bytes: &[u8]) -> R<Vec<String>> {
    let mut a = match zip::ZipArchive::new(std::io::Cursor::new(bytes)) {
        Ok(a) => a,
        Err(e) => return fail("zip", format!("the archive can't be opened: {e}")),
    };
    let mut v = Vec::new();
    for i in 0..a.len() {
        match a.by_index_raw(i) {
            Ok(f) => match String::from_utf8(f.name_raw().to_vec()) {
                Ok(n) => v.push(n),
                Err(_) => return fail("zip", "a name is not UTF-8"),
            },
            Err(e) => return fail("zip", format!("entry {i}: {e}")),
        }
    }
    Ok(v)
}

async fn next(
    r: std::pin::Pin<&mut zippity::Reader<FilesystemEntry>>,
    n: usize,
    out: &mut Vec<u8>,
) -> std::io::Result<usize> {
    op();
    let mut buf = vec![0u8; n];
    let mut r = r;
    let k = std::future::poll_fn(|cx| {
        let mut b = ReadBuf::new(&mut buf);
        r.as_mut()
            .poll_read(cx, &mut b)
            .map_ok(|()| b.filled().len())
    })
    .await?;
    out.extend_from_slice(&buf[..k]);
    Ok(k)
}

fn read_fs(b: Builder<FilesystemEntry>) -> R<Vec<u8>> {
    let size = b.size();
    let mut out = Vec::new();
    let r = b.build();
    block(async {
        let mut r = std::pin::pin!(r);
        loop {
            match next(r.as_mut(), 1 << 16, &mut out).await {
                Ok(0) => return Ok(()),
                Ok(_) => {}
                Err(e) => {
                    return fail(
                        "error",
                        format!("reading the archive failed at {}: {e}", out.len()),
                    );
                }
            }
            ensure!(
                out.len() as u64 <= size,
                "overrun",
                "more than the announced {size} bytes"
            );
        }
    })?;
    ensure!(
        out.len() as u64 == size,
        "size",
        "{} bytes read instead of the announced {size}",
        out.len()
    );
    Ok(out)
}

fn check_fs(b: Builder<FilesystemEntry>, exp: &BTreeMap<String, Exp>) -> R {
    let want: Vec<&String> = exp.keys().collect();
    let mut have: Vec<String> = b.get_entries().keys().map(|k| k.to_string()).collect();
    have.sort();
    ensure!(
        have.iter().collect::<Vec<_>>() == want,
        "names",
        "the builder has the entries {have:?} instead of {want:?}"
    );
    let bytes = read_fs(b)?;
    let order = names_of(&bytes)?;
    let mut sorted = order.clone();
    sorted.sort();
    ensure!(
        sorted.iter().collect::<Vec<_>>() == want,
        "names",
        "the archive has the entries {sorted:?} instead of {want:?}"
    );
    let contents: Vec<Content> = order
        .iter()
        .map(|n| Content::new(&exp[n].content))
        .collect();
    let wants: Vec<Want> = order
        .iter()
        .zip(&contents)
        .map(|(n, c)| Want {
            name: n,
            content: c,
            crc: crc(&exp[n].content),
            check_content: true,
        })
        .collect();
    let c = zipck::check(&mut &bytes[..], &wants)?;
    for (n, l) in order.iter().zip(&c.lay) {
        let e = &exp[n];
        let got = l.external >> 16;
        let want = match e.kind {
            'f' => 0o100_000 | e.mode,
            'd' => 0o040_000 | e.mode,
            _ => 0o120_777,
        };
        ensure!(
            got == want,
            "mode",
            "{n:?} has mode {got:o} instead of {want:o}"
        );
        let want = civil(e.mtime).and_then(dos);
        ensure!(
            Some(l.datetime) == want,
            "time",
            "{n:?} has time {:08x} instead of {want:x?}",
            l.datetime
        );
    }
    Ok(())
}

/// The stated normalisation of root names.
fn normalise(root: Option<&str>) -> Option<String> {
    root.map(|r| format!("{}/", r.trim_matches('/')))
}

fn prefixed(exp: &BTreeMap<String, Exp>, root: Option<&str>, dir: &Path) -> BTreeMap<String, Exp> {
    use std::os::unix::fs::MetadataExt;
    let root = normalise(root);
    let pre = root.clone().unwrap_or_default();
    let mut v: BTreeMap<String, Exp> = exp
        .iter()
        .map(|(n, e)| (format!("{pre}{n}"), e.clone()))
        .collect();
    if let Some(root) = root {
        let m = io(std::fs::symlink_metadata(dir), "lstat");
        v.insert(
            root,
            Exp {
                kind: 'd',
                mode: m.permissions().mode() & 0o777,
                mtime: m.mtime(),
                content: vec![],
            },
        );
    }
    v
}

const ROOTS: &[Option<&str>] = &[
    None,
    Some("r"),
    Some("r/"),
    Some("r///"),
    Some("/a/b//"),
    Some("žluť/x y"),
];

pub fn c13(ctx: &Ctx) {
    let tmp = Tmp::new("c13");
    let all = [Empty, File, Large, Dir, Link, LinkDir, LinkFile];
    let objects = ctx.q(5, 6);
    ctx.sample(|| {
        format!("all trees of up to {objects} objects of the kinds {all:?}, root names {ROOTS:?}")
    });
    ctx.nontrivial
        .fetch_add(ROOTS.len() as u64, Ordering::Relaxed);
    ctx.tree("shapes of trees", |ctl| {
        let s = Scratch::new(&tmp);
        let dir = s.0.join("dir");
        io(std::fs::create_dir(&dir), "mkdir");
        let mut m = Maker {
            ctl,
            left: objects,
            kinds: &all,
            names: false,
            n: 0,
            exp: BTreeMap::new(),
        };
        m.dir("", &dir);
        let exp = m.exp;
        // All root names for small trees, two for the others
        let roots = if exp.len() <= 2 { ROOTS } else { &ROOTS[..2] };
        let root = *ctl.pick(roots);
        io(
            std::fs::set_permissions(&dir, PermissionsExt::from_mode(0o751)),
            "chmod",
        );
        set_time(&dir, 1_111_111_111);
        ctl.log(|| format!("  root name {root:?}"));
        op();
        let mut b = utc();
        if let Err(e) = block(b.add_directory_recursive(dir.clone(), root)) {
            return fail("add", format!("adding a directory failed: {e}"));
        }
        check_fs(b, &prefixed(&exp, root, &dir))
    });

    ctx.tree("names", |ctl| {
        let s = Scratch::new(&tmp);
        let dir = s.0.join("dir");
        io(std::fs::create_dir(&dir), "mkdir");
        let mut m = Maker {
            ctl,
            left: ctx.q(3, 4),
            kinds: &[File, Dir, Link],
            names: true,
            n: 0,
            exp: BTreeMap::new(),
        };
        if ctx.quick() {
            m.kinds = &[File, Dir];
        }
        m.dir("", &dir);
        let exp = m.exp;
        let root = *ctl.pick(&ROOTS[..2]);
        set_time(&dir, 1_111_111_111);
        let mut b = utc();
        op();
        if let Err(e) = block(b.add_directory_recursive(dir.clone(), root)) {
            return fail("add", format!("adding a directory failed: {e}"));
        }
        check_fs(b, &prefixed(&exp, root, &dir))
    });

    // Two names of one file are two entries with the same content
    ctx.tree("hard links", |ctl| {
        let s = Scratch::new(&tmp);
        let dir = s.0.join("dir");
        io(std::fs::create_dir(&dir), "mkdir");
        let mut m = Maker {
            ctl,
            left: ctx.q(4, 5),
            kinds: &[Empty, File, Large, Dir, Hard],
            names: false,
            n: 0,
            exp: BTreeMap::new(),
        };
        m.dir("", &dir);
        let exp = m.exp;
        let root = *ctl.pick(&ROOTS[..2]);
        set_time(&dir, 1_111_111_111);
        let mut b = utc();
        op();
        if let Err(e) = block(b.add_directory_recursive(dir.clone(), root)) {
            return fail("add", format!("adding a directory failed: {e}"));
        }
        check_fs(b, &prefixed(&exp, root, &dir))
    });

    // Long and deep trees
    ctx.tree("long and deep trees", |ctl| {
        let s = Scratch::new(&tmp);
        let dir = s.0.join("dir");
        io(std::fs::create_dir(&dir), "mkdir");
        let mut m = Maker {
            ctl,
            left: 0,
            kinds: &all,
            names: false,
            n: 0,
            exp: BTreeMap::new(),
        };
        let (depth, width) = *ctl.pick(&[(1usize, 300usize), (12, 3), (3, 40)]);
        let mut p = dir.clone();
        let mut rel = String::new();
        let mut dirs = Vec::new();
        for d in 0..depth {
            for w in 0..width {
                let name = format!("{}{w}", "n".repeat(if w == 0 { 200 } else { 1 }));
                let q = p.join(&name);
                io(std::fs::write(&q, name.as_bytes()), "write");
                set_time(&q, 1_200_000_000 + w as i64);
                m.expect(&format!("{rel}{name}"), &q, 'f', name.as_bytes().to_vec());
            }
            let name = format!("dir{d}");
            p = p.join(&name);
            io(std::fs::create_dir(&p), "mkdir");
            dirs.push((format!("{rel}{name}"), p.clone()));
            rel = format!("{rel}{name}/");
        }
        for (i, (r, p)) in dirs.iter().enumerate().rev() {
            set_time(p, 1_300_000_000 + i as i64);
            m.expect(r, p, 'd', vec![]);
        }
        let exp = m.exp;
        let root = *ctl.pick(&ROOTS[..2]);
        set_time(&dir, 1_111_111_111);
        let mut b = utc();
        op();
        if let Err(e) = block(b.add_directory_recursive(dir.clone(), root)) {
            return fail("add", format!("adding a directory failed: {e}"));
        }
        check_fs(b, &prefixed(&exp, root, &dir))
    });

    // Trees with many directories: side by side, below each other, and both
    let counts = ctx.q(&[600usize, 3000][..], &[600, 3000, 20_000][..]);
    ctx.tree("many directories", |ctl| {
        let s = Scratch::new(&tmp);
        let dir = s.0.join("dir");
        io(std::fs::create_dir(&dir), "mkdir");
        let mut m = Maker {
            ctl,
            left: 0,
            kinds: &all,
            names: false,
            n: 0,
            exp: BTreeMap::new(),
        };
        // How many directories each directory has
        let (count, fan) = *ctl.pick(
            &counts
                .iter()
                .map(|&n| (n, n))
                .chain([(900, 1), (600, 2), (1200, 40)])
                .collect::<Vec<_>>(),
        );
        let full = *ctl.pick(&[true, false]);
        let mut dirs = vec![(String::new(), dir.clone())];
        for i in 0..count {
            let (rel, p) = &dirs[i / fan];
            let name = if fan == 1 {
                "d".into()
            } else {
                format!("d{}", i % fan)
            };
            let new = (format!("{rel}{name}/"), p.join(&name));
            io(std::fs::create_dir(&new.1), "mkdir");
            dirs.push(new);
        }
        for (i, (rel, p)) in dirs.iter().enumerate().rev() {
            if full || i % 100 == 99 {
                let q = p.join("f");
                io(std::fs::write(&q, rel.as_bytes()), "write");
                set_time(&q, 1_200_000_000 + i as i64);
                m.expect(&format!("{rel}f"), &q, 'f', rel.as_bytes().to_vec());
            }
            set_time(p, 1_300_000_000 + i as i64);
            if i > 0 {
                m.expect(rel.trim_end_matches('/'), p, 'd', vec![]);
            }
        }
        let exp = m.exp;
        let root = *ctl.pick(&ROOTS[..2]);
        let mut b = utc();
        op();
        if let Err(e) = block(b.add_directory_recursive(dir.clone(), root)) {
            return fail("add", format!("adding a directory failed: {e}"));
        }
        check_fs(b, &prefixed(&exp, root, &dir))
    });

    // Ways to write the path of the directory, and two directories in one archive
    ctx.tree("paths and combinations", |ctl| {
        let s = Scratch::new(&tmp);
        let mut parts = Vec::new();
        for d in ["one", "two"] {
            let dir = s.0.join(d);
            io(std::fs::create_dir(&dir), "mkdir");
            let mut m = Maker {
                ctl,
                left: 2,
                kinds: &[File, Dir],
                names: false,
                n: 0,
                exp: BTreeMap::new(),
            };
            m.dir("", &dir);
            let e = m.exp;
            set_time(&dir, 1_111_111_111);
            parts.push((dir, e));
        }
        let base = s.0.to_str().unwrap();
        let form = ctl.choose(6);
        let path = match form {
            0 => format!("{base}/one"),
            1 => format!("{base}/one/"),
            2 => format!("{base}/./one"),
            3 => format!("{base}//one//"),
            4 => format!("{base}/two/../one"),
            _ => format!("{base}/one/."),
        };
        let second = ctl.choose(3);
        let (r1, r2) = [(Some("x"), Some("y")), (None, Some("y/z/")), (None, None)][second];
        ctl.log(|| format!("  {path:?} as {r1:?}, {base}/two as {r2:?}"));
        let mut b = utc();
        op();
        if let Err(e) = block(b.add_directory_recursive(PathBuf::from(&path), r1)) {
            return fail("add", format!("adding {path} failed: {e}"));
        }
        let mut exp = prefixed(&parts[0].1, r1, &parts[0].0);
        let more = prefixed(&parts[1].1, r2, &parts[1].0);
        let clash = more.keys().any(|k| exp.contains_key(k));
        let res = block(b.add_directory_recursive(parts[1].0.clone(), r2));
        match res {
            Ok(()) if !clash => {}
            Err(AddDirectoryRecursiveError::AddEntryError(AddEntryError::DuplicateEntryName {
                ..
            })) if clash => return Ok(()),
            x => {
                return fail(
                    "add",
                    format!("adding the second directory (duplicates: {clash}) gives {x:?}"),
                );
            }
        }
        exp.extend(more);
        check_fs(b, &exp)
    });

    // Single entries
    ctx.tree("single objects", |ctl| {
        let s = Scratch::new(&tmp);
        let kind = *ctl.pick(&all);
        let mut m = Maker {
            ctl,
            left: 1,
            kinds: &[kind][..],
            names: false,
            n: ctl.choose(4),
            exp: BTreeMap::new(),
        };
        // Forced to make exactly the one object
        m.dir("", &s.0);
        let Some((made, e)) = m.exp.into_iter().next() else {
            return Ok(());
        };
        let path = s.0.join(made.trim_end_matches('/'));
        let given = *ctl.pick(&["n", "n/", "n//", "a/b", "a/b/", "/abs", "x//y"]);
        let meta = io(std::fs::symlink_metadata(&path), "lstat");
        let mut b = utc();
        ctl.log(|| format!("  {kind:?} named {given:?}"));
        op();
        if let Err(x) = block(b.add_filesystem_entry(given.to_string(), path, &meta)) {
            return fail("add", format!("adding {kind:?} failed: {x}"));
        }
        let t = given.trim_end_matches('/');
        let name = if e.kind == 'd' {
            format!("{t}/")
        } else {
            t.to_string()
        };
        check_fs(b, &BTreeMap::from([(name, e)]))
    });

    // What a link says is kept to the letter, however it is written
    let parts: [&[u8]; 8] = [b"/", b"a", b".", b"..", b"\\", b" ", b"\n", b"\xff"];
    let len = ctx.q(5, 6);
    ctx.tree("targets of symlinks", |ctl| {
        let s = Scratch::new(&tmp);
        let dir = s.0.join("dir");
        io(std::fs::create_dir(&dir), "mkdir");
        let mut m = Maker {
            ctl,
            left: 0,
            kinds: &all,
            names: false,
            n: 0,
            exp: BTreeMap::new(),
        };
        let target: Vec<u8> = if ctl.flag() {
            let long = *ctl.pick(&[254usize, 255, 256, 4094, 4095]);
            [&b"t/"[..], &b"./"[..], &b"//"[..]][ctl.choose(3)]
                .iter()
                .copied()
                .cycle()
                .take(long)
                .collect()
        } else {
            let n = 1 + ctl.choose(len);
            let mut v = Vec::new();
            for _ in 0..n {
                v.extend_from_slice(*ctl.pick(&parts));
            }
            v
        };
        let q = dir.join("link");
        io(symlink(OsStr::from_bytes(&target), &q), "symlink");
        set_time(&q, 1_234_567_890);
        m.expect("link", &q, 'l', target);
        let exp = m.exp;
        set_time(&dir, 1_111_111_111);
        let mut b = utc();
        op();
        if ctl.flag() {
            let meta = io(std::fs::symlink_metadata(&q), "lstat");
            if let Err(x) = block(b.add_filesystem_entry("link".to_string(), q, &meta)) {
                return fail("add", format!("adding a symlink failed: {x}"));
            }
        } else if let Err(e) = block(b.add_directory_recursive(dir.clone(), None)) {
            return fail("add", format!("adding a directory failed: {e}"));
        }
        check_fs(b, &exp)
    });

    // Directories that can't be listed or searched are errors, whoever adds them
    if as_nobody(|| ()).is_some() {
        ctx.tree("directories without permissions", |ctl| {
            let s = Scratch::new(&tmp);
            let dir = s.0.join("dir");
            let mut p = dir.clone();
            io(std::fs::create_dir(&p), "mkdir");
            let depth = ctl.choose(3);
            for d in 0..depth {
                io(std::fs::write(p.join("before"), b"b"), "write");
                p = p.join(format!("d{d}"));
                io(std::fs::create_dir(&p), "mkdir");
            }
            let inside = ctl.choose(4);
            match inside {
                0 => {}
                1 => io(std::fs::write(p.join("f"), b"x"), "write"),
                2 => io(symlink("f", p.join("l")), "symlink"),
                _ => io(std::fs::create_dir(p.join("d")), "mkdir"),
            }
            // None, only listing, only searching
            let mode = *ctl.pick(&[0o700u32, 0o744, 0o711]);
            io(
                std::fs::set_permissions(&p, PermissionsExt::from_mode(mode)),
                "chmod",
            );
            let root = *ctl.pick(&ROOTS[..2]);
            ctl.log(|| format!("  depth {depth}, inside {inside}, mode {mode:o}, root {root:?}"));
            op();
            let res = as_nobody(|| {
                let mut b = utc();
                block(b.add_directory_recursive(dir.clone(), root))
                    .map(|()| b.size())
                    .map_err(|e| matches!(e, AddDirectoryRecursiveError::IOError(_)))
            });
            // An empty directory needs only to be listed
            let fine = mode == 0o744 && inside == 0;
            match res {
                None => Ok(()),
                Some(Ok(_)) => {
                    ensure!(
                        fine,
                        "incomplete",
                        "adding a directory that can't be accessed succeeded"
                    );
                    Ok(())
                }
                Some(Err(io)) => {
                    ensure!(io && !fine, "add", "adding a directory failed wrongly");
                    Ok(())
                }
            }
        });
    }
    ctx.tree("paths that are too long", |ctl| {
        let s = Scratch::new(&tmp);
        let dir = s.0.join("dir");
        io(std::fs::create_dir(&dir), "mkdir");
        let depth = *ctl.pick(&[10usize, 30]);
        io(std::fs::write(dir.join("f"), b"x"), "write");
        abyss(&dir, &"n".repeat(200), depth);
        let mut b = utc();
        op();
        match block(b.add_directory_recursive(dir.clone(), None)) {
            Ok(()) => ensure!(
                b.get_entries().len() == depth + 1,
                "incomplete",
                "{} entries instead of {}",
                b.get_entries().len(),
                depth + 1
            ),
            Err(AddDirectoryRecursiveError::IOError(_)) if depth == 30 => {}
            Err(e) => return fail("add", format!("adding a directory failed: {e}")),
        }
        Ok(())
    });

    // What is not a directory
    ctx.tree("no directories", |ctl| {
        let s = Scratch::new(&tmp);
        io(std::fs::write(s.0.join("file"), b"x"), "write");
        io(symlink("nowhere", s.0.join("dangling")), "symlink");
        io(symlink(&s.0, s.0.join("linkdir")), "symlink");
        io(symlink(s.0.join("file"), s.0.join("linkfile")), "symlink");
        let (n, exists) = *ctl.pick(&[
            ("file", true),
            ("dangling", true),
            ("linkdir", true),
            ("linkfile", true),
            ("none", false),
            ("none/x", false),
            ("file/x", false),
        ]);
        let root = *ctl.pick(ROOTS);
        let mut b = utc();
        op();
        let r = block(b.add_directory_recursive(s.0.join(n), root));
        match r {
            Err(AddDirectoryRecursiveError::NotADirectory { path, .. }) if exists => {
                ensure!(
                    path == s.0.join(n),
                    "not-a-directory",
                    "{path:?} is reported instead of {n}"
                );
            }
            Err(AddDirectoryRecursiveError::IOError(_)) if !exists => {}
            r => return fail("not-a-directory", format!("adding {n:?} gives {r:?}")),
        }
        ensure!(
            b.get_entries().is_empty(),
            "not-a-directory",
            "adding {n:?} left entries behind"
        );
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- C17

#[derive(Clone, Copy, PartialEq, Debug)]
enum Change {
    Truncate(u64),
    Shrink(u64),
    Extend(u64),
    Overwrite,
    Delete,
    ToDir,
    /// Another file of a size differing by this much
    Replace(i64),
    ToDangling,
    ToLink(i64),
    Time,
}

fn pat(seed: u8, len: u64) -> Vec<u8> {
    (0..len).map(|i| crate::env::pattern(seed, i)).collect()
}

fn remove(p: &Path) {
    match std::fs::symlink_metadata(p) {
        Ok(m) if m.is_dir() => io(std::fs::remove_dir_all(p), "rmdir"),
        Ok(_) => io(std::fs::remove_file(p), "unlink"),
        Err(_) => {}
    }
}

fn apply(p: &Path, c: Change, len: u64) {
    use std::io::Write as _;
    let open = || io(std::fs::OpenOptions::new().write(true).open(p), "open");
    match c {
        Change::Truncate(n) => io(open().set_len(n.min(len)), "truncate"),
        Change::Shrink(n) => io(open().set_len(len.saturating_sub(n)), "truncate"),
        Change::Extend(n) => {
            let mut f = io(std::fs::OpenOptions::new().append(true).open(p), "open");
            io(f.write_all(&pat(77, n)), "append");
        }
        Change::Overwrite => {
            let mut f = open();
            io(f.write_all(&pat(78, len)), "overwrite");
        }
        Change::Delete => remove(p),
        Change::ToDir => {
            remove(p);
            io(std::fs::create_dir(p), "mkdir");
            io(std::fs::write(p.join("inside"), b"inside"), "write");
        }
        Change::Replace(d) => {
            let q = p.with_extension("new");
            io(
                std::fs::write(&q, pat(79, len.saturating_add_signed(d))),
                "write",
            );
            if p.is_dir() {
                remove(p);
            }
            io(std::fs::rename(&q, p), "rename");
        }
        Change::ToDangling => {
            remove(p);
            io(symlink("nowhere", p), "symlink");
        }
        Change::ToLink(d) => {
            let q = p.with_extension("other");
            io(
                std::fs::write(&q, pat(80, len.saturating_add_signed(d))),
                "write",
            );
            remove(p);
            io(symlink(&q, p), "symlink");
        }
        Change::Time => set_time(p, 1_500_000_000),
    }
}

/// Either complete and consistent, or not an archive to be accepted.
fn judge(bytes: &[u8], size: u64, fixed: &BTreeMap<String, Option<Vec<u8>>>) -> R {
    ensure!(
        bytes.len() as u64 == size,
        "size",
        "reading succeeded with {} bytes instead of the announced {size}",
        bytes.len()
    );
    let order = names_of(bytes)?;
    let mut sorted = order.clone();
    sorted.sort();
    ensure!(
        sorted.iter().eq(fixed.keys()),
        "names",
        "the archive has the entries {sorted:?}"
    );
    let mut a = zip::ZipArchive::new(std::io::Cursor::new(bytes)).unwrap();
    let mut contents = Vec::new();
    for (i, n) in order.iter().enumerate() {
        let mut v = Vec::new();
        let Ok(mut f) = a.by_index(i) else {
            return fail("zip", format!("{n:?} can't be opened"));
        };
        if let Err(e) = std::io::Read::read_to_end(&mut f, &mut v) {
            return fail(
                "consistent",
                format!("reading succeeded, but {n:?} is not consistent: {e}"),
            );
        }
        if let Some(c) = &fixed[n] {
            ensure!(
                *c == v,
                "content",
                "{n:?} has other content than expected ({} bytes instead of {})",
                v.len(),
                c.len()
            );
        }
        contents.push(Content::new(&v));
    }
    let wants: Vec<Want> = order
        .iter()
        .zip(&contents)
        .map(|(n, c)| Want {
            name: n,
            content: c,
            crc: c.crc(),
            check_content: true,
        })
        .collect();
    zipck::check(&mut &bytes[..], &wants)?;
    Ok(())
}

pub fn c17(ctx: &Ctx) {
    let tmp = Tmp::new("c17");
    let changes = [
        Change::Truncate(0),
        Change::Shrink(1),
        Change::Extend(1),
        Change::Extend(10_000),
        Change::Overwrite,
        Change::Delete,
        Change::ToDir,
        Change::Replace(0),
        Change::Replace(-1),
        Change::Replace(1),
        Change::ToDangling,
        Change::ToLink(0),
        Change::ToLink(5),
        Change::Time,
        Change::Truncate(8192),
    ];
    let pairs: &[(u64, u64)] = ctx.q(
        &[(5, 3), (8192, 1), (8193, 20_000), (0, 10)],
        &[
            (5, 3),
            (1, 0),
            (8191, 4096),
            (8192, 1),
            (8193, 20_000),
            (20_000, 8192),
            (0, 10),
        ],
    );
    let sizes: &[usize] = ctx.q(&[16, 8192, 1 << 16], &[1, 16, 100, 4096, 8192, 1 << 16]);
    ctx.sample(|| format!("{changes:?} applied to files of sizes {pairs:?}, before building and after every read of {sizes:?} bytes"));
    ctx.nontrivial.fetch_add(
        (changes.len() * pairs.len() * sizes.len()) as u64,
        Ordering::Relaxed,
    );
    let max_changes = 2;
    ctx.tree("files changing under the archive", |ctl| {
        let s = Scratch::new(&tmp);
        let (la, lb) = *ctl.pick(pairs);
        let n = *ctl.pick(sizes);
        if n < 1000 && la + lb > 200 * n as u64 {
            return Ok(());
        }
        // 0: no CRC given, 1: the right one given
        let known = ctl.flag();
        let (ca, cb) = (pat(1, la), pat(2, lb));
        let dir = s.0.join("dir");
        io(std::fs::create_dir_all(dir.join("sub")), "mkdir");
        io(std::fs::create_dir(dir.join("zdir")), "mkdir");
        io(std::fs::write(dir.join("a"), &ca), "write");
        io(std::fs::write(dir.join("sub/b"), &cb), "write");
        io(symlink("tar/get", dir.join("link")), "symlink");
        let mut fixed: BTreeMap<String, Option<Vec<u8>>> = BTreeMap::new();
        fixed.insert("a".into(), Some(ca.clone()));
        fixed.insert("sub/".into(), Some(vec![]));
        fixed.insert("sub/b".into(), Some(cb.clone()));
        fixed.insert("zdir/".into(), Some(vec![]));
        fixed.insert("link".into(), Some(b"tar/get".to_vec()));
        let mut b = Builder::<FilesystemEntry>::new();
        ctl.log(|| {
            format!("  a: {la} bytes, sub/b: {lb} bytes, reads of {n}, CRCs given: {known}")
        });
        // Added one by one, for a fixed order
        for p in ["a", "sub", "sub/b", "zdir", "link"] {
            let m = io(std::fs::symlink_metadata(dir.join(p)), "lstat");
            op();
            match block(b.add_filesystem_entry(p.into(), dir.join(p), &m)) {
                Err(e) => return fail("add", format!("adding {p} failed: {e}")),
                Ok(e) => {
                    if known {
                        match p {
                            "a" => {
                                e.crc32(crc(&ca));
                            }
                            "sub/b" => {
                                e.crc32(crc(&cb));
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        // A change of 0: the target no longer matters; 1: files with any content, the read may fail
        let mut may_fail = false;
        let mut left = max_changes;
        // When a file was changed for the last time
        let mut changed: BTreeMap<&str, u64> = BTreeMap::new();
        let mut change = |when: &str, at: u64| {
            if left == 0 {
                return;
            }
            let k = ctl.choose(changes.len() * 2 + 6);
            // The last choice is no change yet
            if k == 0 {
                return;
            }
            left -= 1;
            let k = k - 1;
            if k < changes.len() * 2 {
                let c = changes[k % changes.len()];
                let (p, name, len) = if k < changes.len() {
                    ("a", "a", la)
                } else {
                    ("sub/b", "sub/b", lb)
                };
                if !std::fs::symlink_metadata(dir.join(p)).is_ok_and(|m| m.is_file()) {
                    return;
                }
                ctl.log(|| format!("  {when}: {name} {c:?}"));
                let now = std::fs::metadata(dir.join(p)).map_or(len, |m| m.len());
                apply(&dir.join(p), c, now);
                changed.insert(name, at);
                if c != Change::Time {
                    // An empty file does not need to be opened
                    fixed.insert(name.into(), None);
                    may_fail = true;
                }
            } else {
                let (p, c) = [
                    ("link", Change::Delete),
                    ("link", Change::Replace(0)),
                    ("zdir", Change::Delete),
                    ("zdir", Change::Replace(30)),
                    ("link", Change::ToDangling),
                ][k - changes.len() * 2];
                ctl.log(|| format!("  {when}: {p} {c:?}"));
                apply(&dir.join(p), c, 7);
            }
        };
        change("after adding", 0);
        let size = b.size();
        let mut r = std::pin::pin!(b.build());
        change("after building", 0);
        let mut out = Vec::new();
        let mut reads = 0;
        let err = loop {
            match block(next(r.as_mut(), n, &mut out)) {
                Ok(0) => break None,
                Ok(k) => ctl.log(|| format!("  read {k} bytes")),
                Err(e) => {
                    ctl.log(|| format!("  read fails: {e}"));
                    break Some(e);
                }
            }
            ensure!(
                out.len() as u64 <= size,
                "overrun",
                "more than the announced {size} bytes"
            );
            reads += 1;
            // Small reads: only the first ones of each kind of record, and some later ones
            if n >= 1000 || reads < 12 || reads % 3 == 0 {
                change("while reading", out.len() as u64);
            }
        };
        match err {
            Some(e) => {
                ensure!(
                    may_fail,
                    "error",
                    "reading failed although no file has changed: {e}"
                );
                Ok(())
            }
            None => {
                // A file that was another one before its part of the archive was begun
                let begin_b = 58 + 1 + la + 24 + 58 + 4 + 24;
                for (name, old, begin) in [("a", &ca, 0), ("sub/b", &cb, begin_b)] {
                    if changed.get(name).is_some_and(|at| *at <= begin) && !old.is_empty() {
                        let now = std::fs::read(dir.join(name)).unwrap_or_default();
                        ensure!(
                            now.len() == old.len(),
                            "undetected",
                            "{name} has {} bytes instead of {} since before it was read, but the archive was completed",
                            now.len(),
                            old.len()
                        );
                        ensure!(
                            !known || now == *old,
                            "undetected",
                            "{name} has other content than its CRC says since before it was read, but the archive was completed"
                        );
                    }
                }
                judge(&out, size, &fixed)
            }
        }
    });

    // Permissions only matter to those who are not root
    if as_nobody(|| ()).is_some() {
        ctx.nontrivial.fetch_add(1, Ordering::Relaxed);
        ctx.tree("unreadable files", |ctl| {
            let s = Scratch::new(&tmp);
            let names = ["f", "g"];
            let big = ctl.flag();
            let contents: Vec<Vec<u8>> = names
                .iter()
                .map(|n| n.repeat(if big { 9000 } else { 5 }).into_bytes())
                .collect();
            for (n, c) in names.iter().zip(&contents) {
                io(std::fs::write(s.0.join(n), c), "write");
            }
            let known = ctl.choose(4);
            let victim = ctl.choose(2);
            // Made unreadable before this read
            let when = ctl.choose(8);
            let n = *ctl.pick(&[100usize, 10_000]);
            ctl.log(|| {
                format!("  CRCs {known}, victim {victim} before read {when}, {n} byte reads")
            });
            op();
            as_nobody(|| {
                let mut b = Builder::<FilesystemEntry>::new();
                for (i, name) in names.iter().enumerate() {
                    let p = s.0.join(name);
                    let m = io(std::fs::symlink_metadata(&p), "lstat");
                    match block(b.add_filesystem_entry(name.to_string(), p, &m)) {
                        Ok(e) if known >> i & 1 == 1 => {
                            e.crc32(crc(&contents[i]));
                        }
                        Ok(_) => {}
                        Err(_) => return fail("add", "adding failed"),
                    }
                }
                let size = b.size();
                let mut r = std::pin::pin!(b.build());
                let mut out = Vec::new();
                let mut reads = 0;
                loop {
                    if reads == when {
                        // As the owner
                        unsafe { libc::setfsuid(0) };
                        let x = std::fs::set_permissions(
                            s.0.join(names[victim]),
                            PermissionsExt::from_mode(0),
                        );
                        unsafe { libc::setfsuid(65534) };
                        io(x, "chmod");
                    }
                    reads += 1;
                    match block(next(r.as_mut(), n, &mut out)) {
                        Ok(0) => {
                            ensure!(
                                when > 0,
                                "content",
                                "an unreadable file was read without error"
                            );
                            let fixed = names
                                .iter()
                                .zip(&contents)
                                .map(|(n, c)| (n.to_string(), Some(c.clone())))
                                .collect();
                            return judge(&out, size, &fixed);
                        }
                        Ok(_) => {}
                        Err(e) => {
                            ensure!(
                                e.kind() == std::io::ErrorKind::PermissionDenied && reads > when,
                                "error",
                                "reading failed: {e}"
                            );
                            return Ok(());
                        }
                    }
                }
            })
            .unwrap_or(Ok(()))
        });
    }
}

/// What can be done with a reader of real files.
#[derive(Clone, Copy, Debug)]
pub enum FOp {
    Read(usize),
    /// Polls once and leaves it at that: the operation of the file may still be running
    Poke(usize),
    Seek(u64),
    Back(i64),
    Clone,
    Take,
}

struct FArch {
    dir: PathBuf,
    bytes: Vec<u8>,
    /// name, path, content, CRC supplied
    es: Vec<(String, PathBuf, Vec<u8>, bool)>,
    offs: Vec<u64>,
}

fn farch_builder(a: &FArch) -> R<Builder<FilesystemEntry>> {
    let mut b = utc();
    for (n, p, c, known) in &a.es {
        let m = io(std::fs::symlink_metadata(p), "metadata");
        match block(b.add_filesystem_entry(n.clone(), p.clone(), &m)) {
            Ok(e) => {
                if *known {
                    e.crc32(crc(c));
                }
            }
            Err(x) => return fail("add", format!("adding {n:?} failed: {x}")),
        }
    }
    Ok(b)
}

/// Every history of a reader of real files (opened, read and positioned by tokio): the library's own
/// asynchronous sources instead of the scripted ones.
pub fn real_files(ctx: &Ctx, name: &str, ops: &[FOp], seeks: bool, depth: usize) {
    let tmp = Tmp::new("real");
    let mut archs = Vec::new();
    let objects: [(&str, char, Vec<u8>); 5] = [
        ("a", 'f', b"0123456789".to_vec()),
        ("d", 'd', vec![]),
        ("link", 'l', b"some/target".to_vec()),
        ("empty", 'f', vec![]),
        ("big", 'f', pat(3, 20_000)),
    ];
    for (pick, known) in [
        (&[0usize][..], 0u32),
        (&[0], 1),
        (&[2, 0], 0),
        (&[2, 0], 3),
        (&[2, 0], 2),
        (&[4, 1, 0], 0),
        (&[4, 1, 0], 1),
        (&[0, 3, 4, 2], 15),
        (&[0, 3, 4, 2], 9),
    ] {
        let s = Scratch::new(&tmp);
        let dir = s.0.clone();
        std::mem::forget(s); // goes with `tmp`
        let mut a = FArch {
            dir,
            bytes: vec![],
            es: vec![],
            offs: vec![],
        };
        for (i, k) in pick.iter().enumerate() {
            let (n, kind, c) = &objects[*k];
            let p = a.dir.join(n);
            match kind {
                'f' => io(std::fs::write(&p, c), "write"),
                'd' => io(std::fs::create_dir(&p), "mkdir"),
                _ => io(symlink(OsStr::from_bytes(c), &p), "symlink"),
            }
            set_time(&p, 1_500_000_000);
            let name = if *kind == 'd' {
                format!("{n}/")
            } else {
                n.to_string()
            };
            a.es.push((name, p, c.clone(), known >> i & 1 == 1));
        }
        let b = match farch_builder(&a).and_then(read_fs) {
            Ok(b) => b,
            Err(f) => std::panic::panic_any(f),
        };
        let contents: Vec<Content> = a.es.iter().map(|e| Content::new(&e.2)).collect();
        let wants: Vec<Want> =
            a.es.iter()
                .zip(&contents)
                .map(|(e, c)| Want {
                    name: &e.0,
                    content: c,
                    crc: crc(&e.2),
                    check_content: true,
                })
                .collect();
        let lay = match zipck::check(&mut &b[..], &wants) {
            Ok(c) => c,
            Err(f) => std::panic::panic_any(f),
        };
        if b.len() < 700 {
            a.offs = (0..b.len() as u64 + 2).collect();
        } else {
            for l in &lay.lay {
                for x in [l.start, l.data_start, l.data_end, l.end, l.cd_start] {
                    a.offs.extend([x.saturating_sub(1), x, x + 1]);
                }
                let m = (l.data_start + l.data_end) / 2;
                a.offs.extend([m, m + 1]);
                if l.data_end - l.data_start > 9000 {
                    a.offs.extend([
                        l.data_start + 8191,
                        l.data_start + 8192,
                        l.data_start + 8193,
                        l.data_start + 16384,
                    ]);
                }
            }
            a.offs
                .extend([0, lay.eocd_off, b.len() as u64 - 1, b.len() as u64, 1 << 40]);
            a.offs.sort();
            a.offs.dedup();
        }
        a.bytes = b;
        archs.push(a);
    }
    ctx.nontrivial
        .fetch_add(archs.len() as u64, Ordering::Relaxed);
    ctx.sample(|| format!("{name}: {} archives of files, directories and symlinks on disk, up to {depth} operations of {ops:?}{}", archs.len(), if seeks { " and seeks" } else { "" }));
    ctx.tree(name, |ctl| {
        let a = ctl.pick(&archs);
        ctl.log(|| {
            format!(
                "archive of {:?}",
                a.es.iter()
                    .map(|e| (&e.0, e.2.len(), e.3))
                    .collect::<Vec<_>>()
            )
        });
        let b = farch_builder(a)?;
        let mut r = Box::pin(b.build());
        let mut pos = 0u64;
        let mut known: Vec<Option<u32>> = a.es.iter().map(|e| e.3.then(|| crc(&e.2))).collect();
        let small = a.bytes.len() < 700;
        let total = ops.len() + usize::from(seeks) * a.offs.len();
        for step in 0..=depth {
            // The last step reads the rest
            let o = if step == depth {
                total
            } else {
                ctl.choose(total + 1)
            };
            let op = if o == total {
                None
            } else if o < ops.len() {
                Some(ops[o])
            } else {
                Some(FOp::Seek(a.offs[o - ops.len()]))
            };
            ctl.log(|| format!("  {op:?} at {pos}"));
            let end = op.is_none();
            match op {
                None | Some(FOp::Read(_)) => {
                    let n = match op {
                        Some(FOp::Read(n)) => n,
                        _ if small => 100,
                        _ => 1 << 16,
                    };
                    loop {
                        let mut out = Vec::new();
                        match block(next(r.as_mut(), n, &mut out)) {
                            Ok(_) => {}
                            Err(e) => {
                                return fail(
                                    "error",
                                    format!("reading {n} bytes at {pos} failed: {e}"),
                                );
                            }
                        }
                        let at = pos.min(a.bytes.len() as u64) as usize;
                        ensure!(
                            a.bytes.get(at..at + out.len()) == Some(&out[..]),
                            "content",
                            "{} bytes delivered at {pos} are wrong",
                            out.len()
                        );
                        ensure!(
                            !out.is_empty() || pos >= a.bytes.len() as u64,
                            "early-eof",
                            "end of file at {pos} of {}",
                            a.bytes.len()
                        );
                        pos += out.len() as u64;
                        ensure!(
                            r.tell() == pos,
                            "tell",
                            "tell() is {} instead of {pos}",
                            r.tell()
                        );
                        if out.is_empty() || !end {
                            break;
                        }
                    }
                }
                Some(FOp::Poke(n)) => {
                    let mut buf = vec![0u8; n];
                    let got = block(async {
                        std::future::poll_fn(|cx| {
                            op_count();
                            let mut b = ReadBuf::new(&mut buf);
                            let x = r.as_mut().poll_read(cx, &mut b);
                            let k = b.filled().len();
                            std::task::Poll::Ready(match x {
                                std::task::Poll::Pending => Ok((true, k)),
                                std::task::Poll::Ready(Ok(())) => Ok((false, k)),
                                std::task::Poll::Ready(Err(e)) => Err(e),
                            })
                        })
                        .await
                    });
                    let (pending, k) = match got {
                        Ok(x) => x,
                        Err(e) => return fail("error", format!("reading at {pos} failed: {e}")),
                    };
                    ensure!(
                        !pending || k == 0,
                        "pending-data",
                        "{k} bytes delivered by a pending read"
                    );
                    let at = pos.min(a.bytes.len() as u64) as usize;
                    ensure!(
                        a.bytes.get(at..at + k) == Some(&buf[..k]),
                        "content",
                        "{k} bytes delivered at {pos} are wrong"
                    );
                    ensure!(
                        pending || k > 0 || pos >= a.bytes.len() as u64,
                        "early-eof",
                        "end of file at {pos}"
                    );
                    pos += k as u64;
                }
                Some(FOp::Seek(p)) => {
                    r.as_mut().seek_from_start_pinned(p);
                    pos = p;
                }
                Some(FOp::Back(d)) => {
                    let res = block(tokio::io::AsyncSeekExt::seek(
                        &mut r,
                        std::io::SeekFrom::Current(d),
                    ));
                    match (res, pos.checked_add_signed(d)) {
                        (Ok(x), Some(p)) => {
                            ensure!(x == p, "seek", "seek to {p} reported {x}");
                            pos = p;
                        }
                        (Err(e), None) => ensure!(
                            e.kind() == std::io::ErrorKind::InvalidInput,
                            "seek-error",
                            "seeking before the start gives {:?}",
                            e.kind()
                        ),
                        (x, p) => {
                            return fail("seek", format!("seek by {d} from {pos} to {p:?}: {x:?}"));
                        }
                    }
                }
                Some(FOp::Clone) => r = Box::pin((*r).clone()),
                Some(FOp::Take) => {
                    let t = r.as_mut().take_pinned();
                    ensure!(
                        r.tell() == 0 && r.crc32s().next().is_none(),
                        "dummy",
                        "the reader left behind is no fresh one"
                    );
                    r = Box::pin(t);
                }
            }
            ensure!(
                r.tell() == pos && r.size() == a.bytes.len() as u64,
                "tell",
                "tell() and size() are {} and {} instead of {pos} and {}",
                r.tell(),
                r.size(),
                a.bytes.len()
            );
            let mut list: BTreeMap<&str, u32> = r.crc32s().collect();
            for (i, e) in a.es.iter().enumerate() {
                let k = list.remove(e.0.as_str());
                ensure!(
                    k.is_none_or(|k| k == crc(&e.2)),
                    "crc-wrong",
                    "{:?} is listed with {k:08x?}",
                    e.0
                );
                ensure!(
                    k.is_some() || known[i].is_none(),
                    "crc-lost",
                    "{:?} is no longer listed",
                    e.0
                );
                known[i] = k;
            }
            ensure!(list.is_empty(), "crc-list", "unknown entries {list:?}");
            if end {
                break;
            }
        }
        Ok(())
    });
    drop(tmp);
}

fn op_count() {
    op();
}
