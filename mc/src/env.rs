//! Scripted entry sources: every answer they can give is a choice of the explorer.
use crate::ctl::Ctl;
use std::cell::{Cell, RefCell};
use std::fmt::{Debug, Formatter};
use std::future::Future;
use std::io::{Error, ErrorKind, Result, SeekFrom};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::EntryData;

/// Entry content that doesn't need to be stored.
#[derive(Clone)]
pub enum Content {
    Bytes(Arc<[u8]>),
    /// Pseudo random bytes determined by the position
    Pattern {
        seed: u8,
        len: u64,
    },
    Fill {
        byte: u8,
        len: u64,
    },
}

pub fn pattern(seed: u8, i: u64) -> u8 {
    let x = i
        .wrapping_add(1)
        .wrapping_mul(0x9e37_79b9_7f4a_7c15)
        .wrapping_add((seed as u64) << 32);
    ((x >> 56) ^ (x >> 24)) as u8
}

impl Content {
    pub fn new(b: &[u8]) -> Content {
        Content::Bytes(b.into())
    }
    pub fn len(&self) -> u64 {
        match self {
            Content::Bytes(b) => b.len() as u64,
            Content::Pattern { len, .. } | Content::Fill { len, .. } => *len,
        }
    }
    pub fn at(&self, i: u64) -> u8 {
        match self {
            Content::Bytes(b) => b[i as usize],
            Content::Pattern { seed, .. } => pattern(*seed, i),
            Content::Fill { byte, .. } => *byte,
        }
    }
    pub fn copy(&self, from: u64, out: &mut [u8]) {
        match self {
            Content::Bytes(b) => out.copy_from_slice(&b[from as usize..from as usize + out.len()]),
            Content::Pattern { seed, .. } => {
                for (k, o) in out.iter_mut().enumerate() {
                    *o = pattern(*seed, from + k as u64);
                }
            }
            Content::Fill { byte, .. } => out.fill(*byte),
        }
    }
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = vec![0; self.len() as usize];
        self.copy(0, &mut v);
        v
    }
    pub fn crc(&self) -> u32 {
        match self {
            Content::Bytes(b) => crc(b),
            _ => {
                let mut h = crc32fast::Hasher::new();
                let mut buf = vec![0u8; 1 << 16];
                let mut at = 0;
                while at < self.len() {
                    let n = (self.len() - at).min(buf.len() as u64) as usize;
                    self.copy(at, &mut buf[..n]);
                    h.update(&buf[..n]);
                    at += n as u64;
                }
                h.finalize()
            }
        }
    }
}

/// CRC-32 by definition, independent of the library used by the code under test.
pub fn crc(b: &[u8]) -> u32 {
    static TABLE: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = TABLE.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, x) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 == 1 {
                    0xedb8_8320 ^ (c >> 1)
                } else {
                    c >> 1
                };
            }
            *x = c;
        }
        t
    });
    let mut c = !0u32;
    for x in b {
        c = t[((c ^ *x as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

pub const OPEN_PENDING: u16 = 1;
pub const OPEN_ERR: u16 = 2;
pub const READ_PENDING: u16 = 4;
pub const READ_SHORT: u16 = 8;
pub const READ_ERR: u16 = 16;
pub const SEEK_START_ERR: u16 = 32;
pub const SEEK_PENDING: u16 = 64;
pub const SEEK_ERR: u16 = 128;
pub const PENDINGS: u16 = OPEN_PENDING | READ_PENDING | SEEK_PENDING;
/// Errors are of every kind instead of taking turns
pub const KINDS: u16 = 256;
pub const ERRORS: u16 = OPEN_ERR | READ_ERR | SEEK_START_ERR | SEEK_ERR;

/// The error of a source
#[derive(Debug)]
struct Injected(u32, String);

impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.1)
    }
}

impl std::error::Error for Injected {}

/// An error given by a source
#[derive(Clone, Debug)]
pub struct Inj {
    kind: ErrorKind,
    text: String,
    id: Option<u32>,
    raw: Option<i32>,
}

impl Inj {
    /// Is this that very error?
    pub fn is(&self, e: &Error) -> bool {
        let id = e
            .get_ref()
            .and_then(|x| x.downcast_ref::<Injected>())
            .map(|x| x.0);
        e.kind() == self.kind
            && e.to_string() == self.text
            && id == self.id
            && e.raw_os_error() == self.raw
    }
}

/// What happened, as seen by the entry sources.
pub struct Env {
    pub ctl: Ctl,
    pub faults: Cell<u16>,
    /// No choices are made while set, everything is answered at once
    pub quiet: Cell<bool>,
    pub opens: RefCell<Vec<u32>>,
    pub opened_ok: RefCell<Vec<u32>>,
    pub live: RefCell<Vec<u32>>,
    pub max_live: Cell<u32>,
    /// Futures opening an entry that exist
    pub opening: Cell<u32>,
    /// (entry, from, len) of every read from a source, and of every seek as (entry, to, u64::MAX)
    pub reads: RefCell<Vec<(usize, u64, u64)>>,
    pub bytes_read: RefCell<Vec<u64>>,
    pub pending_in_op: Cell<u32>,
    pub errs_in_op: RefCell<Vec<Inj>>,
    pub opens_in_op: RefCell<Vec<usize>>,
    pub err_seq: Cell<u32>,
    pub polls_in_op: Cell<u64>,
    pub waker: RefCell<Option<Waker>>,
    /// Protocol breaches: (category, text)
    pub flags: RefCell<Vec<(&'static str, String)>>,
    pub max_buf: Cell<usize>,
    pub poll_cap: Cell<u64>,
    /// Without choices: every n-th source call is pending
    pub stutter: Cell<u64>,
    /// Without choices: every n-th source call fails
    pub fail_every: Cell<u64>,
    stuttered: Cell<u64>,
    /// Longest read, if not 0
    pub dribble: Cell<u64>,
}

pub type EnvRef = Rc<Env>;

impl Env {
    pub fn new(ctl: &Ctl, entries: usize, faults: u16) -> EnvRef {
        Rc::new(Env {
            ctl: ctl.clone(),
            faults: Cell::new(faults),
            quiet: Cell::new(false),
            opens: RefCell::new(vec![0; entries]),
            opened_ok: RefCell::new(vec![0; entries]),
            live: RefCell::new(vec![0; entries]),
            max_live: Cell::new(0),
            opening: Cell::new(0),
            reads: RefCell::new(Vec::new()),
            bytes_read: RefCell::new(vec![0; entries]),
            pending_in_op: Cell::new(0),
            errs_in_op: RefCell::new(Vec::new()),
            opens_in_op: RefCell::new(Vec::new()),
            err_seq: Cell::new(0),
            polls_in_op: Cell::new(0),
            waker: RefCell::new(None),
            flags: RefCell::new(Vec::new()),
            max_buf: Cell::new(0),
            poll_cap: Cell::new(u64::MAX),
            stutter: Cell::new(0),
            fail_every: Cell::new(0),
            stuttered: Cell::new(0),
            dribble: Cell::new(0),
        })
    }
    pub fn begin_op(&self, waker: Option<&Waker>) {
        self.pending_in_op.set(0);
        self.errs_in_op.borrow_mut().clear();
        self.opens_in_op.borrow_mut().clear();
        self.reads.borrow_mut().clear();
        self.polls_in_op.set(0);
        *self.waker.borrow_mut() = waker.cloned();
    }
    pub fn live_total(&self) -> u32 {
        self.live.borrow().iter().sum()
    }
    pub fn flag(&self, cat: &'static str, m: impl Into<String>) {
        if !self.quiet.get() {
            self.flags.borrow_mut().push((cat, m.into()));
        }
    }
    fn poll(&self, cx: &Context<'_>) {
        let n = self.polls_in_op.get() + 1;
        self.polls_in_op.set(n);
        if n > self.poll_cap.get() {
            panic!("a single call polled the entry source {n} times without returning");
        }
        if let Some(w) = &*self.waker.borrow() {
            if !cx.waker().will_wake(w) {
                self.flag(
                    "waker",
                    "an entry source was polled with a waker other than the caller's",
                );
            }
        }
    }
    fn pending(&self) {
        self.pending_in_op.set(self.pending_in_op.get() + 1);
    }
    fn err(&self, what: &str) -> Error {
        let n = self.err_seq.get();
        self.err_seq.set(n + 1);
        let kinds = [
            ErrorKind::PermissionDenied,
            ErrorKind::Interrupted,
            ErrorKind::UnexpectedEof,
            ErrorKind::WouldBlock,
            ErrorKind::Other,
        ];
        let k = if self.faults.get() & KINDS != 0 && !self.quiet.get() {
            self.ctl.choose(kinds.len() + 1)
        } else {
            n as usize % (kinds.len() + 1)
        };
        let (inj, error) = match kinds.get(k) {
            Some(kind) => {
                let text = format!("injected {what} #{n}");
                (
                    Inj {
                        kind: *kind,
                        text: text.clone(),
                        id: Some(n),
                        raw: None,
                    },
                    Error::new(*kind, Injected(n, text)),
                )
            }
            None => {
                let e = Error::from_raw_os_error(5);
                (
                    Inj {
                        kind: e.kind(),
                        text: e.to_string(),
                        id: None,
                        raw: Some(5),
                    },
                    e,
                )
            }
        };
        self.ctl
            .log(|| format!("      source: {what} fails ({:?}, {})", inj.kind, inj.text));
        self.errs_in_op.borrow_mut().push(inj);
        error
    }
    /// Picks one of the enabled answers: 0 = ordinary.
    fn answer(&self, options: &[u16]) -> u16 {
        let (stutter, fail) = (self.stutter.get(), self.fail_every.get());
        if stutter > 0 || fail > 0 {
            let n = self.stuttered.get() + 1;
            self.stuttered.set(n);
            let pick = |mask| options.iter().copied().find(|o| o & mask != 0);
            return if fail > 0 && n % fail == 0 {
                pick(ERRORS).unwrap_or(0)
            } else if stutter > 0 && n % stutter == 0 {
                pick(PENDINGS).unwrap_or(0)
            } else {
                0
            };
        }
        if self.quiet.get() {
            return 0;
        }
        let f = self.faults.get();
        let mut n = 1;
        for o in options {
            if f & o != 0 {
                n += 1;
            }
        }
        let c = self.ctl.choose_dev(n);
        if c == 0 {
            return 0;
        }
        let mut k = 0;
        for o in options {
            if f & o != 0 {
                k += 1;
                if k == c {
                    return *o;
                }
            }
        }
        unreachable!()
    }
}

/// Entry data answered by the explorer.
#[derive(Clone)]
pub struct Ed {
    pub env: EnvRef,
    pub idx: usize,
    pub declared: u64,
    pub content: Content,
}

impl Debug for Ed {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "E{}", self.idx)
    }
}

impl EntryData for Ed {
    type Reader = Er;
    type Future = Ef;
    fn get_reader(&self) -> Ef {
        let e = &self.env;
        if !e.quiet.get() {
            e.opens.borrow_mut()[self.idx] += 1;
            e.opens_in_op.borrow_mut().push(self.idx);
            if self.declared == 0 {
                e.flag("open-empty", format!("empty entry {} was opened", self.idx));
            }
        }
        e.ctl.log(|| format!("      source {}: open", self.idx));
        if !e.quiet.get() {
            e.opening.set(e.opening.get() + 1);
        }
        Ef {
            ed: self.clone(),
            done: false,
            quiet: e.quiet.get(),
        }
    }
    fn size(&self) -> u64 {
        self.declared
    }
}

pub struct Ef {
    ed: Ed,
    done: bool,
    quiet: bool,
}

impl Debug for Ef {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{}", self.ed.idx, self.done)
    }
}

impl Drop for Ef {
    fn drop(&mut self) {
        if !self.quiet {
            self.ed.env.opening.set(self.ed.env.opening.get() - 1);
        }
    }
}

impl Future for Ef {
    type Output = Result<Er>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<Er>> {
        let env = self.ed.env.clone();
        env.poll(cx);
        if self.done {
            panic!("the future opening an entry was polled after it had completed");
        }
        match env.answer(&[OPEN_PENDING, OPEN_ERR]) {
            OPEN_PENDING => {
                env.ctl
                    .log(|| format!("      source {}: open pending", self.ed.idx));
                env.pending();
                Poll::Pending
            }
            OPEN_ERR => {
                self.done = true;
                Poll::Ready(Err(env.err("open")))
            }
            _ => {
                self.done = true;
                if !self.quiet {
                    env.opened_ok.borrow_mut()[self.ed.idx] += 1;
                    env.live.borrow_mut()[self.ed.idx] += 1;
                    let l = env.live_total();
                    env.max_live.set(env.max_live.get().max(l));
                }
                Poll::Ready(Ok(Er {
                    ed: self.ed.clone(),
                    pos: 0,
                    seeking: None,
                    poisoned: false,
                    quiet: self.quiet,
                }))
            }
        }
    }
}

pub struct Er {
    ed: Ed,
    pos: u64,
    seeking: Option<u64>,
    poisoned: bool,
    quiet: bool,
}

impl Drop for Er {
    fn drop(&mut self) {
        if !self.quiet {
            self.ed.env.live.borrow_mut()[self.ed.idx] -= 1;
        }
    }
}

impl Debug for Er {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "{}@{},{:?},{}",
            self.ed.idx, self.pos, self.seeking, self.poisoned
        )
    }
}

impl AsyncRead for Er {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<Result<()>> {
        let env = self.ed.env.clone();
        env.poll(cx);
        if self.seeking.is_some() {
            env.flag(
                "read-while-seeking",
                "an entry source was read before its repositioning had completed",
            );
        }
        if self.poisoned {
            env.flag(
                "read-after-failed-seek",
                "an entry source was read at an unknown position after its repositioning had failed",
            );
        }
        env.max_buf.set(env.max_buf.get().max(buf.remaining()));
        let left = self.ed.content.len().saturating_sub(self.pos);
        let mut n = left.min(buf.remaining() as u64);
        if env.dribble.get() > 0 {
            n = n.min(env.dribble.get());
        }
        let opts: &[u16] = if n > 1 {
            &[READ_PENDING, READ_SHORT, READ_ERR]
        } else {
            &[READ_PENDING, READ_ERR]
        };
        let n = match env.answer(opts) {
            READ_PENDING => {
                env.ctl
                    .log(|| format!("      source {}: read pending", self.ed.idx));
                env.pending();
                return Poll::Pending;
            }
            READ_ERR => return Poll::Ready(Err(env.err("read"))),
            READ_SHORT => 1,
            _ => n,
        };
        env.ctl.log(|| {
            format!(
                "      source {}: read {n} of {} at {}",
                self.ed.idx,
                buf.remaining(),
                self.pos
            )
        });
        let at = self.pos;
        let slot = buf.initialize_unfilled_to(n as usize);
        self.ed.content.copy(at, slot);
        buf.advance(n as usize);
        if !self.quiet {
            // Long skips would make this list grow
            let mut r = env.reads.borrow_mut();
            match r.last_mut() {
                Some(l) if l.0 == self.ed.idx && l.2 != u64::MAX && l.1 + l.2 == at => l.2 += n,
                _ => r.push((self.ed.idx, at, n)),
            }
            env.bytes_read.borrow_mut()[self.ed.idx] += n;
        }
        self.pos += n;
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for Er {
    fn start_seek(mut self: Pin<&mut Self>, pos: SeekFrom) -> Result<()> {
        let env = self.ed.env.clone();
        if self.seeking.is_some() {
            env.flag(
                "seek-while-seeking",
                "an entry source was repositioned while repositioning was in progress",
            );
        }
        if env.answer(&[SEEK_START_ERR]) != 0 {
            return Err(env.err("start_seek"));
        }
        let to = match pos {
            SeekFrom::Start(x) => Some(x),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => self.ed.content.len().checked_add_signed(d),
        };
        let Some(to) = to else {
            env.flag("bad-seek", "an entry source was positioned out of range");
            return Err(Error::new(ErrorKind::InvalidInput, "seek out of range"));
        };
        env.ctl
            .log(|| format!("      source {}: seek to {to}", self.ed.idx));
        self.seeking = Some(to);
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<u64>> {
        let env = self.ed.env.clone();
        env.poll(cx);
        let Some(to) = self.seeking else {
            return Poll::Ready(Ok(self.pos));
        };
        match env.answer(&[SEEK_PENDING, SEEK_ERR]) {
            SEEK_PENDING => {
                env.ctl
                    .log(|| format!("      source {}: seek pending", self.ed.idx));
                env.pending();
                Poll::Pending
            }
            SEEK_ERR => {
                self.seeking = None;
                self.poisoned = true;
                Poll::Ready(Err(env.err("seek")))
            }
            _ => {
                self.seeking = None;
                self.poisoned = false;
                self.pos = to;
                if !self.quiet {
                    env.reads.borrow_mut().push((self.ed.idx, to, u64::MAX));
                }
                Poll::Ready(Ok(to))
            }
        }
    }
}
