//! Scripted entry sources and small helpers for the demonstrations.
#![allow(dead_code)]
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io::{Error, ErrorKind, Result, SeekFrom};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{Builder, EntryData, Reader};

#[derive(Clone, Copy, Debug)]
pub enum Act {
    /// Answer normally, with at most this many bytes when reading
    Go(usize),
    Pend,
    Fail(ErrorKind),
}
pub use Act::*;

#[derive(Default, Debug)]
pub struct Shared {
    pub script: VecDeque<Act>,
    pub opens: usize,
    pub open_now: usize,
    pub reads: usize,
    pub seeks: Vec<u64>,
    pub pending_calls: usize,
    /// How many of the next start_seek calls fail
    pub fail_start_seek: usize,
}

impl Shared {
    fn act(&mut self) -> Act {
        let a = self.script.pop_front().unwrap_or(Go(usize::MAX));
        if let Pend = a {
            self.pending_calls += 1;
        }
        a
    }
}

#[derive(Clone, Debug)]
pub struct Src {
    pub content: Rc<Vec<u8>>,
    pub declared: u64,
    pub sh: Rc<RefCell<Shared>>,
}

pub fn src(content: &[u8]) -> Src {
    Src { content: Rc::new(content.to_vec()), declared: content.len() as u64, sh: Rc::default() }
}

impl Src {
    pub fn declare(mut self, n: u64) -> Src {
        self.declared = n;
        self
    }
    /// Sets how the next calls (open, read, completion of a seek) are answered
    pub fn script(&self, a: &[Act]) {
        self.sh.borrow_mut().script = a.iter().copied().collect();
    }
    pub fn opens(&self) -> usize {
        self.sh.borrow().opens
    }
    pub fn open_now(&self) -> usize {
        self.sh.borrow().open_now
    }
}

#[derive(Debug)]
pub struct Opening(Src);
#[derive(Debug)]
pub struct SrcReader {
    src: Src,
    pos: u64,
    target: Option<u64>,
}

impl Drop for SrcReader {
    fn drop(&mut self) {
        self.src.sh.borrow_mut().open_now -= 1;
    }
}

impl EntryData for Src {
    type Reader = SrcReader;
    type Future = Opening;
    fn get_reader(&self) -> Opening {
        self.sh.borrow_mut().opens += 1;
        Opening(self.clone())
    }
    fn size(&self) -> u64 {
        self.declared
    }
}

impl Future for Opening {
    type Output = Result<SrcReader>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let a = self.0.sh.borrow_mut().act();
        match a {
            Pend => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Fail(k) => Poll::Ready(Err(Error::new(k, "scripted"))),
            Go(_) => {
                self.0.sh.borrow_mut().open_now += 1;
                Poll::Ready(Ok(SrcReader { src: self.0.clone(), pos: 0, target: None }))
            }
        }
    }
}

impl AsyncRead for SrcReader {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        let a = {
            let mut sh = self.src.sh.borrow_mut();
            sh.reads += 1;
            sh.act()
        };
        match a {
            Pend => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Fail(k) => Poll::Ready(Err(Error::new(k, "scripted"))),
            Go(max) => {
                let content = Rc::clone(&self.src.content);
                let rest = &content[(self.pos as usize).min(content.len())..];
                let n = rest.len().min(buf.remaining()).min(max);
                buf.put_slice(&rest[..n]);
                self.pos += n as u64;
                Poll::Ready(Ok(()))
            }
        }
    }
}

impl AsyncSeek for SrcReader {
    fn start_seek(mut self: Pin<&mut Self>, position: SeekFrom) -> Result<()> {
        let SeekFrom::Start(p) = position else { panic!("unexpected kind of seek") };
        {
            let mut sh = self.src.sh.borrow_mut();
            if sh.fail_start_seek > 0 {
                sh.fail_start_seek -= 1;
                return Err(Error::other("scripted"));
            }
            sh.seeks.push(p);
        }
        self.target = Some(p);
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<u64>> {
        let a = self.src.sh.borrow_mut().act();
        match a {
            Pend => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Fail(k) => {
                self.target = None;
                Poll::Ready(Err(Error::new(k, "scripted")))
            }
            Go(_) => {
                if let Some(t) = self.target.take() {
                    self.pos = t;
                }
                Poll::Ready(Ok(self.pos))
            }
        }
    }
}

pub fn cx() -> Context<'static> {
    Context::from_waker(Waker::noop())
}

/// One poll of a read of at most n bytes
pub fn poll_read<D: EntryData>(r: Pin<&mut Reader<D>>, n: usize) -> Poll<Result<Vec<u8>>> {
    let mut v = vec![0; n];
    let mut b = ReadBuf::new(&mut v);
    match r.poll_read(&mut cx(), &mut b) {
        Poll::Pending => {
            assert_eq!(b.filled().len(), 0, "bytes delivered together with pending");
            Poll::Pending
        }
        Poll::Ready(Ok(())) => {
            let l = b.filled().len();
            v.truncate(l);
            Poll::Ready(Ok(v))
        }
        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
    }
}

/// Polls one read until it is ready
pub fn read<D: EntryData>(mut r: Pin<&mut Reader<D>>, n: usize) -> Result<Vec<u8>> {
    for _ in 0..100_000 {
        if let Poll::Ready(x) = poll_read(r.as_mut(), n) {
            return x;
        }
    }
    panic!("pending forever");
}

/// Reads until end of file or an error
pub fn read_to_end<D: EntryData>(mut r: Pin<&mut Reader<D>>, n: usize) -> (Vec<u8>, Option<Error>) {
    let mut out = Vec::new();
    loop {
        match read(r.as_mut(), n) {
            Ok(v) if v.is_empty() => return (out, None),
            Ok(v) => out.extend(v),
            Err(e) => return (out, Some(e)),
        }
        assert!(out.len() < 1 << 26, "reading does not end");
    }
}

/// Reads exactly n bytes
pub fn read_exact<D: EntryData>(mut r: Pin<&mut Reader<D>>, n: usize) -> Vec<u8> {
    let mut out = Vec::new();
    while out.len() < n {
        let v = read(r.as_mut(), n - out.len()).unwrap();
        assert!(!v.is_empty(), "end of file after {} of {n} bytes", out.len());
        out.extend(v);
    }
    out
}

pub fn whole<D: EntryData>(r: Reader<D>) -> Vec<u8> {
    let mut r = Box::pin(r);
    let (v, e) = read_to_end(r.as_mut(), 8192);
    assert!(e.is_none(), "{e:?}");
    v
}

pub fn builder(entries: &[(&str, Src)]) -> Builder<Src> {
    let mut b = Builder::new();
    for (n, s) in entries {
        b.add_entry(n.to_string(), s.clone()).unwrap();
    }
    b
}

pub fn u16_at(b: &[u8], o: usize) -> u64 {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap()).into()
}
pub fn u32_at(b: &[u8], o: usize) -> u64 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap()).into()
}
pub fn u64_at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}

/// Offset of the n-th record with the given last two signature bytes ("PK" + these)
pub fn find(b: &[u8], sig: [u8; 2], n: usize) -> usize {
    b.windows(4).enumerate().filter(|(_, w)| w[..2] == *b"PK" && w[2..] == sig).nth(n).expect("record").0
}
pub const LOCAL: [u8; 2] = [3, 4];
pub const CENTRAL: [u8; 2] = [1, 2];
pub const DESCRIPTOR: [u8; 2] = [7, 8];

/// Runs a future that does not depend on any runtime
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    for _ in 0..1_000_000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx()) {
            return x;
        }
    }
    panic!("pending forever");
}
