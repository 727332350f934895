"""More planted bugs."""
from defs import seed, HEAD, R, B, S, E, C, F, Y, A, ACTIX

seed("C03-clear-on-mismatch", "C03", "a caller's buffer that already contains bytes, and an entry longer than declared",
 "when an entry turns out too long, bytes that were in the caller's buffer before the call are thrown away",
 [(R, """                let filled_before = output.filled().len() - written_chunk_size;
                output.set_filled(filled_before);""", """                output.clear();""")],
 HEAD + r'''
use tokio::io::{AsyncRead, ReadBuf};
fn main() {
    let mut r = pin!(builder(&[("a", src(b"abc").declare(2))]).build());
    read_exact(r.as_mut(), 59);
    let mut v = [0; 100];
    let mut b = ReadBuf::new(&mut v);
    b.put_slice(b"mine");
    let Poll::Ready(Err(_)) = r.as_mut().poll_read(&mut cx(), &mut b) else { panic!("no error") };
    assert_eq!(b.filled(), b"mine");
}
''')

seed("C06-interrupted", "C06", "a source that fails with ErrorKind::Interrupted",
 "interrupted reads of a source are not reported",
 [(C, """        ready!(projected.inner_reader.poll_read(data, cx, buf))?;
""", """        match ready!(projected.inner_reader.poll_read(data, cx, buf)) {
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            result => result?,
        }
""")],
 HEAD + r'''
fn main() {
    let s = src(b"abcdef");
    s.script(&[Go(9), Go(2), Fail(ErrorKind::Interrupted)]);
    let mut r = pin!(builder(&[("a", s)]).build());
    read_exact(r.as_mut(), 61);
    let e = read(r.as_mut(), 10).unwrap_err();
    assert_eq!((e.kind(), e.to_string().as_str()), (ErrorKind::Interrupted, "scripted"));
}
''')

seed("C06-wouldblock", "C06", "a source whose repositioning fails with ErrorKind::WouldBlock",
 "an error of kind WouldBlock becomes pending",
 [(C, """        Poll::Ready(result)
    }
}
""", """        match result {
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Poll::Pending,
            result => Poll::Ready(result),
        }
    }
}
""")],
 HEAD + r'''
fn main() {
    let s = src(b"abcdef");
    s.script(&[Go(9), Fail(ErrorKind::WouldBlock)]);
    let mut b = builder(&[("a", s)]);
    b.get_entries_mut()[0].crc32(0x4b8e39ef);
    let mut r = pin!(b.build());
    r.as_mut().seek_from_start_pinned(62);
    let Poll::Ready(Err(e)) = poll_read(r.as_mut(), 10) else { panic!("no error") };
    assert_eq!(e.kind(), ErrorKind::WouldBlock);
}
''')

seed("C06-loses-os-error", "C06", "a source failing with an operating system's error, and a caller looking at its code",
 "errors of opening are wrapped: kind and text stay, the error code is lost",
 [(R, """                    pinned.set(ReaderPinned::Nothing);
                    return Poll::Ready(Err(e));""", """                    pinned.set(ReaderPinned::Nothing);
                    return Poll::Ready(Err(std::io::Error::new(e.kind(), e.to_string())));""")],
 HEAD + r'''
use std::{future::{Ready, ready}, io::{Error, Result, Cursor}};
struct D;
impl EntryData for D {
    type Reader = Cursor<Vec<u8>>;
    type Future = Ready<Result<Self::Reader>>;
    fn get_reader(&self) -> Self::Future { ready(Err(Error::from_raw_os_error(5))) }
    fn size(&self) -> u64 { 3 }
}
fn main() {
    let mut b = Builder::<D>::new();
    b.add_entry("a".to_string(), D).unwrap();
    let mut r = pin!(b.build());
    let (_, e) = read_to_end(r.as_mut(), 10);
    assert_eq!(e.unwrap().raw_os_error(), Some(5));
}
''')

seed("C10-take-keeps-open", "C10", "taking a reader while an entry is open",
 "what a taken reader leaves behind keeps the entry's source open",
 [(R, "        projected.pinned.set(empty.pinned);\n        let pinned = ReaderPinned::Nothing;\n", "        let pinned = empty.pinned;\n")],
 HEAD + r'''
fn main() {
    let s = src(b"abcdef");
    let mut r = pin!(builder(&[("a", s.clone())]).build());
    read_exact(r.as_mut(), 60);
    assert_eq!(s.open_now(), 1);
    let t = r.as_mut().take_pinned();
    assert_eq!(s.open_now(), 0);
    drop(t);
}
''')

seed("C13-skip-unreadable", "C13", "a subdirectory that can't be listed",
 "subdirectories that can't be listed are skipped silently",
 [(F, """            let mut dir = read_dir(path).await?;
""", """            let mut dir = match read_dir(&path).await {
                Ok(dir) => dir,
                Err(_) if path != directory => continue,
                Err(e) => return Err(e.into()),
            };
""")],
 HEAD + r'''
// A tree so deep that its path is too long to be listed
fn main() {
    let d = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap());
    let root = d.join("root");
    std::fs::create_dir(&root).unwrap();
    std::env::set_current_dir(&root).unwrap();
    let n = "x".repeat(200);
    for _ in 0..30 {
        std::fs::create_dir(&n).unwrap();
        std::env::set_current_dir(&n).unwrap();
    }
    std::fs::write("file", "content").unwrap();
    std::env::set_current_dir("/").unwrap();
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let mut b = Builder::new();
    let res = rt.block_on(b.add_directory_recursive(root.clone(), None));
    assert!(res.is_err() || b.get_entries().len() == 31, "{} entries", b.get_entries().len());
}
''')

seed("C15-fused", "C15", "a stream that came to its end, whose reader is then repositioned",
 "the stream stays at its end although its reader was moved back",
 [(Y, "    buffer: BytesMut,\n}", "    buffer: BytesMut,\n    ended: bool,\n}"),
  (Y, "        assert!(projected.buffer.is_empty());", "        if *projected.ended {\n            return Poll::Ready(None);\n        }\n        assert!(projected.buffer.is_empty());"),
  (Y, "        if n == 0 {\n", "        if n == 0 {\n            *projected.ended = true;\n"),
  (Y, "            buffer: BytesMut::with_capacity(READ_SIZE),\n        }", "            buffer: BytesMut::with_capacity(READ_SIZE),\n            ended: false,\n        }")],
 HEAD + r'''
use futures_core::Stream;
fn main() {
    let mut s = pin!(builder(&[("a", src(b"abc"))]).build().into_bytes_stream());
    while let Poll::Ready(Some(_)) = s.as_mut().poll_next(&mut cx()) {}
    s.as_mut().reader_pin_mut().seek_from_start_pinned(0);
    assert!(matches!(s.as_mut().poll_next(&mut cx()), Poll::Ready(Some(Ok(_)))));
}
''', features=["bytes"], deps='futures-core = "0.3"')

seed("C16-skip-limit", "C16", "skipping a multiple of 4 GiB inside of an entry whose CRC is unknown",
 "the amount to skip is truncated to 32 bits",
 [(R, "let limit = self.to_skip.try_into().unwrap_or(usize::MAX);", "let limit = (self.to_skip as u32) as usize;")],
 HEAD + r'''
use std::{future::{Ready, ready}, io::{Result, SeekFrom}};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
const LEN: u64 = (1 << 32) + 10;
struct D;
struct Rd(u64);
impl EntryData for D {
    type Reader = Rd;
    type Future = Ready<Result<Rd>>;
    fn get_reader(&self) -> Self::Future { ready(Ok(Rd(0))) }
    fn size(&self) -> u64 { LEN }
}
impl AsyncRead for Rd {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut std::task::Context<'_>, b: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        let n = (LEN - self.0).min(b.remaining() as u64) as usize;
        let last = self.0 + n as u64 == LEN;
        let s = b.initialize_unfilled_to(n);
        s.fill(7);
        if last && n > 0 { s[n - 1] = 9; }
        b.advance(n);
        self.0 += n as u64;
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for Rd {
    fn start_seek(mut self: Pin<&mut Self>, p: SeekFrom) -> Result<()> {
        let SeekFrom::Start(p) = p else { panic!() };
        self.0 = p;
        Ok(())
    }
    fn poll_complete(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<Result<u64>> { Poll::Ready(Ok(self.0)) }
}
fn main() {
    let mut b = Builder::<D>::new();
    b.add_entry("a".to_string(), D).unwrap();
    let mut r = pin!(b.build());
    r.as_mut().seek_from_start_pinned(59 + (1 << 32));
    assert_eq!(read_exact(r.as_mut(), 10), [7, 7, 7, 7, 7, 7, 7, 7, 7, 9]);
}
''')

seed("C19-slurp", "C19", "a large file on disk",
 "files are read into memory as a whole when they are opened",
 [(F, "        file_future: Pin<Box<dyn Future<Output = std::io::Result<File>>>>,", "        file_future: Pin<Box<dyn Future<Output = std::io::Result<Vec<u8>>>>>,"),
  (F, "file_future: Box::pin(File::open(self.path.clone())),", "file_future: Box::pin(tokio::fs::read(self.path.clone())),"),
  (F, "                Poll::Ready(Ok(FilesystemEntryReader::File(inner_reader)))", "                Poll::Ready(Ok(FilesystemEntryReader::Symlink(Cursor::new(\n                    inner_reader.into(),\n                ))))")],
 HEAD + r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct Counting;
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BIGGEST.fetch_max(l.size(), Relaxed); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let f = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap()).join("f");
    std::fs::File::create(&f).unwrap().set_len(50 << 20).unwrap();
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    rt.block_on(async {
        let mut b = Builder::new();
        let m = std::fs::metadata(&f).unwrap();
        b.add_filesystem_entry("f".into(), f, &m).await.unwrap();
        let mut r = pin!(b.build());
        let mut v = [0; 1000];
        for _ in 0..10 {
            tokio::io::AsyncReadExt::read(&mut r, &mut v).await.unwrap();
        }
    });
    assert!(BIGGEST.load(Relaxed) < 4 << 20, "allocated {} bytes", BIGGEST.load(Relaxed));
}
''', features=["tokio-file"])

seed("C18-error-rewinds", "C18", "a source error while a response is being sent",
 "after an error the reader handed back stands at the start",
 [(A, """        let block = ready!(bytes_stream.poll_next(cx)).expect(""", """        let mut bytes_stream = bytes_stream;
        let next = ready!(bytes_stream.as_mut().poll_next(cx));
        if let Some(Err(e)) = next {
            // Whoever uses the reader next has to start over
            bytes_stream.reader_pin_mut().seek_from_start_pinned(0);
            return Poll::Ready(Some(Err(e)));
        }
        let block = next.expect(""")],
 HEAD + r'''
use actix_web::{Responder, body::MessageBody};
fn main() {
    let s = src(b"abcdef");
    s.script(&[Go(9), Fail(ErrorKind::Other)]);
    let (a, mut rx) = builder(&[("a", s)]).build().into_responder_with_channel();
    let resp = a.respond_to(&actix_web::test::TestRequest::get().to_http_request());
    let mut body = Box::pin(resp.into_body());
    let mut n = 0;
    loop {
        match body.as_mut().poll_next(&mut cx()) {
            Poll::Ready(Some(Ok(b))) => n += b.len() as u64,
            Poll::Ready(Some(Err(_))) => break,
            _ => panic!(),
        }
    }
    drop(body);
    assert_eq!(rx.try_recv().unwrap().tell(), n);
}
''', features=["actix-web"], deps=ACTIX)
