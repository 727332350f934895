"""Planted bugs, fifth round."""
from defs import seed, HEAD, R, B, S, E, C, F, Y, A

seed("C15-retry-interrupted", "C15", "a source that fails with ErrorKind::Interrupted under a stream",
 "the stream reads again by itself after an interrupted read, the error never reaches the consumer",
 [(Y, "        let n = std::task::ready!(poll_read_buf(projected.reader, cx, projected.buffer))? as u64;",
 """        let mut reader = projected.reader;
        let n = loop {
            match std::task::ready!(poll_read_buf(reader.as_mut(), cx, projected.buffer)) {
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                result => break result? as u64,
            }
        };""")],
 HEAD + r'''
use futures_core::Stream;
fn main() {
    let s = src(b"hello");
    let mut st = Box::pin(builder(&[("a", s.clone())]).build().into_bytes_stream());
    s.script(&[Go(0), Fail(ErrorKind::Interrupted)]);
    let mut errors = 0;
    while let Poll::Ready(Some(x)) = st.as_mut().poll_next(&mut cx()) {
        errors += x.is_err() as usize;
    }
    assert_eq!(errors, 1);
}
''', features=["bytes"], deps='futures-core = "0.3"')

seed("C19-stream-capacity", "C19", "a stream of a large archive",
 "the stream's buffer has room for the whole archive",
 [(Y, """        BytesStream {
            reader,
            buffer: BytesMut::with_capacity(READ_SIZE),
        }""", """        // One allocation is enough for small archives
        let capacity = usize::try_from(reader.size()).unwrap_or(READ_SIZE);
        BytesStream {
            reader,
            buffer: BytesMut::with_capacity(capacity),
        }""")],
 HEAD + r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Count;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        MAX.fetch_max(l.size(), SeqCst);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static G: Count = Count;
fn main() {
    let r = builder(&[("a", src(b"").declare(1 << 28))]).build();
    let s = r.into_bytes_stream();
    assert!(MAX.load(SeqCst) < 1 << 20, "{} bytes at once", MAX.load(SeqCst));
    drop(s);
}
''', features=["bytes"])

seed("C05-blocking-retry", "C05", "a source that is pending in the middle of the data read for a CRC in the central directory",
 "a pending source is polled again at once, in a busy loop, instead of returning to the caller",
 [(R, """            ready!(
                file_reader
                    .as_mut()
                    .poll_read(&self.data, ctx, &mut read_buffer)
            )?;
            if read_buffer.filled().is_empty() {
                break;
            }
        }
""", """            match file_reader
                .as_mut()
                .poll_read(&self.data, ctx, &mut read_buffer)
            {
                Poll::Ready(result) => result?,
                // The beginning was ready, so is the rest in no time
                Poll::Pending if has_read => continue,
                Poll::Pending => return Poll::Pending,
            }
            has_read = true;
            if read_buffer.filled().is_empty() {
                break;
            }
        }
"""), (R, """        let mut read_buffer = get_read_buf(read_buffer);

        loop {
            read_buffer.clear();
            assert!(read_buffer""", """        let mut read_buffer = get_read_buf(read_buffer);
        let mut has_read = false;

        loop {
            read_buffer.clear();
            assert!(read_buffer""")],
 HEAD + r'''
fn main() {
    let s = src(b"hello");
    let mut r = Box::pin(builder(&[("a", s.clone())]).build());
    r.as_mut().seek_from_start_pinned(59 + 5);
    s.script(&[Go(0), Go(2), Pend, Pend]);
    assert!(poll_read(r.as_mut(), 100).is_pending());
}
''')
