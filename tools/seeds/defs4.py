"""Planted bugs, fourth round."""
from defs import seed, HEAD, R, B, S, E, C, F, Y, A

seed("C04-future-survives", "C04", "a seek to another entry while the source of one is still being opened",
 "seeking closes an open reader but keeps an opening in progress, which then serves the data of another entry",
 [(R, """            .seek_from_start(&self.sizes, self.entries.as_slice(), offset);
        self.pinned = ReaderPinned::Nothing;
""", """            .seek_from_start(&self.sizes, self.entries.as_slice(), offset);
        if let ReaderPinned::FileReader(_) = self.pinned {
            self.pinned = ReaderPinned::Nothing;
        }
"""), (R, """            .seek_from_start(projected.sizes, projected.entries.as_slice(), offset);
        projected.pinned.set(ReaderPinned::Nothing);
""", """            .seek_from_start(projected.sizes, projected.entries.as_slice(), offset);
        if let ReaderPinnedProj::FileReader(_) = projected.pinned.as_mut().project() {
            projected.pinned.set(ReaderPinned::Nothing);
        }
""")],
 HEAD + r'''
fn main() {
    let make = |s: Src| builder(&[("a", s), ("b", src(b"other"))]).build();
    let expected = whole(make(src(b"hello")));
    let s = src(b"hello");
    let mut r = Box::pin(make(s.clone()));
    s.script(&[Pend]);
    read_exact(r.as_mut(), 59);
    assert!(poll_read(r.as_mut(), 10).is_pending());
    let at = find(&expected, LOCAL, 1);
    r.as_mut().seek_from_start_pinned(at as u64);
    let (rest, e) = read_to_end(r.as_mut(), 100);
    assert!(e.is_none(), "{e:?}");
    assert!(rest[..5 + 59] == expected[at..at + 5 + 59]);
}
''')

seed("C09-boundary-open", "C09", "a seek to exactly the end of the data of an entry whose CRC is known",
 "the source of an entry is opened and positioned though none of its data is delivered",
 [(R, """            if self.to_skip >= current_chunk_size {
                self.to_skip""", """            let whole_chunk = match self.current_chunk {
                // There is nothing behind the end of an entry but its end of file
                Chunk::EntryData { .. } if current_chunk_size > 0 => {
                    self.to_skip > current_chunk_size
                }
                _ => self.to_skip >= current_chunk_size,
            };
            if whole_chunk {
                self.to_skip""")],
 HEAD + r'''
fn main() {
    let s = src(b"hello");
    let mut b = builder(&[("a", s.clone())]);
    b.get_entries_mut()[0].crc32(0x3610a686);
    let mut r = Box::pin(b.build());
    r.as_mut().seek_from_start_pinned(59 + 5);
    let (_, e) = read_to_end(r.as_mut(), 100);
    assert!(e.is_none(), "{e:?}");
    assert_eq!(s.opens(), 0);
}
''')

seed("C09-seek-here", "C09", "a seek to the current position while an entry is open",
 "a seek to where the reader already is does nothing, and leaves the entry open",
 [(R, """        self.seek_from_start_pinned(pos);
        Ok(())""", """        if pos != self.tell() {
            self.seek_from_start_pinned(pos);
        }
        Ok(())""")],
 HEAD + r'''
fn main() {
    use tokio::io::AsyncSeek;
    let s = src(b"hello");
    let mut r = Box::pin(builder(&[("a", s.clone())]).build());
    read_exact(r.as_mut(), 59 + 2);
    assert_eq!(s.open_now(), 1);
    r.as_mut().start_seek(std::io::SeekFrom::Current(0)).unwrap();
    assert_eq!(s.open_now(), 0);
}
''')

seed("C11-headers-late", "C11", "entries whose data just fit into 2^64-1 bytes, but not together with their headers",
 "the check of the total size wraps around when only the headers of the entry are too much",
 [(B, """        self.total_size = match headers_size
            .checked_add(data.size())
            .and_then(|s| s.checked_add(size_before))
        {""", """        self.total_size = match size_before
            .checked_add(data.size())
            .map(|s| s.wrapping_add(headers_size))
        {""")],
 HEAD + r'''
fn main() {
    let mut b = builder(&[]);
    assert!(b.add_entry("a".to_string(), src(b"").declare(u64::MAX - 150)).is_err());
    assert_eq!(b.size(), 98);
}
''')

seed("C18-receiver-gone", "C18", "a response whose receiver was dropped before it ends",
 "handing back panics when nobody waits for the reader",
 [(A, """        // Send the channel, ignoring if the other side already hung up
        let _ = drop_channel.send(extracted);""", """        if drop_channel.send(extracted).is_err() {
            unreachable!("The receiver is kept until the reader arrives");
        }""")],
 HEAD + r'''
use actix_web::Responder;
fn main() {
    let (a, rx) = builder(&[("a", src(b"x"))]).build().into_responder_with_channel();
    drop(rx);
    let req = actix_web::test::TestRequest::get().to_http_request();
    drop(a.respond_to(&req));
}
''', features=["actix-web"], deps='actix-web = { version = "4.5.1", default-features = false }')

seed("C08-take-forgets", "C08", "taking a reader that stands in the data of an entry whose CRC was computed before",
 "a taken reader forgets the CRC of the entry being read, which it will compute again",
 [(R, """        let entries = replace(projected.entries, empty.entries);
        let read_state = {""", """        let mut entries = replace(projected.entries, empty.entries);
        if let Chunk::EntryData { entry_index } = projected.read_state.current_chunk
            && projected.read_state.chunk_processed_size > 0
        {
            // Was being read, the CRC will be known again at its end
            entries[entry_index].crc32 = None;
        }
        let read_state = {""")],
 HEAD + r'''
fn main() {
    let mut b = builder(&[("a", src(b"hello"))]);
    b.get_entries_mut()[0].crc32(0x3610a686);
    let mut r = Box::pin(b.build());
    read_exact(r.as_mut(), 59 + 2);
    assert_eq!(r.crc32s().count(), 1);
    let t = r.as_mut().take_pinned();
    assert_eq!(t.crc32s().count(), 1);
}
''')

seed("C19-open-cd", "C19", "CRCs computed for the central directory of an archive with large entries",
 "content read for the CRC only is collected first",
 [(R, """        loop {
            read_buffer.clear();
            assert!(read_buffer.filled().is_empty());
            ready!(""", """        let mut collected = Vec::new();
        loop {
            collected.extend_from_slice(read_buffer.filled());
            read_buffer.clear();
            assert!(read_buffer.filled().is_empty());
            ready!(""")],
 HEAD + r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Count;
static NOW: AtomicUsize = AtomicUsize::new(0);
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = NOW.fetch_add(l.size(), SeqCst) + l.size();
        MAX.fetch_max(n, SeqCst);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), SeqCst);
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static G: Count = Count;
fn main() {
    let mut r = Box::pin(builder(&[("a", src(&vec![7; 8 << 20]))]).build());
    let size = r.size();
    r.as_mut().seek_from_start_pinned(size - 150);
    let before = NOW.load(SeqCst);
    MAX.store(before, SeqCst);
    read_exact(r.as_mut(), 150);
    assert!(MAX.load(SeqCst) - before < 1 << 20, "{} bytes used", MAX.load(SeqCst) - before);
}
''')
