"""Planted bugs, third round."""
from defs import seed, HEAD, RT, R, B, S, E, C, F, Y, A, ACTIX

seed("C07-prefix-crc", "C07", "a source longer than declared, with a supplied CRC that is right for the declared part",
 "for an entry with a supplied CRC the source is not asked for more than was declared, so that a longer one passes for right",
 [(R, """        let remaining_before_poll = output.remaining();
        ready!(file_reader.as_mut().poll_read(&entry.data, ctx, output))?;
""", """        let remaining_before_poll = output.remaining();
        if entry.crc32.is_some() {
            // The content is known, no need to read behind its end
            let left = (entry.size - self.chunk_processed_size)
                .try_into()
                .unwrap_or(usize::MAX)
                .min(output.remaining());
            if left > 0 {
                let mut limited = ReadBuf::new(output.initialize_unfilled_to(left));
                ready!(
                    file_reader
                        .as_mut()
                        .poll_read(&entry.data, ctx, &mut limited)
                )?;
                let n = limited.filled().len();
                output.advance(n);
            }
        } else {
            ready!(file_reader.as_mut().poll_read(&entry.data, ctx, output))?;
        }
""")],
 HEAD + r'''
fn main() {
    let mut b = builder(&[("a", src(b"abcdef").declare(3))]);
    let crc = u32_at(&whole(builder(&[("a", src(b"abc"))]).build()), 59 + 3 + 4) as u32;
    b.get_entries_mut()[0].crc32(crc);
    let mut r = pin!(b.build());
    let (v, e) = read_to_end(r.as_mut(), 100);
    assert!(e.is_some(), "{} bytes and no error", v.len());
}
''')

seed("C12-directory-resets", "C12", "permissions set before making the entry a directory",
 "making an entry a directory resets permissions that were set to read-only",
 [(B, """        self.file_type = BuilderFileType::Directory;
        self""", """        self.file_type = BuilderFileType::Directory;
        if self.permissions == BuilderPermissions::Ro {
            self.permissions = BuilderPermissions::Rw;
        }
        self""")],
 HEAD + r'''
fn main() {
    let mut b = builder(&[("a/", src(b""))]);
    b.get_entries_mut()[0].readonly(true).directory();
    let z = whole(b.build());
    assert_eq!(u32_at(&z, find(&z, CENTRAL, 0) + 38) >> 16, 0o040555);
}
''')

seed("C13-hardlinks", "C13", "a tree with two names for the same file",
 "an object that was visited already (for loops) is skipped, which drops hard links",
 [(F, """        let mut stack = vec![directory.clone()];
        while""", """        let mut visited = std::collections::HashSet::new();
        let mut stack = vec![directory.clone()];
        while"""), (F, """                let metadata = dir_entry.metadata().await?;

""", """                let metadata = dir_entry.metadata().await?;

                #[cfg(unix)]
                {
                    use std::os::unix::fs::MetadataExt as _;
                    if !visited.insert((metadata.dev(), metadata.ino())) {
                        continue; // Bind mounts could make loops
                    }
                }

""")],
 HEAD + RT + r'''
fn main() {
    let d = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap());
    std::fs::write(d.join("a"), b"x").unwrap();
    std::fs::hard_link(d.join("a"), d.join("b")).unwrap();
    let mut b = Builder::new();
    rt(b.add_directory_recursive(d, None)).unwrap();
    assert_eq!(b.get_entries().len(), 2);
}
''')

seed("C13-follow-dir-links", "C13", "a symlink to a directory outside",
 "a symlink to a directory is walked into",
 [(F, """                if metadata.is_dir() {
                    stack.push(path.clone());
                }
""", """                if metadata.is_dir()
                    || metadata.is_symlink()
                        && tokio::fs::metadata(&path)
                            .await
                            .is_ok_and(|target| target.is_dir() && !directory.starts_with(&path))
                {
                    stack.push(path.clone());
                }
""")],
 HEAD + RT + r'''
fn main() {
    let d = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap());
    std::fs::create_dir(d.join("other")).unwrap();
    std::fs::write(d.join("other/secret"), b"x").unwrap();
    std::fs::create_dir(d.join("tree")).unwrap();
    std::os::unix::fs::symlink("../other", d.join("tree/l")).unwrap();
    let mut b = Builder::new();
    rt(b.add_directory_recursive(d.join("tree"), None)).unwrap();
    assert_eq!(b.get_entries().keys().collect::<Vec<_>>(), vec!["l"]);
}
''')

seed("C15-size-hint", "C15", "a consumer that believes the stream's size hint",
 "the stream claims an upper bound for the number of its chunks that it exceeds, because chunks end early at entry boundaries",
 [(Y, """        Poll::Ready(Some(Ok(result)))
    }
}
""", """        Poll::Ready(Some(Ok(result)))
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let remaining = self.reader.size().saturating_sub(self.reader.tell());
        let chunks = usize::try_from(remaining.div_ceil(READ_SIZE as u64)).ok();
        (chunks.unwrap_or(usize::MAX), chunks)
    }
}
""")],
 HEAD + r'''
use futures_core::Stream;
fn main() {
    let mut s = Box::pin(builder(&[("a", src(&[1; 10_000])), ("b", src(&[1; 10_000]))]).build().into_bytes_stream());
    let most = s.as_ref().get_ref().size_hint().1.unwrap_or(usize::MAX);
    let mut n = 0;
    while let Poll::Ready(Some(x)) = s.as_mut().poll_next(&mut cx()) {
        assert!(!x.unwrap().is_empty());
        n += 1;
    }
    assert!(n <= most, "{n} chunks, at most {most} were announced");
}
''', features=["bytes"], deps='futures-core = "0.3"')

seed("C16-count-saturates", "C16", "more than 65535 entries",
 "the number of entries in the zip64 end of central directory record stops at 65535",
 [(R, "                total_cd_entry_count: entries.len() as u64,", "                total_cd_entry_count: u16::try_from(entries.len())\n                    .unwrap_or(u16::MAX)\n                    .into(),")],
 HEAD + r'''
fn main() {
    let mut b: Builder<&'static [u8]> = Builder::new();
    for i in 0..70_000 {
        b.add_entry(format!("{i}"), b"".as_slice()).unwrap();
    }
    let z = whole(b.build());
    assert_eq!(u64_at(&z, z.len() - 98 + 32), 70_000);
}
''')

seed("C17-grown", "C17", "a file that grew between adding and reading",
 "reading a file is limited to the size it had when it was added, so that growing is not noticed",
 [(F, """                file_future: Box::pin(File::open(self.path.clone())),
""", """                file_future: Box::pin(File::open(self.path.clone())),
                size,
"""), (F, "EntryType::File { size: _ } => FilesystemEntryFuture", "EntryType::File { size } => FilesystemEntryFuture"),
 (F, """        file_future: Pin<Box<dyn Future<Output = std::io::Result<File>>>>,
""", """        file_future: Pin<Box<dyn Future<Output = std::io::Result<File>>>>,
        size: u64,
"""), (F, "FilesystemEntryFuture::File { file_future } => {", "FilesystemEntryFuture::File { file_future, size } => {"),
 (F, "Poll::Ready(Ok(FilesystemEntryReader::File(inner_reader)))", "Poll::Ready(Ok(FilesystemEntryReader::File(inner_reader, *size)))"),
 (F, "    File(#[pin] File),\n", "    File(#[pin] File, u64),\n"),
 (F, "FilesystemEntryReaderProj::File(pin) => pin.poll_read(cx, buf),", """FilesystemEntryReaderProj::File(pin, left) => {
                let most = usize::try_from(*left).unwrap_or(usize::MAX).min(buf.remaining());
                let mut limited = ReadBuf::new(buf.initialize_unfilled_to(most));
                ready!(pin.poll_read(cx, &mut limited))?;
                let n = limited.filled().len();
                *left -= n as u64;
                buf.advance(n);
                Poll::Ready(Ok(()))
            }"""),
 (F, "FilesystemEntryReaderProj::File(pin) => pin.start_seek(position),", "FilesystemEntryReaderProj::File(pin, left) => {\n                if let std::io::SeekFrom::Start(offset) = position {\n                    *left = left.saturating_sub(offset);\n                }\n                pin.start_seek(position)\n            }"),
 (F, "FilesystemEntryReaderProj::File(pin) => pin.poll_complete(cx),", "FilesystemEntryReaderProj::File(pin, _) => pin.poll_complete(cx),"),
 ],
 HEAD + RT + r'''
fn main() {
    let d = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap());
    std::fs::write(d.join("f"), b"abc").unwrap();
    let res = rt(async {
        let mut b = Builder::new();
        b.add_directory_recursive(d.clone(), None).await.unwrap();
        std::fs::write(d.join("f"), b"abcdef").unwrap();
        use tokio::io::AsyncReadExt;
        let mut v = Vec::new();
        Box::pin(b.build()).read_to_end(&mut v).await
    });
    assert!(res.is_err());
}
''')

seed("C18-end-without-reader", "C18", "a response whose body was taken to its end and is kept around, or dropped",
 "a response that was read to its end gives its reader away already but as a fresh, empty one",
 [(A, """        // Extract the remaining state of the reader
        let extracted = projected.bytes_stream.reader_pin_mut().take_pinned();
""", """        // Extract the remaining state of the reader
        let mut reader = projected.bytes_stream.reader_pin_mut();
        let at_end = reader.tell() >= reader.size();
        let mut extracted = reader.as_mut().take_pinned();
        if at_end {
            // Nothing left to be read, start again
            extracted.seek_from_start_mut(0);
        }
""")],
 HEAD + r'''
use actix_web::{Responder, body::MessageBody};
fn main() {
    let mut b: Builder<Vec<u8>> = Builder::new();
    b.add_entry("a".to_string(), b"hello".to_vec()).unwrap();
    let r = b.build();
    let size = r.size();
    let (r, mut rx) = r.into_responder_with_channel();
    let resp = r.respond_to(&actix_web::test::TestRequest::get().to_http_request());
    let mut body = Box::pin(resp.into_body());
    while let Poll::Ready(Some(x)) = body.as_mut().poll_next(&mut cx()) {
        x.unwrap();
    }
    drop(body);
    let r = rx.try_recv().unwrap();
    assert_eq!(r.tell(), size);
}
''', features=["actix-web"], deps=ACTIX)

seed("C14-clamped-first", "C14", "a request of several ranges not in ascending order",
 "of several ranges the one that starts first in the archive is served instead of the first one that was asked for, but the first one's length",
 [(A, """            let range = validated
                .first()
                .expect("Range header must be nonempty, this is verified by the parser");
""", """            let range = validated
                .first()
                .expect("Range header must be nonempty, this is verified by the parser");
            let start = validated.iter().map(|r| *r.start()).min().unwrap_or(0);
"""), (A, "            (*range.start(), *range.end() - *range.start() + 1)", "            (start, *range.end() - *range.start() + 1)")],
 HEAD + r'''
use actix_web::{Responder, body::MessageBody};
fn main() {
    let mut b: Builder<Vec<u8>> = Builder::new();
    b.add_entry("a".to_string(), b"hello".to_vec()).unwrap();
    let z = whole(b.clone().build());
    let r = b.build().into_responder();
    let resp = r.respond_to(&actix_web::test::TestRequest::get().insert_header(("Range", "bytes=20-29,5-10")).to_http_request());
    if resp.status().as_u16() != 206 {
        return;
    }
    let cr = resp.headers().get("Content-Range").unwrap().to_str().unwrap().to_string();
    let mut body = Box::pin(resp.into_body());
    let mut v = Vec::new();
    while let Poll::Ready(Some(x)) = body.as_mut().poll_next(&mut cx()) {
        v.extend_from_slice(&x.unwrap());
    }
    let (a, e) = cr.strip_prefix("bytes ").unwrap().split('/').next().unwrap().split_once('-').unwrap();
    assert_eq!(v, z[a.parse().unwrap()..=e.parse().unwrap()]);
}
''', features=["actix-web"], deps=ACTIX)

seed("C19-clone-buffer", "C19", "many skips in entries without known CRC by the same reader",
 "the buffer used for skipping is made larger at every use",
 [(R, """    vec.reserve(READ_SIZE);
    ReadBuf""", """    vec.reserve_exact(READ_SIZE.max(vec.capacity() + 4096));
    ReadBuf""")],
 HEAD + r'''
fn main() {
    let mut r = pin!(builder(&[("a", src(b"abcdefgh"))]).build());
    for _ in 0..20_000 {
        // Once more from the beginning
        r.as_mut().seek_from_start_pinned(61);
        read_exact(r.as_mut(), 1);
    }
    let kb = |what: &str| -> u64 {
        let s = std::fs::read_to_string("/proc/self/status").unwrap();
        s.lines().find(|l| l.starts_with(what)).unwrap().split_whitespace().nth(1).unwrap().parse().unwrap()
    };
    assert!(kb("VmHWM:") < 40_000 && kb("VmPeak:") < 60_000, "{} KiB", kb("VmPeak:"));
}
''')


seed("C06-error-in-skip", "C06", "a seek into an entry with unknown CRC whose source fails once while the data before the position is skipped",
 "an error while skipping data forgets how much is left to be skipped",
 [(R, """                let mut read_buffer = get_read_buf(&mut self.staging_buffer);

                while self.to_skip > 0 {
                    read_buffer.clear();

                    // Limit the read size so that we don't go over the amount to skip
                    let limit = self.to_skip.try_into().unwrap_or(usize::MAX);
""", """                let mut to_skip = std::mem::take(&mut self.to_skip);
                let mut read_buffer = get_read_buf(&mut self.staging_buffer);

                while to_skip > 0 {
                    read_buffer.clear();

                    // Limit the read size so that we don't go over the amount to skip
                    let limit = to_skip.try_into().unwrap_or(usize::MAX);
"""), (R, """                    ready!(
                        file_reader
                            .as_mut()
                            .poll_read(&entry.data, ctx, &mut read_buffer)
                    )?;

                    self.chunk_processed_size += read_buffer.filled().len() as u64;
                    self.to_skip -= read""", """                    match file_reader
                        .as_mut()
                        .poll_read(&entry.data, ctx, &mut read_buffer)
                    {
                        Poll::Ready(result) => result?,
                        Poll::Pending => {
                            self.to_skip = to_skip;
                            return Poll::Pending;
                        }
                    }

                    self.chunk_processed_size += read_buffer.filled().len() as u64;
                    to_skip -= read""")],
 HEAD + r'''
fn main() {
    let content: Vec<u8> = (0..100).collect();
    let s = src(&content);
    let b = builder(&[("a", s.clone())]);
    let z = whole(b.clone().build());
    s.script(&[Go(9), Go(10), Fail(ErrorKind::Other)]);
    let mut r = b.build();
    r.seek_from_start_mut(59 + 30);
    let mut r = pin!(r);
    assert!(read(r.as_mut(), 5).is_err());
    assert_eq!(read_exact(r.as_mut(), 5), z[89..94]);
}
''')

seed("C15-stale", "C15", "a stream whose reader is repositioned while the stream is pending in the middle of a chunk",
 "chunks are filled by several reads; what was collected when a source became pending is still delivered after the reader was repositioned",
 [(Y, """        assert!(projected.buffer.is_empty());
        // The buffer""", """        // The buffer"""), (Y, """        let n = std::task::ready!(poll_read_buf(projected.reader, cx, projected.buffer))? as u64;

        if n == 0 {
            return Poll::Ready(None);
        }
""", """        // Small reads are collected
        let mut reader = projected.reader;
        while projected.buffer.len() < READ_SIZE / 8 {
            if std::task::ready!(poll_read_buf(reader.as_mut(), cx, projected.buffer))? == 0 {
                break;
            }
        }

        if projected.buffer.is_empty() {
            return Poll::Ready(None);
        }
""")],
 HEAD + r'''
use futures_core::Stream;
fn main() {
    let s = src(b"hello");
    s.script(&[Pend]);
    let b = builder(&[("a", s)]);
    let mut st = Box::pin(b.clone().build().into_bytes_stream());
    // However far the stream got
    let mut n = 0;
    while let Poll::Ready(x) = st.as_mut().poll_next(&mut cx()) {
        n += x.unwrap().unwrap().len();
    }
    assert!(n <= 59);
    st.as_mut().reader_pin_mut().seek_from_start_pinned(0);
    let mut all = Vec::new();
    loop {
        match st.as_mut().poll_next(&mut cx()) {
            Poll::Pending => {}
            Poll::Ready(None) => break,
            Poll::Ready(Some(x)) => all.extend_from_slice(&x.unwrap()),
        }
    }
    assert_eq!(all, whole(b.build()));
}
''', features=["bytes"], deps='futures-core = "0.3"')

seed("C16-huge-seek", "C16", "a seek from the end or the current position by more than 4 GiB",
 "seeking relatively by an offset of more than 32 bits is clamped",
 [(R, "            SeekFrom::Current(offset) => resolve_offset(self.tell(), offset)?,", "            SeekFrom::Current(offset) => resolve_offset(\n                self.tell(),\n                offset.clamp(-i64::from(u32::MAX), i64::from(u32::MAX)),\n            )?,")],
 HEAD + r'''
use tokio::io::AsyncSeek;
fn main() {
    let s = src(b"").declare(1 << 40);
    let mut r = pin!(builder(&[("a", s)]).build());
    r.as_mut().start_seek(std::io::SeekFrom::Current(1 << 35)).unwrap();
    assert_eq!(r.tell(), 1 << 35);
}
''')
