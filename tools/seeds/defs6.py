"""Planted bugs, sixth round."""
from defs import seed, HEAD, R, B, S, E, C, F, Y, A, RT, ACTIX

seed("C09-zero-crc", "C09", "content whose CRC-32 happens to be 0",
 "a known CRC of 0 is taken for an unknown one, and the entry is read again for every record with its CRC",
 [(R, """        if let Some(crc) = self.crc32 {
            return Poll::Ready(Ok(crc));
        }
""", """        if let Some(crc) = self.crc32.filter(|&crc| crc != 0) {
            return Poll::Ready(Ok(crc));
        }
""")],
 HEAD + r'''
fn main() {
    // CRC-32 0
    let s = src(&[0x9d, 0x0a, 0xd9, 0x6d]);
    whole(builder(&[("a", s.clone())]).build());
    assert_eq!(s.opens(), 1);
}
''')

seed("C03-long-name", "C03", "a name longer than 8 KiB and reads smaller than that",
 "a long name goes through the staging buffer only in part: the rest is overwritten by zeros",
 [(R, "        self.staging_buffer.extend_from_slice(bytes);", """        // Never more than one block at a time
        let (first, rest) = bytes.split_at(bytes.len().min(READ_SIZE));
        self.staging_buffer.extend_from_slice(first);
        self.staging_buffer
            .resize(self.staging_buffer.len() + rest.len(), 0);""")],
 HEAD + r'''
fn main() {
    let name: String = (0..20_000).map(|i| char::from(b'a' + (i % 26) as u8)).collect();
    let make = || builder(&[(name.as_str(), src(b"x"))]).build();
    let mut r = Box::pin(make());
    let big = { let (v, e) = read_to_end(r.as_mut(), 1 << 17); assert!(e.is_none()); v };
    let mut r = Box::pin(make());
    let (small, e) = read_to_end(r.as_mut(), 1000);
    assert!(e.is_none());
    assert!(big == small);
}
''')

seed("C04-current-past-end", "C04", "a relative seek from a position behind the end of the archive",
 "relative seeks count from the end of the archive if the position is behind it",
 [(R, "SeekFrom::Current(offset) => resolve_offset(self.tell(), offset)?,", "SeekFrom::Current(offset) => resolve_offset(self.tell().min(self.size()), offset)?,")],
 HEAD + r'''
use tokio::io::AsyncSeek;
use std::io::SeekFrom;
fn main() {
    let mut r = Box::pin(builder(&[("a", src(b"hello"))]).build());
    let n = r.size();
    r.as_mut().start_seek(SeekFrom::End(100)).unwrap();
    r.as_mut().start_seek(SeekFrom::Current(-110)).unwrap();
    assert_eq!(r.tell(), n - 10);
}
''')

seed("C05-seek-then-read", "C05", "an entry with a supplied CRC whose source is pending while it is repositioned",
 "a pending repositioning counts as done: the next poll reads from a source that is not positioned yet",
 [(R, """                let pos_after_seek = ready!(file_reader.as_mut().seek(
                    &entry.data,
                    ctx,
                    SeekFrom::Start(self.to_skip)
                ))?;
                assert!(pos_after_seek == self.to_skip);
                self.chunk_processed_size += self.to_skip;
                self.to_skip = 0;
""", """                let target = std::mem::take(&mut self.to_skip);
                match file_reader
                    .as_mut()
                    .seek(&entry.data, ctx, SeekFrom::Start(target))
                {
                    Poll::Ready(Ok(pos_after_seek)) => assert!(pos_after_seek == target),
                    Poll::Ready(Err(e)) => {
                        self.to_skip = target;
                        return Poll::Ready(Err(e));
                    }
                    Poll::Pending => {
                        self.chunk_processed_size += target;
                        return Poll::Pending;
                    }
                }
                self.chunk_processed_size += target;
""")],
 HEAD + r'''
fn main() {
    let make = |s: Src| { let mut b = builder(&[]); b.add_entry("a".to_string(), s).unwrap().crc32(0x3610a686); b.build() };
    let expected = whole(make(src(b"hello")));
    let s = src(b"hello");
    let mut r = Box::pin(make(s.clone()));
    let at = 59 + 2;
    r.as_mut().seek_from_start_pinned(at);
    s.script(&[Go(0), Pend]);
    let (rest, e) = read_to_end(r.as_mut(), 100);
    assert!(e.is_none(), "{e:?}");
    assert_eq!(rest, expected[at as usize..]);
}
''')

seed("C06-eof-kind", "C06", "a source failing with ErrorKind::UnexpectedEof while its CRC is computed for the central directory",
 "that error is taken for the end of the data: the CRC of a part of the content is recorded",
 [(R, """            ready!(
                file_reader
                    .as_mut()
                    .poll_read(&self.data, ctx, &mut read_buffer)
            )?;
            if read_buffer.filled().is_empty() {
                break;
            }
""", """            match ready!(
                file_reader
                    .as_mut()
                    .poll_read(&self.data, ctx, &mut read_buffer)
            ) {
                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => break,
                result => result?,
            }
            if read_buffer.filled().is_empty() {
                break;
            }
""")],
 HEAD + r'''
fn main() {
    let s = src(b"hello");
    let mut r = Box::pin(builder(&[("a", s.clone())]).build());
    r.as_mut().seek_from_start_pinned(59 + 5);
    s.script(&[Go(0), Go(2), Fail(ErrorKind::UnexpectedEof)]);
    assert!(read(r.as_mut(), 100).is_err());
}
''')

seed("C12-metadata-symlink-perms", "C12", "metadata of a symlink copied to an entry, which is made a file or directory afterwards",
 "copying the metadata of a symlink leaves the permissions as they were",
 [(B, """        self.permissions(&metadata.permissions());
        if let""", """        if !metadata.is_symlink() {
            // Permissions of symlinks are never used
            self.permissions(&metadata.permissions());
        }
        if let""")],
 HEAD + r'''
fn main() {
    let l = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap()).join("l");
    std::os::unix::fs::symlink("target", &l).unwrap();
    let mut b = builder(&[]);
    let e = b.add_entry("a".to_string(), src(b"x")).unwrap();
    e.unix_permissions(0o600);
    e.metadata(&l.symlink_metadata().unwrap());
    e.file();
    let z = whole(b.build());
    assert_eq!(u32_at(&z, find(&z, CENTRAL, 0) + 38) >> 16, 0o100777);
}
''')

seed("C13-target-normalised", "C13", "a symlink whose target has a trailing slash, doubled slashes or a leading ./",
 "symlink targets are normalised",
 [(F, """            let target = read_link(path).await?;""", """            let target: PathBuf = read_link(path).await?.components().collect();""")],
 HEAD + RT + r'''
fn main() {
    let d = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap());
    std::os::unix::fs::symlink("x//y/", d.join("l")).unwrap();
    let mut b = Builder::new();
    rt(b.add_directory_recursive(d, None)).unwrap();
    let z = whole(b.build());
    assert!(z.windows(5).any(|w| w == b"x//y/"));
}
''')

seed("C13-dotfiles", "C13", "a tree with an object whose name begins with a dot",
 "hidden files are left out",
 [(F, """                let path = dir_entry.path();
                let metadata""", """                if dir_entry.file_name().as_encoded_bytes().starts_with(b".") {
                    continue;
                }
                let path = dir_entry.path();
                let metadata""")],
 HEAD + RT + r'''
fn main() {
    let d = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap());
    std::fs::write(d.join(".hidden"), b"x").unwrap();
    let mut b = Builder::new();
    rt(b.add_directory_recursive(d, None)).unwrap();
    assert_eq!(b.get_entries().len(), 1);
}
''')

seed("C15-from-rewinds", "C15", "a stream made with From from a reader that is not at the start",
 "the stream starts at the beginning of the archive",
 [(Y, """    fn from(value: Reader<D>) -> Self {
        BytesStream::new(value)""", """    fn from(mut value: Reader<D>) -> Self {
        value.seek_from_start_mut(0);
        BytesStream::new(value)""")],
 HEAD + r'''
use futures_core::Stream;
use zippity::BytesStream;
fn main() {
    let mut r = builder(&[("a", src(b"hello"))]).build();
    let n = r.size();
    r.seek_from_start_mut(50);
    let mut st = Box::pin(BytesStream::from(r));
    let mut got = 0;
    while let Poll::Ready(Some(x)) = st.as_mut().poll_next(&mut cx()) {
        got += x.unwrap().len() as u64;
    }
    assert_eq!(got, n - 50);
}
''', features=["bytes"], deps='futures-core = "0.3"')

seed("C02-size-past-end", "C02", "asking a reader for its size while it stands behind the end",
 "a reader positioned behind the end announces a larger size",
 [(R, """    pub fn size(&self) -> u64 {
        self.sizes.total_size
    }""", """    pub fn size(&self) -> u64 {
        self.tell().max(self.sizes.total_size)
    }""")],
 HEAD + r'''
fn main() {
    let mut r = builder(&[("a", src(b"hello"))]).build();
    let n = r.size();
    r.seek_from_start_mut(n + 5);
    assert_eq!(r.size(), n);
}
''')

seed("C14-empty-range", "C14", "a request with an empty Range header",
 "an empty Range header is treated like none",
 [(A, "if let Some(ranges_header) = req.headers().get(RANGE) {", "if let Some(ranges_header) = req.headers().get(RANGE).filter(|h| !h.is_empty()) {")],
 HEAD + r'''
use actix_web::Responder;
fn main() {
    let mut b: Builder<Vec<u8>> = Builder::new();
    b.add_entry("a".to_string(), b"hello".to_vec()).unwrap();
    let r = b.build().into_responder();
    let resp = r.respond_to(&actix_web::test::TestRequest::get().insert_header(("Range", "")).to_http_request());
    assert_eq!(resp.status().as_u16(), 400);
}
''', features=["actix-web"], deps=ACTIX)

seed("C16-cd-size", "C16", "a central directory of more than 4 GiB (65600 names of 65535 bytes)",
 "the size of the central directory is kept in 32 bits, so everything after it is misplaced",
 [(B, "        let mut cd_size: u64 = 0;", "        let mut cd_size: u32 = 0;"),
  (B, "                cd_size += cd_header_size(&name);", "                // The central directory is small\n                cd_size = cd_size.wrapping_add(cd_header_size(&name) as u32);"),
  (B, "        let cd_offset = offset;", "        let cd_offset = offset;\n        let cd_size = u64::from(cd_size);")],
 HEAD + r'''
fn main() {
    let mut b: Builder<&[u8]> = Builder::new();
    for i in 0..65_600 {
        b.add_entry(format!("{i:065535}"), b"".as_slice()).unwrap();
    }
    let n = b.size();
    let r = b.build();
    assert_eq!(r.size(), n);
}
''')
