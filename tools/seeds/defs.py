R, B, S, E, C, F, Y, A = ("src/reader.rs", "src/builder.rs", "src/structs.rs", "src/entry_data.rs",
    "src/crc_reader.rs", "src/filesystem_entry.rs", "src/bytes.rs", "src/actix_web.rs")
SEEDS = []
def seed(id, prop, needs, breaks, edits, main, features=(), deps=""):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, features=list(features), deps=deps))

HEAD = "mod common;\nuse common::*;\n#[allow(unused_imports)]\nuse std::{io::ErrorKind, pin::{Pin, pin}, task::Poll};\n#[allow(unused_imports)]\nuse zippity::{Builder, Reader, EntryData};\n"

seed("C01-disk-count", "C01", "an archive with an empty entry (say a directory), and a reader looking at the per-disk entry count",
 "the zip64 end of central directory counts only entries that have data on this disk",
 [(R, "                this_cd_entry_count: entries.len() as u64,", "                this_cd_entry_count: entries.iter().filter(|e| e.size > 0).count() as u64,")],
 HEAD + r'''
fn main() {
    let z = whole(builder(&[("dir/", src(b"")), ("dir/f", src(b"y"))]).build());
    let e = find(&z, [6, 6], 0);
    assert_eq!(u64_at(&z, e + 32), 2, "total entries");
    assert_eq!(u64_at(&z, e + 24), 2, "entries on this disk");
}
''')

seed("C02-rejected-add", "C02", "an add that is rejected as a duplicate, then asking for the size",
 "a rejected duplicate still counts in Builder::size()",
 [(B, """        let map_vacant_entry = match self.entries.entry(name) {
            Entry::Vacant(e) => e,
            Entry::Occupied(e) => {
                return Err(AddEntryError::DuplicateEntryName {
                    entry_name: e.key().clone(),
                });
            }
        };

        let data = data.into();
        self.total_size = match headers_size
            .checked_add(data.size())
            .and_then(|s| s.checked_add(size_before))
        {
            Some(size) => Some(size),
            None => {
                return Err(AddEntryError::TooLongZipFile {
                    entry_name: map_vacant_entry.into_key(),
                });
            }
        };
""", """        let data = data.into();
        self.total_size = match headers_size
            .checked_add(data.size())
            .and_then(|s| s.checked_add(size_before))
        {
            Some(size) => Some(size),
            None => {
                return Err(AddEntryError::TooLongZipFile { entry_name: name });
            }
        };

        let map_vacant_entry = match self.entries.entry(name) {
            Entry::Vacant(e) => e,
            Entry::Occupied(e) => {
                return Err(AddEntryError::DuplicateEntryName {
                    entry_name: e.key().clone(),
                });
            }
        };
""")],
 HEAD + r'''
fn main() {
    let mut b = builder(&[("a", src(b"x"))]);
    assert!(b.add_entry("a".to_string(), src(b"other")).is_err());
    let announced = b.size();
    assert_eq!(announced, whole(b.build()).len() as u64);
}
''')

seed("C05-skip-progress", "C05", "a seek far into an entry without known CRC whose source is pending after part of the skipped data was read",
 "progress of the skip is forgotten when the source is pending, so too much is skipped",
 [(R, """                while self.to_skip > 0 {
                    read_buffer.clear();""", """                let mut skipped = 0;
                while skipped < self.to_skip {
                    read_buffer.clear();"""),
  (R, "let limit = self.to_skip.try_into().unwrap_or(usize::MAX);", "let limit = (self.to_skip - skipped).try_into().unwrap_or(usize::MAX);"),
  (R, """                    self.chunk_processed_size += read_buffer.filled().len() as u64;
                    self.to_skip -= read_buffer.filled().len() as u64;
""", """                    skipped += read_buffer.filled().len() as u64;
"""),
  (R, """                        // -> the reported size was wrong (and we will return an error later).
                        break;
                    }
                }
""", """                        // -> the reported size was wrong (and we will return an error later).
                        break;
                    }
                }
                self.chunk_processed_size += skipped;
                self.to_skip -= skipped;
""")],
 HEAD + r'''
fn main() {
    let content: Vec<u8> = (0..20000u32).map(|i| (i % 251) as u8).collect();
    let expected = whole(builder(&[("a", src(&content))]).build());
    let s = src(&content);
    let mut r = Box::pin(builder(&[("a", s.clone())]).build());
    r.as_mut().seek_from_start_pinned(15_000);
    s.script(&[Go(0), Go(usize::MAX), Pend, Pend]);
    let (rest, e) = read_to_end(r.as_mut(), 1000);
    assert!(e.is_none(), "{e:?}");
    assert!(rest[..] == expected[15_000..]);
}
''')

seed("C05-known-crc-pending", "C05", "an entry with a supplied CRC whose source is pending when opened in the read that delivered its header",
 "header bytes are written and then the call is pending: the bytes are lost or the position is behind",
 [(R, """                    if output.remaining() != initial_remaining {
                        // We have""", """                    if output.remaining() != initial_remaining && !entries[entry_index].crc_known() {
                        // We have""")],
 HEAD + r'''
fn main() {
    let make = |s: Src| { let mut b = builder(&[]); b.add_entry("a".to_string(), s).unwrap().crc32(0x3610a686); b.build() };
    let expected = whole(make(src(b"hello")));
    let s = src(b"hello");
    let mut r = Box::pin(make(s.clone()));
    s.script(&[Pend, Go(9), Pend]);
    let (got, e) = read_to_end(r.as_mut(), 4096);
    assert!(e.is_none(), "{e:?}");
    assert_eq!(got, expected);
    assert_eq!(r.tell(), expected.len() as u64);
}
''')

seed("C06-start-seek-fails", "C06", "a source with a supplied CRC whose start_seek fails once, and a retry",
 "after the failed start of a seek the retry waits for a seek that was never started and reads from the wrong place (or panics)",
 [(C, """        projected.inner_reader.start_seek(data, pos)?;
        *projected.seek_in_progress = true;
        Ok(())""", """        *projected.seek_in_progress = true;
        projected.inner_reader.start_seek(data, pos)""")],
 HEAD + r'''
fn main() {
    let make = |s: Src| { let mut b = builder(&[]); b.add_entry("a".to_string(), s).unwrap().crc32(0x3610a686); b.build() };
    let expected = whole(make(src(b"hello")));
    let at = find(&expected, LOCAL, 0) + 30 + 1 + 28 + 2;
    let s = src(b"hello");
    let mut r = Box::pin(make(s.clone()));
    r.as_mut().seek_from_start_pinned(at as u64);
    s.sh.borrow_mut().fail_start_seek = 1;
    assert!(read(r.as_mut(), 100).is_err());
    assert_eq!(r.tell(), at as u64);
    let (rest, e) = read_to_end(r.as_mut(), 100);
    assert!(e.is_none(), "{e:?}");
    assert_eq!(&rest[..], &expected[at..]);
}
''')

seed("C06-close-on-error", "C06", "a read error in the middle of an entry's data, after which the source recovers and the caller reads again",
 "the entry reader is closed after an error, so the retry delivers the entry's data from its beginning again",
 [(R, """        let remaining_before_poll = output.remaining();
        ready!(file_reader.as_mut().poll_read(&entry.data, ctx, output))?;
""", """        let remaining_before_poll = output.remaining();
        if let Err(e) = ready!(file_reader.as_mut().poll_read(&entry.data, ctx, output)) {
            pinned.set(ReaderPinned::Nothing);
            return Poll::Ready(Err(e));
        }
""")],
 HEAD + r'''
fn main() {
    let expected = whole(builder(&[("a", src(b"hello world"))]).build());
    let s = src(b"hello world");
    let mut r = Box::pin(builder(&[("a", s.clone())]).build());
    s.script(&[Go(0), Go(4), Fail(ErrorKind::ConnectionReset)]);
    let (mut got, e) = read_to_end(r.as_mut(), 100);
    assert_eq!(e.unwrap().kind(), ErrorKind::ConnectionReset);
    let (rest, e) = read_to_end(r.as_mut(), 100);
    assert!(e.is_none(), "{e:?}");
    got.extend(rest);
    assert_eq!(got, expected);
}
''')

seed("C07-forget-wrong-crc", "C07", "a supplied CRC that is wrong, and a caller that reads on after the error",
 "the wrong CRC is forgotten once reported, so reading on completes the archive as if nothing had happened",
 [(R, """                    && expected_crc != actual_crc
                {
                    return Poll::Ready(Err(ReadError::Crc32Mismatch {
                        entry_name: entry.name.clone(),
                        expected_crc,
                        actual_crc,
                    }
                    .into()));
                }
            }

            if""", """                    && expected_crc != actual_crc
                {
                    // The value is not worth keeping
                    entry.crc32 = None;
                    return Poll::Ready(Err(ReadError::Crc32Mismatch {
                        entry_name: entry.name.clone(),
                        expected_crc,
                        actual_crc,
                    }
                    .into()));
                }
            }

            if""")],
 HEAD + r'''
fn main() {
    let mut b = builder(&[]);
    b.add_entry("a".to_string(), src(b"hello")).unwrap().crc32(1);
    let mut r = Box::pin(b.build());
    let (_, e) = read_to_end(r.as_mut(), 100);
    assert!(e.is_some(), "wrong CRC not detected");
    for _ in 0..3 {
        let (more, e) = read_to_end(r.as_mut(), 100);
        assert!(e.is_some(), "the archive was completed");
        assert!(more.is_empty());
    }
}
''')

seed("C08-short-read-is-end", "C08", "a CRC computed for the central directory (after a seek) from a source that delivers fewer bytes than asked",
 "a short read is taken as the end of the content, so the CRC of a part is recorded and listed",
 [(R, """            if read_buffer.filled().is_empty() {
                break;
            }
        }

        let crc32""", """            if read_buffer.remaining() > 0 {
                // Not enough data to fill the buffer, we're at the end
                break;
            }
        }

        let crc32""")],
 HEAD + r'''
fn main() {
    let s = src(b"hello");
    let b = builder(&[("a", s.clone())]);
    let expected = whole(b.clone().build());
    let mut r = Box::pin(b.build());
    let cd = find(&expected, CENTRAL, 0);
    r.as_mut().seek_from_start_pinned(cd as u64);
    s.script(&[Go(0), Go(2), Go(2), Go(2)]);
    let (rest, e) = read_to_end(r.as_mut(), 100);
    assert!(e.is_none(), "{e:?}");
    assert_eq!(r.crc32s().collect::<Vec<_>>(), vec![("a", 0x3610a686)]);
    assert_eq!(&rest[..], &expected[cd..]);
}
''')

seed("C08-keep-cd-reader", "C08", "a seek out of the central directory while the CRC of an entry is being computed there and its source is pending",
 "the half-read entry reader survives the seek, and a later CRC is computed from a part of the content (or from another entry)",
 [(R, """        let mut projected = self.project();
        projected
            .read_state
            .seek_from_start(projected.sizes, projected.entries.as_slice(), offset);
        projected.pinned.set(ReaderPinned::Nothing);""", """        let mut projected = self.project();
        // Don't throw away a CRC calculation for the central directory
        let keep = matches!(
            projected.read_state.current_chunk,
            Chunk::CDFileHeader { entry_index: _ }
        ) && offset != projected.read_state.position;
        projected
            .read_state
            .seek_from_start(projected.sizes, projected.entries.as_slice(), offset);
        if !keep {
            projected.pinned.set(ReaderPinned::Nothing);
        }""")],
 HEAD + r'''
fn main() {
    let s = src(b"hello");
    let b = builder(&[("a", s.clone()), ("b", src(b"x"))]);
    let expected = whole(b.clone().build());
    let mut r = Box::pin(b.build());
    r.as_mut().seek_from_start_pinned(find(&expected, CENTRAL, 0) as u64);
    s.script(&[Go(0), Go(2), Pend]);
    assert!(poll_read(r.as_mut(), 10).is_pending());
    r.as_mut().seek_from_start_pinned(0);
    let (got, e) = read_to_end(r.as_mut(), 100);
    assert!(e.is_none(), "{e:?}");
    assert!(got == expected);
    assert_eq!(r.crc32s().next(), Some(("a", 0x3610a686)));
}
''')

seed("C09-read-small-skips", "C09", "a seek a little way into an entry with a known CRC",
 "short distances are skipped by reading the entry from its beginning although its CRC is known",
 [(R, "            if entry.crc32.is_none() {", "            if entry.crc32.is_none() || self.to_skip <= READ_SIZE as u64 {")],
 HEAD + r'''
fn main() {
    let make = |s: Src| { let mut b = builder(&[]); b.add_entry("a".to_string(), s).unwrap().crc32(0x3610a686); b.build() };
    let expected = whole(make(src(b"hello")));
    let at = find(&expected, LOCAL, 0) + 30 + 1 + 28 + 3;
    let s = src(b"hello");
    let mut r = Box::pin(make(s.clone()));
    r.as_mut().seek_from_start_pinned(at as u64);
    assert_eq!(read_exact(r.as_mut(), 2), b"lo");
    assert_eq!(s.sh.borrow().seeks, vec![3]);
    assert_eq!(s.sh.borrow().reads, 1, "the skipped part was read");
}
''')

seed("C10-take-clips", "C10", "taking a reader out that stands behind the end of the archive",
 "the taken reader's position is clipped to the size of the archive",
 [(R, "            read_state.seek_from_start(&sizes, &entries, read_pos);", "            read_state.seek_from_start(&sizes, &entries, read_pos.min(sizes.total_size));")],
 HEAD + r'''
fn main() {
    let mut r = pin!(builder(&[("a", src(b"hello"))]).build());
    let p = r.size() + 5;
    r.as_mut().seek_from_start_pinned(p);
    let c = r.clone();
    let t = r.as_mut().take_pinned();
    assert_eq!(c.tell(), p);
    assert_eq!(t.tell(), p);
}
''')

seed("C10-dummy-position", "C10", "what stays behind after taking a reader that was advanced",
 "the emptied reader left behind does not start at its beginning",
 [(R, """            let _ = replace(projected.read_state, empty.read_state);
            let mut""", """            let old = replace(projected.read_state, empty.read_state);
            projected.read_state.staging_buffer = old.staging_buffer; // Reuse the allocation
            let mut""")],
 HEAD + r'''
fn main() {
    let mut r = pin!(builder(&[("a", src(b"hello"))]).build());
    read_exact(r.as_mut(), 3);
    let _t = r.as_mut().take_pinned();
    assert_eq!(r.tell(), 0);
    let (left, e) = read_to_end(r.as_mut(), 7);
    assert!(e.is_none());
    assert_eq!(left, whole(Builder::<Src>::new().build()));
}
''')

seed("C11-chars", "C11", "a name of at most 65535 characters but more than 65535 bytes",
 "the name length is checked in characters, the entry is accepted and reading panics",
 [(B, "        if u16::try_from(name.len()).is_err() {", "        if u16::try_from(name.chars().count()).is_err() {")],
 HEAD + r'''
fn main() {
    let mut b = builder(&[]);
    assert!(b.add_entry("\u{e9}".repeat(32767), src(b"x")).is_ok());
    let long = "\u{e9}".repeat(32768);
    let e = b.add_entry(long.clone(), src(b"x")).map(|_| ()).unwrap_err();
    assert!(matches!(e, zippity::AddEntryError::TooLongEntryName { entry_name } if entry_name == long));
}
''')

seed("C12-symlink-sticks", "C12", "an entry made a symlink and then a file again",
 "the symlink's 0777 stays when the type is changed again",
 [(B, "        self.file_type = BuilderFileType::Symlink;\n", "        self.file_type = BuilderFileType::Symlink;\n        self.permissions = BuilderPermissions::UnixPermissions(0o777);\n")],
 HEAD + r'''
fn main() {
    let mut b = builder(&[]);
    b.add_entry("a".to_string(), src(b"x")).unwrap().unix_permissions(0o600).symlink().file();
    let z = whole(b.build());
    assert_eq!(u32_at(&z, find(&z, CENTRAL, 0) + 38) >> 16, 0o100600);
}
''')

seed("C12-readonly-masks", "C12", "unix permissions set before choosing read-only",
 "read-only only removes the write bits of permissions set before instead of overriding them",
 [(B, """        self.permissions = if ro {
            BuilderPermissions::Ro
        } else {
            BuilderPermissions::Rw
        };
        self""", """        self.permissions = match (ro, self.permissions) {
            (true, BuilderPermissions::UnixPermissions(p)) => {
                BuilderPermissions::UnixPermissions(p & 0o555)
            }
            (true, _) => BuilderPermissions::Ro,
            (false, _) => BuilderPermissions::Rw,
        };
        self""")],
 HEAD + r'''
fn main() {
    let mut b = builder(&[]);
    b.add_entry("a".to_string(), src(b"x")).unwrap().unix_permissions(0o700).readonly(true);
    let z = whole(b.build());
    assert_eq!(u32_at(&z, find(&z, CENTRAL, 0) + 38) >> 16, 0o100444);
}
''')

RT = r'''
fn rt<F: Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}
'''
seed("C13-backslash", "C13", "a file whose name contains a backslash",
 "backslashes in names are turned into slashes, so a file seems to be in a directory that does not exist",
 [(F, """    format!("{root_prefix}{path}{trailing_slash}")""", """    let path = path.replace('\\\\', "/");
    format!("{root_prefix}{path}{trailing_slash}")""".replace('\\\\\\\\','\\\\'))],
 HEAD + RT + r'''
fn main() {
    let d = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap());
    std::fs::write(d.join("a\\b"), b"x").unwrap();
    let mut b = Builder::new();
    rt(b.add_directory_recursive(d, None)).unwrap();
    assert_eq!(b.get_entries().keys().collect::<Vec<_>>(), vec!["a\\b"]);
}
''')

seed("C13-root-mode", "C13", "a root name, and a directory whose permissions differ from the last object visited",
 "the entry of the root itself gets the metadata of the last object that was visited",
 [(F, """        let mut stack = vec![directory.clone()];
        while""", """        let mut directory_metadata = directory_metadata;
        let mut stack = vec![directory.clone()];
        while"""), (F, """                if metadata.is_dir() {
                    stack.push(path.clone());
                }
""", """                if metadata.is_dir() {
                    stack.push(path.clone());
                    directory_metadata = metadata.clone();
                }
""")],
 HEAD + RT + r'''
use std::os::unix::fs::PermissionsExt;
fn main() {
    let d = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap());
    std::fs::create_dir(d.join("sub")).unwrap();
    std::fs::set_permissions(d.join("sub"), std::fs::Permissions::from_mode(0o700)).unwrap();
    std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755)).unwrap();
    let mut b = Builder::new();
    rt(b.add_directory_recursive(d, Some("root"))).unwrap();
    let n = b.get_entries().get_index_of("root/").unwrap();
    let z = rt(async {
        use tokio::io::AsyncReadExt;
        let mut v = Vec::new();
        Box::pin(b.build()).read_to_end(&mut v).await.unwrap();
        v
    });
    assert_eq!(u32_at(&z, find(&z, CENTRAL, n) + 38) >> 16, 0o040755);
}
''')

ACTIX = 'actix-web = { version = "4.5.1", default-features = false }'
seed("C14-no-rewind", "C14", "a request without Range answered with a reader that was already read from",
 "the response of the whole archive starts in the middle if the reader was used before",
 [(A, """        self.inner
            .bytes_stream
            .reader_mut()
            .seek_from_start_mut(offset);
""", """        if offset != 0 {
            self.inner
                .bytes_stream
                .reader_mut()
                .seek_from_start_mut(offset);
        }
""")],
 HEAD + r'''
use actix_web::{Responder, body::MessageBody};
fn main() {
    let make = || { let mut b: Builder<Vec<u8>> = Builder::new(); b.add_entry("a".to_string(), b"hello".to_vec()).unwrap(); b.build() };
    let expected = whole(make());
    let mut used = make();
    used.seek_from_start_mut(7);
    let resp = used.into_responder().respond_to(&actix_web::test::TestRequest::get().to_http_request());
    assert_eq!(resp.status().as_u16(), 200);
    let mut body = Box::pin(resp.into_body());
    let mut got = Vec::new();
    while let Poll::Ready(Some(x)) = body.as_mut().poll_next(&mut cx()) { got.extend_from_slice(&x.unwrap()); }
    assert!(got == expected);
}
''', features=["actix-web"], deps=ACTIX)

seed("C14-suffix-off", "C14", "a range that reaches exactly to the last byte but does not start at the first",
 "a range that ends at the end of the archive is answered with 200 although it is only a part",
 [(A, "        if offset != 0 || length != size {", "        if offset + length != size {")],
 HEAD + r'''
use actix_web::Responder;
fn main() {
    let mut b: Builder<Vec<u8>> = Builder::new();
    b.add_entry("a".to_string(), b"hello".to_vec()).unwrap();
    let r = b.build().into_responder();
    let resp = r.respond_to(&actix_web::test::TestRequest::get().insert_header(("Range", "bytes=-4")).to_http_request());
    assert_eq!(resp.status().as_u16(), 206);
}
''', features=["actix-web"], deps=ACTIX)

seed("C15-coalesce", "C15", "a source error in the middle of filling a chunk from several reads",
 "chunks are filled by several reads, and an error after the first of them loses the bytes already in the chunk",
 [(Y, """        let n = std::task::ready!(poll_read_buf(projected.reader, cx, projected.buffer))? as u64;

        if n == 0 {
            return Poll::Ready(None);
        }
""", """        // Coalesce short reads
        let mut reader = projected.reader;
        while projected.buffer.len() < READ_SIZE / 2 {
            match poll_read_buf(reader.as_mut(), cx, projected.buffer) {
                Poll::Ready(Ok(0)) => break,
                Poll::Ready(Ok(_)) => {}
                Poll::Ready(Err(e)) => {
                    projected.buffer.clear();
                    return Poll::Ready(Some(Err(e)));
                }
                Poll::Pending if projected.buffer.is_empty() => return Poll::Pending,
                Poll::Pending => break,
            }
        }

        if projected.buffer.is_empty() {
            return Poll::Ready(None);
        }
""")],
 HEAD + r'''
use futures_core::Stream;
fn main() {
    let s = src(b"hello world");
    let b = builder(&[("a", s.clone())]);
    let expected = whole(b.clone().build());
    let mut st = Box::pin(b.build().into_bytes_stream());
    s.script(&[Go(0), Go(4), Fail(ErrorKind::ConnectionReset)]);
    let (mut got, mut errors) = (Vec::new(), 0);
    loop {
        match st.as_mut().poll_next(&mut cx()) {
            Poll::Ready(Some(Ok(x))) => got.extend_from_slice(&x),
            Poll::Ready(Some(Err(_))) => errors += 1,
            Poll::Ready(None) => break,
            Poll::Pending => {}
        }
    }
    assert_eq!(errors, 1);
    assert!(got == expected);
}
''', features=["bytes"], deps='futures-core = "0.3"')

seed("C16-central-offset", "C16", "an entry that starts above 4 GiB",
 "offsets in the central directory are cut to 32 bits",
 [(R, """                uncompressed_size: entry.size,
                compressed_size: entry.size,
                offset: entry.offset,""", """                uncompressed_size: entry.size,
                compressed_size: entry.size,
                offset: u64::from(entry.offset as u32),""")],
 HEAD + r'''
fn main() {
    let big = 5u64 << 32;
    let mut b = builder(&[]);
    b.add_entry("a".to_string(), src(b"").declare(big)).unwrap().crc32(0);
    b.add_entry("b".to_string(), src(b"x")).unwrap().crc32(0x8cdc1683);
    let size = b.size();
    let mut r = Box::pin(b.build());
    let tail = 98 + 2 * (46 + 1 + 28);
    r.as_mut().seek_from_start_pinned(size - tail);
    let (t, e) = read_to_end(r.as_mut(), 1000);
    assert!(e.is_none(), "{e:?}");
    let second = find(&t, CENTRAL, 1);
    assert_eq!(u64_at(&t, second + 46 + 1 + 4 + 16), 30 + 1 + 28 + big + 24);
}
''')

seed("C16-skip-wraps", "C16", "a seek more than 4 GiB into an entry with a known CRC",
 "the offset inside an entry is cut to 32 bits when the source is positioned",
 [(R, """                    SeekFrom::Start(self.to_skip)
                ))?;
                assert!(pos_after_seek == self.to_skip);""", """                    SeekFrom::Start(self.to_skip & 0xffff_ffff)
                ))?;
                assert!(pos_after_seek & 0xffff_ffff == self.to_skip & 0xffff_ffff);""")],
 HEAD + r'''
fn main() {
    let s = src(b"").declare(1 << 40);
    let mut b = builder(&[]);
    b.add_entry("a".to_string(), s.clone()).unwrap().crc32(0);
    let mut r = Box::pin(b.build());
    r.as_mut().seek_from_start_pinned(30 + 1 + 28 + (3 << 32) + 7);
    let _ = poll_read(r.as_mut(), 10);
    assert_eq!(s.sh.borrow().seeks, vec![(3 << 32) + 7]);
}
''')

seed("C17-late-symlink", "C17", "a symlink replaced between adding and reading by one with a target of the same length",
 "the link target is read again when the archive is read",
 [(F, """            EntryType::Symlink { ref target_bytes } => FilesystemEntryFuture::Symlink {
                target_bytes: Arc::clone(target_bytes),
            },
            EntryType::Directory => {""", """            EntryType::Symlink { ref target_bytes } => FilesystemEntryFuture::Symlink {
                target_bytes: match std::fs::read_link(&self.path) {
                    Ok(target) => target.as_os_str().as_encoded_bytes().into(),
                    Err(_) => Arc::clone(target_bytes),
                },
            },
            EntryType::Directory => {""")],
 HEAD + RT + r'''
fn main() {
    let d = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap());
    let l = d.join("link");
    std::os::unix::fs::symlink("one", &l).unwrap();
    let z = rt(async {
        let mut b = Builder::new();
        b.add_directory_recursive(d, None).await.unwrap();
        std::fs::remove_file(&l).unwrap();
        std::os::unix::fs::symlink("two", &l).unwrap();
        use tokio::io::AsyncReadExt;
        let mut v = Vec::new();
        Box::pin(b.build()).read_to_end(&mut v).await.unwrap();
        v
    });
    assert_eq!(&z[30 + 4 + 28..][..3], b"one");
}
''')

seed("C18-rewound", "C18", "a response aborted after some of its body was taken",
 "the reader is handed back at its beginning, not after the last byte taken",
 [(A, """        let extracted = projected.bytes_stream.reader_pin_mut().take_pinned();
""", """        let mut extracted = projected.bytes_stream.reader_pin_mut().take_pinned();
        extracted.seek_from_start_mut(0);
""")],
 HEAD + r'''
use actix_web::{Responder, body::MessageBody};
fn main() {
    let mut b: Builder<Vec<u8>> = Builder::new();
    b.add_entry("a".to_string(), vec![7; 30_000]).unwrap();
    let (r, mut rx) = b.build().into_responder_with_channel();
    let resp = r.respond_to(&actix_web::test::TestRequest::get().to_http_request());
    let mut body = Box::pin(resp.into_body());
    let mut taken = 0;
    for _ in 0..2 {
        if let Poll::Ready(Some(Ok(x))) = body.as_mut().poll_next(&mut cx()) { taken += x.len() as u64; }
    }
    drop(body);
    assert!(taken > 0);
    assert_eq!(rx.try_recv().unwrap().tell(), taken);
}
''', features=["actix-web"], deps=ACTIX)

seed("C18-refused-silent", "C18", "a response with a hand-back channel whose request is refused as unsatisfiable",
 "no reader is handed back when the range can't be satisfied",
 [(A, """                response.insert_header((CONTENT_RANGE, format!("bytes */{size}")));
""", """                response.insert_header((CONTENT_RANGE, format!("bytes */{size}")));
                self.inner.drop_channel = None;
""")],
 HEAD + r'''
use actix_web::Responder;
fn main() {
    let mut b: Builder<Vec<u8>> = Builder::new();
    b.add_entry("a".to_string(), vec![7; 30]).unwrap();
    let (r, mut rx) = b.build().into_responder_with_channel();
    let resp = r.respond_to(&actix_web::test::TestRequest::get().insert_header(("Range", "bytes=99999-")).to_http_request());
    assert_eq!(resp.status().as_u16(), 416);
    drop(resp);
    assert!(rx.try_recv().is_ok());
}
''', features=["actix-web"], deps=ACTIX)

seed("C19-skip-in-one-read", "C19", "a seek far into a large entry without known CRC",
 "the buffer used for skipping grows with the distance to skip",
 [(R, """                let mut read_buffer = get_read_buf(&mut self.staging_buffer);

                while""", """                let block = usize::try_from(self.to_skip).unwrap_or(usize::MAX).clamp(READ_SIZE, 1 << 24);
                self.staging_buffer.reserve(block);
                let mut read_buffer =
                    ReadBuf::uninit(&mut self.staging_buffer.spare_capacity_mut()[..block]);

                while""")],
 HEAD + r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct Counting;
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BIGGEST.fetch_max(l.size(), Relaxed); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let s = src(&vec![5; 4 << 20]);
    let mut r = Box::pin(builder(&[("a", s)]).build());
    r.as_mut().seek_from_start_pinned(3 << 20);
    BIGGEST.store(0, Relaxed);
    read_exact(r.as_mut(), 10);
    assert!(BIGGEST.load(Relaxed) < 100_000, "allocated {} bytes", BIGGEST.load(Relaxed));
}
''')

seed("C20-failed-set-clears", "C20", "a valid time followed by a rejected one",
 "a rejected time clears the one set before",
 [(B, """        self.datetime = Some(structs::DosDatetime::new(
            year, month, day, hour, minute, second,
        )?);
        Some(self)""", """        self.datetime = structs::DosDatetime::new(year, month, day, hour, minute, second);
        self.datetime.is_some().then_some(self)""")],
 HEAD + r'''
fn main() {
    let mut b = builder(&[]);
    let e = b.add_entry("a".to_string(), src(b"x")).unwrap();
    e.datetime_fields(2001, 2, 3, 4, 5, 6).unwrap();
    assert!(e.datetime_fields(1900, 1, 1, 1, 1, 1).is_none());
    let z = whole(b.build());
    assert_eq!(u16_at(&z, find(&z, CENTRAL, 0) + 14), 21 << 9 | 2 << 5 | 3);
}
''')

seed("C20-metadata-keeps", "C20", "a file with a modification time before 1980 whose metadata are copied to an entry that had a time already",
 "copying metadata with an unrepresentable time keeps the old time instead of recording the default",
 [(B, "            self.datetime_system_or_default(modified);", "            self.datetime_system(modified);")],
 HEAD + r'''
fn main() {
    let f = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap()).join("f");
    let h = std::fs::File::create(&f).unwrap();
    h.set_modified(std::time::SystemTime::UNIX_EPOCH).unwrap();
    let mut b = builder(&[]);
    b.system_time_converter(|t| {
        let s = t.duration_since(std::time::SystemTime::UNIX_EPOCH).unwrap().as_secs();
        (1970 + (s / 31_600_000) as i32, 1, 1, 0, 0, 0)
    });
    let e = b.add_entry("a".to_string(), src(b"x")).unwrap();
    e.datetime_fields(2001, 2, 3, 4, 5, 6).unwrap();
    e.metadata(&h.metadata().unwrap());
    let z = whole(b.build());
    assert_eq!(u16_at(&z, find(&z, CENTRAL, 0) + 14), 1 << 5 | 1);
}
''')
