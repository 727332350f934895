//! C19: heap use, measured by a counting allocator.
use crate::alloc;
use crate::arch::{self, Crc, ES};
use crate::checks_builder::Tmp;
use crate::checks_http::respond;
use crate::ctl::{Ctl, Ctx, R, fail, op};
use crate::ensure;
use crate::env::*;
use actix_web::body::MessageBody;
use futures_core::Stream;
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, ReadBuf};
use zippity::{Builder, EntryData, Reader};

/// Working memory that does not depend on anything
const CONST: i64 = 256 << 10;

fn bound(entries: usize, names: usize) -> i64 {
    CONST + 1024 * entries as i64 + 8 * names as i64
}

fn within(what: &str, base: i64, limit: i64, peak: i64) -> R {
    ensure!(
        peak - base <= limit,
        "memory",
        "{what} needed {} bytes of memory, the limit is {limit}",
        peak - base
    );
    Ok(())
}

/// Reads up to `max` bytes into `buf` repeatedly without allocating; the number of bytes read.
fn drain<A: AsyncRead + ?Sized>(mut r: Pin<&mut A>, buf: &mut [u8], max: u64) -> R<u64> {
    let mut total = 0;
    let mut stalls = 0;
    while total < max {
        let n = (max - total).min(buf.len() as u64) as usize;
        let mut b = ReadBuf::new(&mut buf[..n]);
        op();
        match r
            .as_mut()
            .poll_read(&mut Context::from_waker(Waker::noop()), &mut b)
        {
            Poll::Ready(Ok(())) => {
                let k = b.filled().len();
                if k == 0 {
                    break;
                }
                total += k as u64;
            }
            Poll::Pending => {
                stalls += 1;
                ensure!(stalls < 100_000_000, "pending", "pending for ever");
            }
            // Whether reading is right is up to other properties
            Poll::Ready(Err(_)) => break,
        }
    }
    Ok(total)
}

fn read_stream<D: EntryData>(r: Reader<D>) -> R<u64> {
    let mut s = std::pin::pin!(r.into_bytes_stream());
    let mut n = 0;
    loop {
        op();
        match s
            .as_mut()
            .poll_next(&mut Context::from_waker(Waker::noop()))
        {
            Poll::Ready(Some(Ok(b))) => n += b.len() as u64,
            Poll::Ready(_) => return Ok(n),
            Poll::Pending => {}
        }
    }
}

fn read_body(r: Reader<Ed>, from: u64) -> R<u64> {
    let h = format!("bytes={from}-");
    let resp = respond(r.into_responder(), Some(h.as_bytes()))?;
    let mut b = Box::pin(resp.into_body());
    let mut n = 0;
    loop {
        op();
        match b
            .as_mut()
            .poll_next(&mut Context::from_waker(Waker::noop()))
        {
            Poll::Ready(Some(Ok(b))) => n += b.len() as u64,
            Poll::Ready(_) => return Ok(n),
            Poll::Pending => {}
        }
    }
}

/// Sources that make no choices and log nothing, so that replays need as much memory as checks.
fn silent(entries: usize, faults: u16) -> EnvRef {
    Env::new(&Ctl::new(vec![], false), entries, faults)
}

fn fill(name: &str, len: u64, crc: Crc) -> ES {
    ES {
        name: name.into(),
        content: Content::Fill { byte: 7, len },
        declared: None,
        crc,
    }
}

#[derive(Clone, Copy, Debug)]
enum Act {
    Seek(u64),
    Read(usize),
    Clone,
    Take,
    Stream,
    /// A responder that is dropped after some polls
    Body(u64, usize),
}

fn cycle(env: &EnvRef, r: &mut Option<Reader<Ed>>, acts: &[Act], buf: &mut [u8]) -> R {
    for a in acts {
        env.begin_op(None);
        op();
        let reader = r.as_mut().unwrap();
        match a {
            Act::Seek(p) => reader.seek_from_start_mut(*p),
            Act::Read(n) => {
                let mut b = ReadBuf::new(&mut buf[..*n]);
                let _ = Pin::new(reader).poll_read(&mut Context::from_waker(Waker::noop()), &mut b);
            }
            Act::Clone => {
                let c = reader.clone();
                *r = Some(c);
            }
            Act::Take => {
                let t = Pin::new(reader).take_pinned();
                *r = Some(t);
            }
            Act::Stream => {
                let mut s = r.take().unwrap().into_bytes_stream();
                let _ = Pin::new(&mut s).poll_next(&mut Context::from_waker(Waker::noop()));
                *r = Some(s.into_reader());
            }
            Act::Body(from, polls) => {
                let (a, mut rx) = r.take().unwrap().into_responder_with_channel();
                let h = format!("bytes={from}-");
                let resp = respond(a, Some(h.as_bytes()))?;
                let mut b = Box::pin(resp.into_body());
                for _ in 0..*polls {
                    // A wrapper of actix panics if there is a second error
                    if let Poll::Ready(Some(Err(_))) = b
                        .as_mut()
                        .poll_next(&mut Context::from_waker(Waker::noop()))
                    {
                        break;
                    }
                }
                drop(b);
                let Ok(x) = rx.try_recv() else {
                    return fail("no-reader", "no reader was handed back");
                };
                *r = Some(x);
            }
        }
    }
    Ok(())
}

pub fn c19(ctx: &Ctx) {
    // 1. Sizes, offsets, read sizes, ways to read
    let sizes: &[u64] = ctx.q(
        &[0, 100, 8192, 1 << 20, 64 << 20][..],
        &[
            0,
            1,
            100,
            8191,
            8192,
            8193,
            1 << 16,
            1 << 20,
            64 << 20,
            1 << 30,
        ][..],
    );
    let crc_of: Vec<u32> = sizes
        .iter()
        .map(|s| Content::Fill { byte: 7, len: *s }.crc())
        .collect();
    ctx.nontrivial
        .fetch_add(sizes.len() as u64 * 6, Ordering::Relaxed);
    ctx.sample(|| format!("entries of {sizes:?} bytes, at the start, in the middle and at the end, known and unknown CRC, every offset class, read size and way of reading"));
    ctx.tree("sizes, offsets and ways to read", |ctl| {
        let k = ctl.choose(sizes.len());
        let size = sizes[k];
        let known = ctl.flag();
        let crc = if known { Crc::Given(crc_of[k]) } else { Crc::Unknown };
        let big = fill("big", size, crc);
        let small = |n: &str| ES::new(n, b"small", if known { Crc::True } else { Crc::Unknown });
        let (es, i) = match ctl.choose(3) {
            0 => (vec![big], 0),
            1 => (vec![small("a"), big, small("z")], 1),
            _ => (vec![big, small("m"), fill("big2", size, crc)], 0),
        };
        let offset = ctl.choose(8);
        let chunk = *ctl.pick(if size > 1 << 22 { &[4096usize, 1 << 16][..] } else { &[16usize, 4096, 8192, 1 << 16][..] });
        let way = ctl.choose(3);
        if way > 0 && chunk != 4096 {
            return Ok(());
        }
        let stutter = ctl.choose(2) as u64 * 3;
        let env = silent( es.len(), 0);
        env.stutter.set(stutter);
        let names: usize = es.iter().map(|e| e.name.len()).sum();
        let mut buf = vec![0u8; chunk];
        let lim = bound(es.len(), names);
        alloc::reset_peak();
        let base = alloc::live();
        let b = arch::builder(&env, &es)?;
        let total = b.size();
        let mut r = b.build();
        within("building", base, lim, alloc::peak())?;
        // Start of the data of the big entry: 30 + name + extra field per entry before
        let data = if i == 0 { 58 + es[0].name.len() as u64 } else { 1 + 58 + 5 + 24 + 58 + 3 };
        let at = match offset {
            0 => 0,
            1 => data + size / 2,
            2 => data + size.saturating_sub(1),
            3 => data + size + 3,
            4 => data + size + 24,
            5 => total - 98 - 10,
            6 => total - 50,
            _ => total - 150,
        }
        .min(total);
        ctl.log(|| format!("  [{}] from {at} of {total}, {chunk} byte reads, way {way}, pending every {stutter}", arch::describe(&es)));
        let n = match way {
            0 => {
                r.seek_from_start_mut(at);
                drain(Pin::new(&mut r), &mut buf, u64::MAX)?
            }
            1 => {
                r.seek_from_start_mut(at);
                read_stream(r)?
            }
            _ => {
                let n = if at == total { 0 } else { read_body(r, at)? };
                n
            }
        };
        ctx.note("bytes read", n);
        ctx.note_max("largest peak", (alloc::peak() - base) as u64);
        within("reading", base, lim, alloc::peak())?;
        Ok(())
    });

    // 2. Known CRCs: positioning in entries that could never be read
    let huge = [1u64 << 30, (1 << 32) + 1, 1 << 45];
    ctx.tree("positioning in huge entries", |ctl| {
        let size = *ctl.pick(&huge);
        let es = [
            fill("big", size, Crc::Given(1)),
            fill("big2", size, Crc::Given(2)),
            ES::new("z", b"small", Crc::True),
        ];
        let env = silent(es.len(), 0);
        let mut buf = vec![0u8; 1 << 16];
        let lim = bound(3, 10);
        alloc::reset_peak();
        let base = alloc::live();
        let mut r = arch::builder(&env, &es)?.build();
        let total = r.size();
        for _ in 0..2 {
            let at = *ctl.pick(&[
                0u64,
                size / 2,
                size - 70_000,
                size + 61,
                size + 90,
                2 * size,
                2 * size + 300,
                total - 400,
                total - 98,
            ]);
            let n = *ctl.pick(&[1u64, 100, 8192, 300_000]);
            r.seek_from_start_mut(at);
            drain(Pin::new(&mut r), &mut buf, n)?;
        }
        within("positioning", base, lim, alloc::peak())
    });

    // 3. Nothing accumulates
    let es = [
        fill("one", 20_000, Crc::Unknown),
        fill(
            "two",
            20_000,
            Crc::Given(
                crate::env::Content::Fill {
                    byte: 7,
                    len: 20_000,
                }
                .crc(),
            ),
        ),
        fill("three", 0, Crc::Unknown),
    ];
    let total = {
        let env = silent(es.len(), 0);
        crate::checks_reader::golden(&es);
        arch::builder(&env, &es).map(|b| b.size()).unwrap_or(0)
    };
    let mut acts = vec![
        Act::Clone,
        Act::Take,
        Act::Stream,
        Act::Body(10, 1),
        Act::Body(15_000, 2),
        Act::Body(total - 50, 1),
    ];
    for p in [
        0,
        1,
        35,
        61 + 10_000,
        61 + 20_000 + 5,
        40_000,
        total - 200,
        total - 50,
        total + 7,
    ] {
        acts.push(Act::Seek(p));
    }
    for n in [1, 20, 8192, 40_000] {
        acts.push(Act::Read(n));
    }
    let len = ctx.q(3, 4);
    let cycles = ctx.q(1000, 2000);
    ctx.nontrivial
        .fetch_add(acts.len() as u64, Ordering::Relaxed);
    ctx.sample(|| format!("all sequences of {len} out of {acts:?}, repeated {cycles} times"));
    ctx.tree("repeated cycles", |ctl| {
        let (stutter, fail) = [(0, 0), (2, 0), (0, 3), (3, 2)][ctl.choose(4)];
        let seq: Vec<Act> = (0..len).map(|_| *ctl.pick(&acts)).collect();
        ctl.log(|| format!("  {seq:?} repeated, pending every {stutter}, failing every {fail}"));
        let env = silent(es.len(), 0);
        env.stutter.set(stutter);
        env.fail_every.set(fail);
        let mut buf = vec![0u8; 1 << 16];
        alloc::reset_peak();
        let base = alloc::live();
        let mut r = Some(arch::builder(&env, &es)?.build());
        for _ in 0..20 {
            cycle(&env, &mut r, &seq, &mut buf)?;
        }
        let warm = alloc::live();
        for _ in 0..cycles {
            cycle(&env, &mut r, &seq, &mut buf)?;
        }
        // Buffers that exist only once may have been allocated since
        ensure!(
            alloc::live() - warm < 20480,
            "accumulates",
            "memory use grew by {} bytes over {cycles} repetitions",
            alloc::live() - warm
        );
        within("repeating", base, bound(3, 11), alloc::peak())?;
        drop(r);
        drop(env);
        ensure!(
            alloc::live() - base < 32768,
            "leak",
            "{} bytes are left when everything is dropped",
            alloc::live() - base
        );
        Ok(())
    });

    // 4. Metadata
    let counts: &[usize] = ctx.q(&[1, 10, 1000, 10_000], &[1, 10, 100, 1000, 10_000, 100_000]);
    ctx.tree("many entries", |ctl| {
        let n = *ctl.pick(counts);
        let len = *ctl.pick(&[6usize, 100, 2000]);
        if n * len > 100_000_000 {
            return Ok(());
        }
        let es: Vec<ES> = (0..n)
            .map(|i| {
                fill(
                    &format!("{i:0len$}"),
                    if n <= 1000 { 5000 } else { 5 },
                    Crc::Unknown,
                )
            })
            .collect();
        let env = silent(n, 0);
        let names: usize = es.iter().map(|e| e.name.len()).sum();
        let mut buf = vec![0u8; 1 << 16];
        alloc::reset_peak();
        let base = alloc::live();
        let mut r = arch::builder(&env, &es)?.build();
        // The other order makes skipping necessary
        if ctl.flag() {
            r.seek_from_start_mut(r.size() / 2 + 7);
            drain(Pin::new(&mut r), &mut buf, u64::MAX)?;
            r.seek_from_start_mut(0);
        }
        drain(Pin::new(&mut r), &mut buf, u64::MAX)?;
        ctl.log(|| {
            format!(
                "  {n} entries, {names} bytes of names: peak {}",
                alloc::peak() - base
            )
        });
        within("many entries", base, bound(n, names), alloc::peak())
    });

    // 5. Byte containers: the content exists once
    ctx.tree("byte containers", |ctl| {
        let size = *ctl.pick(&[0usize, 8 << 20]);
        let mut buf = vec![0u8; 1 << 16];
        let content = vec![1u8; size];
        fn go<D: EntryData>(ctl: &Ctl, a: D, b: D, buf: &mut [u8], size: usize) -> R {
            let known = ctl.flag();
            let crc = if known {
                Some(
                    crate::env::Content::Fill {
                        byte: 1,
                        len: size as u64,
                    }
                    .crc(),
                )
            } else {
                None
            };
            let at = *ctl.pick(&[0u64, 100, size as u64, 2 * size as u64 + 300]);
            let stream = ctl.flag();
            alloc::reset_peak();
            let base = alloc::live();
            let mut bl = Builder::<D>::new();
            for (n, d) in [("a", a), ("b", b)] {
                let Ok(e) = bl.add_entry(n.to_string(), d) else {
                    return fail("add", "an add was refused");
                };
                if let Some(c) = crc {
                    e.crc32(c);
                }
            }
            let mut r = bl.build();
            r.seek_from_start_mut(at);
            if stream {
                read_stream(r)?;
            } else {
                let mut r = std::pin::pin!(r);
                drain(r.as_mut(), buf, u64::MAX)?;
            }
            within("reading byte containers", base, bound(2, 2), alloc::peak())
        }
        match ctl.choose(4) {
            0 => go(ctl, content.clone(), content, &mut buf, size),
            1 => go(ctl, &content[..], &content[..], &mut buf, size),
            2 => {
                let b = bytes::Bytes::from(content);
                go(ctl, b.clone(), b, &mut buf, size)
            }
            _ => {
                let b: std::sync::Arc<[u8]> = content.into();
                go(ctl, b.clone(), b, &mut buf, size)
            }
        }
    });

    // 6. Files; tokio uses other threads, so only blocks of 4 KiB and more of all threads are counted
    let fs: &[u64] = ctx.q(&[0, 100_000, 64 << 20], &[0, 100_000, 64 << 20, 1 << 30]);
    let tmp = Tmp::new("mem");
    for s in fs {
        let f = std::fs::File::create(tmp.0.join(format!("f{s}"))).unwrap();
        f.set_len(*s).unwrap();
    }
    let rt = tokio::runtime::Builder::new_current_thread()
        .build()
        .unwrap();
    let crcs: Vec<u32> = fs
        .iter()
        .map(|s| Content::Fill { byte: 0, len: *s }.crc())
        .collect();
    // Threads and the like exist from here on
    rt.block_on(async { tokio::fs::read_dir(&tmp.0).await.map(|_| ()) })
        .unwrap();
    ctx.tree_n("files", 1, |ctl| {
        let k = ctl.choose(fs.len());
        let known = ctl.flag();
        let at = ctl.choose(3);
        let chunk = *ctl.pick(&[100usize, 8192, 1 << 16]);
        if chunk == 100 && fs[k] > 1 << 20 {
            return Ok(());
        }
        let tree = ctl.flag();
        let stream = chunk == 8192 && ctl.flag();
        if tree && (k > 0 || chunk == 100) {
            return Ok(());
        }
        let mut buf = vec![0u8; chunk];
        let base = alloc::reset_global_peak();
        rt.block_on(async {
            let mut b = Builder::<zippity::FilesystemEntry>::new();
            if tree {
                // All of the files
                if let Err(e) = b.add_directory_recursive(tmp.0.clone(), Some("r")).await {
                    return fail("add", format!("adding a directory failed: {e}"));
                }
                for (s, crc) in fs.iter().zip(&crcs) {
                    match b.get_entries_mut().get_mut(&format!("r/f{s}")) {
                        Some(e) if known => {
                            e.crc32(*crc);
                        }
                        _ => {}
                    }
                }
            } else {
                let path = tmp.0.join(format!("f{}", fs[k]));
                let m = std::fs::symlink_metadata(&path).unwrap();
                match b.add_filesystem_entry("f".into(), path, &m).await {
                    Ok(e) => {
                        if known {
                            e.crc32(crcs[k]);
                        }
                    }
                    Err(e) => return fail("add", format!("adding a file failed: {e}")),
                }
            }
            let mut r = b.build();
            let size = r.size();
            r.seek_from_start_mut([0, size / 2, size - 60][at]);
            if stream {
                let mut s = std::pin::pin!(r.into_bytes_stream());
                while let Some(Ok(_)) = std::future::poll_fn(|cx| s.as_mut().poll_next(cx)).await {
                    op();
                }
                return Ok(());
            }
            let mut r = std::pin::pin!(r);
            loop {
                let n = std::future::poll_fn(|cx| {
                    let mut b = ReadBuf::new(&mut buf);
                    r.as_mut()
                        .poll_read(cx, &mut b)
                        .map_ok(|()| b.filled().len())
                })
                .await;
                op();
                if !matches!(n, Ok(n) if n > 0) {
                    break;
                }
            }
            Ok(())
        })?;
        ctx.note_max(
            "largest peak of files",
            (alloc::global_peak() - base) as u64,
        );
        // The buffers of tokio's files have the size of the reads
        within(
            "reading a file",
            base,
            CONST + (1 << 20),
            alloc::global_peak(),
        )?;
        Ok(())
    });
}
