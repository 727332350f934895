//! C01, C02, C07, C11, C12, C16, C20: the builder and the archives built from it.
use crate::arch::{self, Crc, ES, Golden, Out, SeekSrc, poll_read, read_all};
use crate::checks_reader::golden;
use crate::ctl::{Ctl, Ctx, Fail, R, fail};
use crate::ensure;
use crate::env::*;
use crate::zipck::{self, Checked, Src, Want};
use chrono::{FixedOffset, NaiveDate, NaiveDateTime, Utc};
use std::io::SeekFrom;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::Ordering;
use std::task::Waker;
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use zippity::{AddEntryError, Builder, BuilderEntry, EntryData, ReadError, Reader};

const BIG: usize = 1 << 17;

fn ed(env: &EnvRef, idx: usize, content: Content) -> Ed {
    Ed {
        env: env.clone(),
        idx,
        declared: content.len(),
        content,
    }
}

fn short(n: &str) -> String {
    if n.len() > 24 {
        format!("<{} byte name>", n.len())
    } else {
        format!("{n:?}")
    }
}

/// Reads the whole archive of a builder and checks it.
fn checked(b: Builder<Ed>, want: &[Want], n: usize) -> R<(Vec<u8>, Checked)> {
    let size = b.size();
    let mut r = b.build();
    ensure!(
        r.size() == size,
        "size",
        "the builder announces {size}, the reader {}",
        r.size()
    );
    let bytes = read_all(Pin::new(&mut r), n, size)?;
    ensure!(
        bytes.len() as u64 == size,
        "size",
        "{} bytes read instead of the announced {size}",
        bytes.len()
    );
    let c = zipck::check(&mut &bytes[..], want)?;
    Ok((bytes, c))
}

// ---------------------------------------------------------------------------------------- C01

fn witness(bytes: &[u8], es: &[ES]) -> R {
    // A second, independently written reader has to agree
    let z = |m: String| Fail {
        sig: "witness".into(),
        msg: format!("the zip crate does not read the archive back: {m}"),
    };
    let mut a = zip::ZipArchive::new(std::io::Cursor::new(bytes)).map_err(|e| z(e.to_string()))?;
    ensure!(
        a.len() == es.len(),
        "witness",
        "the zip crate finds {} entries instead of {}",
        a.len(),
        es.len()
    );
    for (i, e) in es.iter().enumerate() {
        let mut f = a.by_index(i).map_err(|e| z(e.to_string()))?;
        ensure!(
            f.name() == e.name,
            "witness",
            "the zip crate finds entry {i} named {:?}",
            f.name()
        );
        ensure!(
            f.size() == e.content.len(),
            "witness",
            "the zip crate finds entry {i} of size {}",
            f.size()
        );
        let mut v = Vec::new();
        std::io::Read::read_to_end(&mut f, &mut v).map_err(|e| z(e.to_string()))?;
        ensure!(
            v == e.content.to_vec(),
            "witness",
            "the zip crate reads other content of entry {i}"
        );
    }
    Ok(())
}

fn asref_archive<D: EntryData>(ctl: &Ctl, g: &Golden, mk: impl Fn(Vec<u8>) -> D) -> R {
    let mut b = Builder::<D>::new();
    for e in &g.es {
        let Ok(x) = b.add_entry(e.name.clone(), mk(e.content.to_vec())) else {
            return fail("add", "an add was refused");
        };
        if let Some(c) = e.given() {
            x.crc32(c);
        }
    }
    ensure!(
        b.size() == g.size(),
        "size",
        "size {} instead of {}",
        b.size(),
        g.size()
    );
    let mut r = std::pin::pin!(b.build());
    let n = *ctl.pick(&[7usize, 4096, BIG]);
    if n > 7 || g.size() < 3000 {
        let bytes = read_all(r.as_mut(), n, g.size())?;
        ensure!(
            bytes == g.bytes,
            "content",
            "the archive differs from the one of scripted sources"
        );
    }
    // Random access, with known CRCs this positions the sources
    let offs: Vec<u64> = if g.size() < 700 {
        (0..=g.size() + 1).collect()
    } else {
        g.boundaries(2)
    };
    let mut src = SeekSrc { r, chunk: n };
    for p in offs {
        let len = (g.size().saturating_sub(p)).min(40) as usize;
        let got = if len == 0 { vec![] } else { src.get(p, len)? };
        let at = (p as usize).min(g.bytes.len());
        ensure!(
            got == g.bytes[at..at + len],
            "content",
            "wrong bytes after a seek to {p}"
        );
    }
    Ok(())
}

fn asref_kinds(ctl: &Ctl, g: &Golden) -> R {
    match ctl.choose(6) {
        0 => asref_archive(ctl, g, |v| v),
        1 => asref_archive(ctl, g, |v| v.into_boxed_slice()),
        2 => asref_archive(ctl, g, |v| -> Arc<[u8]> { v.into() }),
        3 => asref_archive(ctl, g, bytes::Bytes::from),
        4 => asref_archive(ctl, g, |v| {
            String::from_utf8(v.iter().map(|b| b & 0x7f).collect()).unwrap()
        })
        .or_else(|f| {
            // Only comparable if the content is ASCII
            if g.es
                .iter()
                .any(|e| e.content.to_vec().iter().any(|b| *b > 0x7f))
            {
                Ok(())
            } else {
                Err(f)
            }
        }),
        _ => {
            let store: Vec<Vec<u8>> = g.es.iter().map(|e| e.content.to_vec()).collect();
            let mut k = std::cell::Cell::new(0);
            let k = &mut k;
            asref_archive(ctl, g, |_| {
                k.set(k.get() + 1);
                &store[k.get() - 1][..]
            })
        }
    }
}

/// Random access over the data types with the library's own source implementation.
pub fn asref_sources(ctx: &Ctx) {
    let mut gs = Vec::new();
    for crc in [[Crc::Unknown; 2], [Crc::True; 2], [Crc::True, Crc::Unknown]] {
        for (a, b) in [
            (0u64, 5u64),
            (5, 0),
            (1, 17),
            (8191, 8193),
            (8192, 20_000),
            (65_535, 70_001),
        ] {
            gs.push(golden(&[
                ES::pat("first", 1, a, crc[0]),
                ES::new(
                    "second",
                    &(0..b).map(|i| pattern(9, i) & 0x7f).collect::<Vec<_>>(),
                    crc[1],
                ),
            ]));
            gs.push(golden(&[
                ES::new(
                    "x",
                    &(0..a).map(|i| pattern(3, i) & 0x7f).collect::<Vec<_>>(),
                    crc[0],
                ),
                ES::new(
                    "y",
                    &(0..b).map(|i| pattern(9, i) & 0x7f).collect::<Vec<_>>(),
                    crc[1],
                ),
            ]));
        }
    }
    ctx.nontrivial
        .fetch_add(gs.len() as u64 * 6, Ordering::Relaxed);
    ctx.tree("byte containers as entries", |ctl| {
        let g = ctl.pick(&gs);
        ctl.log(|| format!("archive: {}", g.desc));
        asref_kinds(ctl, g)
    });
}

pub fn c01(ctx: &Ctx) {
    let names: Vec<String> = vec![
        "a".into(),
        "é".into(),
        "".into(),
        "a/".into(),
        "дир/файл".into(),
        "n".repeat(255),
        "N".repeat(256),
        "x".repeat(65535),
    ];
    let contents: Vec<Content> = [3u64, 0, 1, 300, 8192, 8193]
        .iter()
        .enumerate()
        .map(|(i, n)| Content::Pattern {
            seed: i as u8,
            len: *n,
        })
        .chain([Content::new(&crate::checks_reader::CRC_ZERO)])
        .collect();
    let max = ctx.q(4, 5);
    ctx.sample(|| {
        format!(
            "names {:?}, content sizes {:?}",
            names.iter().map(|n| short(n)).collect::<Vec<_>>(),
            contents.iter().map(|c| c.len()).collect::<Vec<_>>()
        )
    });
    ctx.tree("every list of entries from the alphabet", |ctl| {
        let count = ctl.choose(max + 1);
        let mut es = Vec::new();
        for i in 0..count {
            let (name, content, crc);
            if count <= 2 {
                name = ctl.pick(&names);
                content = ctl.pick(&contents);
                crc = *ctl.pick(&[Crc::Unknown, Crc::True]);
            } else {
                name = ctl.pick(&names[..ctx.q(7, if count == 3 { 8 } else { 7 })]);
                content = ctl.pick(match (count, ctx.quick()) {
                    (3, true) => &contents[..4],
                    (3, false) => &contents[..],
                    (4, false) => &contents[..3],
                    _ => &contents[..2],
                });
                crc = if count == 3 || count == 4 && !ctx.quick() {
                    *ctl.pick(&[Crc::Unknown, Crc::True])
                } else {
                    [Crc::Unknown, Crc::True][i % 2]
                };
            }
            if es.iter().any(|e: &ES| e.name == *name) {
                return Ok(());
            }
            es.push(ES {
                name: name.clone(),
                content: content.clone(),
                declared: None,
                crc,
            });
        }
        let n = if count <= 1 {
            *ctl.pick(&[BIG, 8192, 17, 1])
        } else if count == 2 {
            *ctl.pick(&[BIG, 37])
        } else {
            BIG
        };
        if n < 100 && es.iter().any(|e| e.name.len() > 300) && count > 1 {
            return Ok(());
        }
        let env = Env::new(ctl, es.len(), 0);
        ctl.log(|| format!("archive: {}, read by {n}", arch::describe(&es)));
        let b = arch::builder(&env, &es)?;
        let (bytes, _) = checked(b, &arch::wants(&es), n)?;
        if count <= 2 {
            witness(&bytes, &es)?;
        }
        ctx.note_max("largest archive", bytes.len() as u64);
        Ok(())
    });
    // More entries, with all metadata set
    ctx.tree("many entries with metadata", |ctl| {
        let count = *ctl.pick(&[1usize, 4, 5, 10, 255, 256, 257, 1000]);
        let kind = ctl.choose(4);
        let es: Vec<ES> = (0..count)
            .map(|i| {
                ES::pat(
                    &format!("{}{i}", "é".repeat(i % 4)),
                    i as u8,
                    [0, 1, 8193, 5, 300][(i + kind) % 5],
                    if (i + kind) % 3 == 0 {
                        Crc::True
                    } else {
                        Crc::Unknown
                    },
                )
            })
            .collect();
        let env = Env::new(ctl, count, 0);
        let mut b = Builder::<Ed>::new();
        for (i, e) in es.iter().enumerate() {
            let x = b
                .add_entry(e.name.clone(), ed(&env, i, e.content.clone()))
                .map_err(|e| Fail {
                    sig: "add".into(),
                    msg: e.to_string(),
                })?;
            if let Some(c) = e.given() {
                x.crc32(c);
            }
            if kind > 0 {
                let _ = match (i + kind) % 3 {
                    0 => x.directory(),
                    1 => x.symlink(),
                    _ => x.file(),
                }
                .unix_permissions(i as u32)
                .datetime_fields(
                    1980 + i as i32 % 128,
                    1 + i as u32 % 12,
                    1 + i as u32 % 31,
                    23,
                    59,
                    59,
                );
            }
        }
        let (bytes, _) = checked(b, &arch::wants(&es), *ctl.pick(&[BIG, 8192, 100]))?;
        if kind < 2 {
            witness(&bytes, &es)?;
        }
        Ok(())
    });
    // Every name length
    ctx.tree("every name length", |ctl| {
        let fine = ctl.choose(2) == 0;
        let len = if fine {
            ctl.choose(ctx.q(9000, 65_536))
        } else {
            *ctl.pick(&[
                8100, 8130, 8160, 8161, 8162, 8163, 8190, 8191, 8192, 8193, 32767, 32768, 65503,
                65534, 65535,
            ])
        };
        let es = vec![
            ES::new(&"a".repeat(len), b"one", Crc::Unknown),
            ES::new(
                &format!("é{}", "b".repeat(len.saturating_sub(2))),
                b"",
                Crc::Unknown,
            ),
        ];
        let env = Env::new(ctl, 2, 0);
        let b = arch::builder(&env, &es)?;
        checked(b, &arch::wants(&es), *ctl.pick(&[BIG, 61])).map(|_| ())
    });
    names_of_every_kind(ctx);
    asref_sources(ctx);
}

// ---------------------------------------------------------------------------------------- C02

#[derive(Clone)]
struct Ent {
    name: String,
    content: Content,
    crc: u32,
    external: Option<u32>,
}

fn wants(es: &[Ent]) -> Vec<Want<'_>> {
    es.iter()
        .map(|e| Want {
            name: &e.name,
            content: &e.content,
            crc: e.crc,
            check_content: false,
        })
        .collect()
}

/// Structure of a possibly huge archive, by random access, and its last bytes up to end of file.
fn check_sparse(mut r: Reader<Ed>, es: &[Ent], chunk: usize) -> R<Checked> {
    let size = r.size();
    let c = zipck::check(
        &mut SeekSrc {
            r: Pin::new(&mut r),
            chunk,
        },
        &wants(es),
    )?;
    // The announced size is where reading ends
    for back in [0, 1, 50] {
        r.seek_from_start_mut(size - back);
        let rest = read_all(Pin::new(&mut r), 30, back)?;
        ensure!(
            rest.len() as u64 == back,
            "size",
            "{} bytes delivered from {back} before the end",
            rest.len()
        );
    }
    ensure!(
        r.size() == size && r.tell() == size,
        "size",
        "size {} and position {} at the end of {size}",
        r.size(),
        r.tell()
    );
    Ok(c)
}

fn total_bytes(b: &Builder<Ed>, small: bool) -> R<u64> {
    let mut r = b.clone().build();
    let size = r.size();
    if small {
        let v = read_all(Pin::new(&mut r), BIG, size)?;
        ensure!(
            v.len() as u64 == size,
            "size",
            "{} bytes read, {size} announced",
            v.len()
        );
    }
    Ok(size)
}

pub fn c02(ctx: &Ctx) {
    let names = [
        "a".to_string(),
        "é".into(),
        "".into(),
        "L".repeat(300),
        "M".repeat(65535),
    ];
    let sizes = [2u64, 0, 8193, 1 << 32, u64::MAX / 2];
    let cases: &[(&str, usize, usize)] = ctx.q(
        &[("builder histories", 4, 4)],
        &[
            ("builder histories", 4, 5),
            ("long builder histories", 5, 3),
        ],
    );
    for &(section, depth, nn) in cases {
        ctx.sample(|| format!("builder histories of up to {depth} operations: add ({nn} names x sizes {sizes:?}), refused adds, metadata, CRC, clone, changes through get_entries_mut"));
        ctx.tree(section, |ctl| {
            let env = Env::new(ctl, 16, 0);
            let mut b = Builder::<Ed>::new();
            let mut es: Vec<Ent> = Vec::new();
            let len = ctl.choose(depth + 1);
            for step in 0..len {
                crate::ctl::op();
                let adds = nn * sizes.len();
                let op = ctl.choose(adds + 11);
                if op < adds {
                    let name = &names[op / sizes.len()];
                    let size = sizes[op % sizes.len()];
                    let content = Content::Pattern {
                        seed: step as u8,
                        len: size,
                    };
                    ctl.log(|| format!("add {} of {size} bytes", short(name)));
                    let dup = es.iter().any(|e| e.name == *name);
                    let before = b.size();
                    match b.add_entry(name.clone(), ed(&env, step, content.clone())) {
                        Ok(x) => {
                            ensure!(!dup, "add", "a duplicate was accepted");
                            // Sizes above the stored ones can't be hashed: what is recorded is given
                            let crc = if size > 10_000 {
                                0x1234_5678
                            } else {
                                content.crc()
                            };
                            if size > 10_000 {
                                x.crc32(crc);
                            }
                            es.push(Ent {
                                name: name.clone(),
                                content,
                                crc,
                                external: None,
                            });
                        }
                        Err(AddEntryError::DuplicateEntryName { .. }) => {
                            ensure!(dup, "add", "refused as a duplicate");
                            ensure!(
                                b.size() == before,
                                "size",
                                "a refused add changed the size from {before} to {}",
                                b.size()
                            );
                        }
                        Err(AddEntryError::TooLongZipFile { .. }) => {
                            ensure!(
                                before
                                    .checked_add(size + 200 + 2 * name.len() as u64)
                                    .is_none(),
                                "add",
                                "refused as too long at {before}"
                            );
                            ensure!(
                                b.size() == before,
                                "size",
                                "a refused add changed the size from {before} to {}",
                                b.size()
                            );
                        }
                        Err(e) => {
                            return fail("add", format!("adding {} failed: {e}", short(name)));
                        }
                    }
                } else {
                    let last = es.len().wrapping_sub(1);
                    match op - adds {
                        0 => {
                            ctl.log(|| "refused add: too long name".into());
                            let before = b.size();
                            ensure!(
                                b.add_entry("z".repeat(65536), ed(&env, step, Content::new(b"x")))
                                    .is_err(),
                                "add",
                                "too long name accepted"
                            );
                            ensure!(
                                b.size() == before,
                                "size",
                                "a refused add changed the size from {before} to {}",
                                b.size()
                            );
                        }
                        1 => {
                            ctl.log(|| "refused add: too long archive".into());
                            let before = b.size();
                            ensure!(
                                b.add_entry(
                                    "zz".into(),
                                    ed(
                                        &env,
                                        step,
                                        Content::Fill {
                                            byte: 0,
                                            len: u64::MAX
                                        }
                                    )
                                )
                                .is_err(),
                                "add",
                                "too long archive accepted"
                            );
                            ensure!(
                                b.size() == before,
                                "size",
                                "a refused add changed the size from {before} to {}",
                                b.size()
                            );
                        }
                        2 => {
                            ctl.log(|| "metadata of the last entry".into());
                            if let Some(e) = es.last() {
                                let n = e.name.clone();
                                b.get_entries_mut()
                                    .get_mut(&n)
                                    .unwrap()
                                    .directory()
                                    .unix_permissions(0o700)
                                    .datetime_fields(2001, 2, 3, 4, 5, 6);
                            }
                        }
                        3 => {
                            ctl.log(|| "supply the CRC of the first entry".into());
                            if let Some(e) = es.first() {
                                let n = e.name.clone();
                                b.get_entries_mut().get_mut(&n).unwrap().crc32(e.crc);
                            }
                        }
                        4 => {
                            ctl.log(|| "continue with a clone".into());
                            b = b.clone();
                        }
                        5 => {
                            ctl.log(|| "remove the first entry".into());
                            if !es.is_empty() {
                                b.get_entries_mut().shift_remove_index(0);
                                es.remove(0);
                            }
                        }
                        6 => {
                            ctl.log(|| "clear".into());
                            b.get_entries_mut().clear();
                            es.clear();
                        }
                        7 => {
                            ctl.log(|| "reverse the entries".into());
                            b.get_entries_mut().reverse();
                            es.reverse();
                        }
                        8 | 9 => {
                            // Larger copies could make the archive too long, which nobody would notice
                            if es.first().is_some_and(|e| e.content.len() < 10_000) {
                                let copy = b.get_entries()[0].clone();
                                let mut e = es[0].clone();
                                e.name = if op - adds == 8 {
                                    format!("copy {step}")
                                } else {
                                    es[last].name.clone()
                                };
                                ctl.log(|| format!("a copy of the first as {}", short(&e.name)));
                                b.get_entries_mut().insert(e.name.clone(), copy);
                                match es.iter_mut().find(|x| x.name == e.name) {
                                    Some(x) => *x = e,
                                    None => es.push(e),
                                }
                            }
                        }
                        _ => {
                            ctl.log(|| "build a clone and read a part of it".into());
                            let mut r = b.clone().build();
                            let _ = poll_read(Pin::new(&mut r), Waker::noop(), 10)?;
                        }
                    }
                }
            }
            let small = es.iter().all(|e| e.content.len() < 10_000);
            let announced = b.size();
            let c = b.clone();
            ensure!(
                c.size() == announced,
                "size",
                "a cloned builder announces {} instead of {announced}",
                c.size()
            );
            let built = total_bytes(&b, small)?;
            ensure!(
                announced == built,
                "size",
                "the builder announces {announced}, but the archive built from it has {built} bytes"
            );
            check_sparse(b.build(), &es, BIG)?;
            Ok(())
        });
    }
    // Sources that do not keep their promise
    let mut cfgs = Vec::new();
    for (d, a) in [
        (3u64, 1u64),
        (3, 9),
        (3, 0),
        (0, 5),
        (8193, 8192),
        (8192, 9000),
    ] {
        for crc in [Crc::Unknown, Crc::Given(7)] {
            cfgs.push(vec![
                ES::pat("p", 1, 4, Crc::Unknown),
                ES {
                    declared: Some(d),
                    ..ES::pat("q", 2, a, crc)
                },
                ES::pat("r", 1, 2, Crc::True),
            ]);
        }
    }
    ctx.nontrivial
        .fetch_add(cfgs.len() as u64, Ordering::Relaxed);
    let steps = 3;
    ctx.tree(
        "sources breaking their promise never lengthen the archive",
        |ctl| {
            let es = ctl.pick(&cfgs);
            let env = Env::new(ctl, es.len(), ERRORS | READ_SHORT | PENDINGS);
            ctl.set_budget(ctx.q(1, 2));
            let b = arch::builder(&env, es)?;
            let size = b.size();
            let mut r = b.build();
            ctl.log(|| format!("archive: {}", arch::describe(es)));
            // Offsets of interest follow from the sizes
            let mut offs = vec![0u64, size - 1, size, size + 5, size - 98];
            let mut o = 0;
            for e in es {
                let data = o + 30 + 20 + e.name.len() as u64;
                offs.extend([data, data + 2, data + e.size(), data + e.size() + 24]);
                o = data + e.size() + 24;
            }
            let mut pos = 0u64;
            let read = |r: &mut Reader<Ed>, pos: &mut u64, n: usize| -> R<bool> {
                match poll_read(Pin::new(&mut *r), Waker::noop(), n)? {
                    Out::Data(d) => {
                        ctl.log(|| format!("read({n}) at {pos} -> {}", d.len()));
                        ensure!(
                            d.is_empty() || *pos + d.len() as u64 <= size,
                            "overrun",
                            "{} bytes delivered at {pos} of an archive of {size}",
                            d.len()
                        );
                        *pos += d.len() as u64;
                        ensure!(
                            r.size() == size,
                            "size",
                            "reading changed the size from {size} to {}",
                            r.size()
                        );
                        Ok(!d.is_empty())
                    }
                    _ => {
                        ensure!(
                            r.size() == size,
                            "size",
                            "a failing read changed the size from {size} to {}",
                            r.size()
                        );
                        Ok(false)
                    }
                }
            };
            for _ in 0..steps {
                let k = ctl.choose(offs.len() + 3);
                if k < offs.len() {
                    ctl.log(|| format!("seek to {}", offs[k]));
                    r.seek_from_start_mut(offs[k]);
                    pos = offs[k];
                } else {
                    read(&mut r, &mut pos, [1usize, 70, BIG][k - offs.len()])?;
                }
                ensure!(
                    r.size() == size && r.clone().size() == size,
                    "size",
                    "size changed from {size} to {}",
                    r.size()
                );
            }
            let mut fails = 0;
            while fails < 3 {
                if !read(&mut r, &mut pos, 8192)? {
                    fails += 1;
                }
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------- C07

struct Bad {
    es: Vec<ES>,
    /// What the archive would be if every source kept its promise
    honest: Arc<Golden>,
    first_bad: Option<usize>,
}

fn bad_entry(e: &ES) -> bool {
    let d = e.size();
    if d == 0 {
        return e.given().is_some_and(|c| c != 0);
    }
    d != e.content.len() || e.given().is_some_and(|c| c != e.content.crc())
}

fn prepare(es: Vec<ES>) -> Bad {
    let honest: Vec<ES> = es
        .iter()
        .map(|e| {
            let seed = match &e.content {
                Content::Pattern { seed, .. } => *seed,
                Content::Bytes(b) => {
                    let mut b = b.to_vec();
                    b.resize(e.size() as usize, 0);
                    return ES::new(&e.name, &b, Crc::Unknown);
                }
                _ => 0,
            };
            ES::pat(&e.name, seed, e.size(), Crc::Unknown)
        })
        .collect();
    Bad {
        first_bad: es.iter().position(bad_entry),
        honest: golden(&honest),
        es,
    }
}

/// The error has to say what is wrong with the entry.
fn judge(err: std::io::Error, e: &ES) -> R {
    let text = err.to_string();
    let Some(re) = err
        .into_inner()
        .and_then(|x| x.downcast::<ReadError>().ok())
    else {
        return fail("error-kind", format!("a mismatch was reported as {text:?}"));
    };
    let (d, a) = (e.size(), e.content.len());
    let actual = if d == 0 { 0 } else { e.content.crc() };
    match *re {
        ReadError::SizeMismatch {
            entry_name,
            expected_size,
            actual_size,
        } => {
            ensure!(
                entry_name == e.name,
                "error-name",
                "the error names {entry_name:?} instead of {:?}",
                e.name
            );
            ensure!(
                d != a && d != 0,
                "error-kind",
                "size mismatch reported for an entry of the right size"
            );
            ensure!(
                expected_size == d,
                "error-values",
                "expected size {expected_size} instead of {d}"
            );
            if a < d {
                ensure!(
                    actual_size == a,
                    "error-values",
                    "actual size {actual_size} instead of {a}"
                );
            } else {
                ensure!(
                    actual_size > d,
                    "error-values",
                    "actual size {actual_size} of a source longer than {d}"
                );
            }
        }
        ReadError::Crc32Mismatch {
            entry_name,
            expected_crc,
            actual_crc,
        } => {
            ensure!(
                entry_name == e.name,
                "error-name",
                "the error names {entry_name:?} instead of {:?}",
                e.name
            );
            let given = e.given();
            ensure!(
                given.is_some(),
                "error-kind",
                "CRC mismatch reported, but no CRC was supplied"
            );
            ensure!(
                Some(expected_crc) == given,
                "error-values",
                "expected CRC {expected_crc:08x} instead of {given:08x?}"
            );
            if a <= d || d == 0 {
                ensure!(
                    given != Some(actual),
                    "error-kind",
                    "CRC mismatch reported for the right CRC"
                );
                ensure!(
                    actual_crc == actual,
                    "error-values",
                    "actual CRC {actual_crc:08x} instead of {actual:08x}"
                );
            }
        }
        x => return fail("error-kind", format!("a mismatch was reported as {x}")),
    }
    Ok(())
}

/// One attempt to read everything from the current position 0.
fn full_read(ctl: &Ctl, r: &mut Reader<Ed>, b: &Bad, n: usize, after: usize) -> R {
    let g = &b.honest;
    let mut got = 0u64;
    let mut stalls = 0;
    let err = loop {
        match poll_read(Pin::new(&mut *r), Waker::noop(), n)? {
            Out::Pending => {
                stalls += 1;
                ensure!(stalls < 1000, "stall", "no progress");
            }
            Out::Err(e) => break Some(e),
            Out::Data(d) if d.is_empty() => break None,
            Out::Data(d) => {
                ctl.log(|| format!("  read({n}) at {got} -> {} bytes", d.len()));
                if let Some(i) = b.first_bad {
                    let end = g.lay[i].data_end;
                    ensure!(
                        got + d.len() as u64 <= end,
                        "excess",
                        "bytes up to {} were delivered, the data of the wrong entry {i} ends at {end}",
                        got + d.len() as u64
                    );
                }
                let s = got as usize;
                // Right up to where the first wrong entry's source differs
                let limit = match b.first_bad {
                    Some(i) => g.lay[i].data_start + b.es[i].content.len().min(b.es[i].size()),
                    None => g.size(),
                };
                let upto = ((got + d.len() as u64).min(limit)).max(got) as usize;
                ensure!(
                    upto <= g.bytes.len() && d[..upto - s] == g.bytes[s..upto],
                    "content",
                    "wrong bytes delivered at {got}"
                );
                got += d.len() as u64;
            }
        }
    };
    match (err, b.first_bad) {
        (None, None) => ensure!(
            got == g.size(),
            "early-eof",
            "{got} bytes instead of {}",
            g.size()
        ),
        (None, Some(i)) => {
            return fail(
                "undetected",
                format!("the archive was read to its end, but entry {i} is wrong"),
            );
        }
        (Some(e), None) => {
            return fail(
                "false-error",
                format!("reading a correct archive failed: {e}"),
            );
        }
        (Some(e), Some(i)) => {
            ctl.log(|| format!("  error at {got}: {e}"));
            judge(e, &b.es[i])?;
            for k in 0..after {
                let m = [n, 1, BIG][k % 3];
                match poll_read(Pin::new(&mut *r), Waker::noop(), m)? {
                    Out::Err(_) | Out::Pending => {}
                    Out::Data(d) => {
                        return fail(
                            "completes",
                            format!(
                                "after the error was reported, reading on delivered {} bytes",
                                d.len()
                            ),
                        );
                    }
                }
            }
        }
    }
    Ok(())
}

/// Read sizes do not matter for archives with wrong entries either: the same bytes up to the
/// error, the position counts what was delivered, and the caller's bytes are left alone.
pub fn wrong_reads(ctx: &Ctx) {
    let mut cases = Vec::new();
    for d in 0..=4u64 {
        for a in 0..=5 {
            for crc in [Crc::Unknown, Crc::True, Crc::Given(1)] {
                let e = ES {
                    declared: Some(d),
                    ..ES::pat("bad", 3, a, crc)
                };
                let b = prepare(vec![ES::pat("x", 2, 2, Crc::Unknown), e]);
                if b.first_bad.is_some() {
                    cases.push(b);
                }
            }
        }
    }
    ctx.nontrivial
        .fetch_add(cases.len() as u64, Ordering::Relaxed);
    let sizes = [0usize, 1, 2, 3, 4, 5, 7, 30, 31, 59, 60, 61, 120, BIG];
    ctx.tree("wrong entries: read sizes", |ctl| {
        let b = ctl.pick(&cases);
        let (x, y) = (*ctl.pick(&sizes), *ctl.pick(&sizes));
        if x + y == 0 {
            return Ok(());
        }
        ctl.log(|| format!("archive: {}", arch::describe(&b.es)));
        let i = b.first_bad.unwrap();
        let g = &b.honest;
        let env = Env::new(ctl, b.es.len(), 0);
        let mut r = arch::builder(&env, &b.es)?.build();
        let mut got = 0u64;
        let mut errors = 0;
        let mut k = 0;
        while errors < 3 {
            let n = if k % 2 == 0 { x } else { y };
            k += 1;
            ensure!(k < 1000, "stall", "no progress at {got}");
            match poll_read(Pin::new(&mut r), Waker::noop(), n)? {
                Out::Pending => return fail("pending", format!("pending at {got}")),
                Out::Err(e) => {
                    ctl.log(|| format!("  read({n}) at {got} -> {e}"));
                    errors += 1;
                }
                Out::Data(d) => {
                    ctl.log(|| format!("  read({n}) at {got} -> {} bytes", d.len()));
                    ensure!(
                        !d.is_empty() || n == 0,
                        "early-eof",
                        "end of file at {got}, but entry {i} is wrong"
                    );
                    ensure!(d.len() <= n, "overfull", "{} bytes read into {n}", d.len());
                    ensure!(
                        errors == 0 || d.is_empty(),
                        "completes",
                        "bytes after an error"
                    );
                    let s = got as usize;
                    got += d.len() as u64;
                    ensure!(
                        got <= g.lay[i].data_end,
                        "excess",
                        "bytes up to {got} were delivered, the data of entry {i} ends at {}",
                        g.lay[i].data_end
                    );
                    let same = g.lay[i].data_start + b.es[i].content.len().min(b.es[i].size());
                    let upto = got.min(same).max(s as u64) as usize;
                    ensure!(
                        d[..upto - s] == g.bytes[s..upto],
                        "content",
                        "wrong bytes delivered at {s}"
                    );
                }
            }
            ensure!(
                r.tell() == got,
                "tell",
                "the position is {}, {got} bytes were delivered",
                r.tell()
            );
        }
        Ok(())
    });
}

pub fn c07(ctx: &Ctx) {
    let max = ctx.q(6u64, 7);
    // kind of supplied CRC
    let kinds = 6usize;
    let given = |kind: usize, seed: u8, d: u64, a: u64| -> Crc {
        match kind {
            0 => Crc::Unknown,
            1 => Crc::True,
            2 => Crc::Given(
                Content::Pattern {
                    seed,
                    len: d.min(a),
                }
                .crc(),
            ),
            3 => Crc::Given(Content::Pattern { seed, len: a }.crc() ^ 1),
            4 => Crc::Given(0),
            _ => Crc::Given(Content::Pattern { seed, len: d }.crc() ^ 0x8000_0000),
        }
    };
    let mut cases = Vec::new();
    let mut add = |es: Vec<ES>| cases.push(prepare(es));
    for d in 0..=max {
        for a in 0..=max {
            for k in 0..kinds {
                let e = |seed| ES {
                    declared: Some(d),
                    ..ES::pat("bad", seed, a, given(k, seed, d, a))
                };
                add(vec![e(1)]);
                add(vec![e(1), ES::pat("x", 2, 2, Crc::Unknown)]);
                add(vec![ES::pat("x", 2, 2, Crc::Unknown), e(3)]);
                add(vec![
                    ES::pat("x", 2, 3, Crc::True),
                    e(3),
                    ES::pat("", 4, 0, Crc::Unknown),
                ]);
            }
        }
    }
    // A content with CRC-32 zero
    for k in [Crc::Unknown, Crc::True, Crc::Given(0), Crc::Given(1)] {
        for d in 3..=5 {
            let e = ES {
                declared: Some(d),
                ..ES::new("zero", &crate::checks_reader::CRC_ZERO, k)
            };
            add(vec![e.clone()]);
            add(vec![ES::pat("x", 2, 2, Crc::Unknown), e]);
        }
    }
    // Two bad ones: the first is to be named
    for (d, a) in [(2u64, 1u64), (2, 3), (2, 2), (1, 0)] {
        for k in 0..kinds {
            add(vec![
                ES {
                    declared: Some(d),
                    ..ES::pat("p", 1, a, given(k, 1, d, a))
                },
                ES {
                    declared: Some(3),
                    ..ES::pat("q", 2, 2, given(k, 2, 3, 2))
                },
                ES {
                    declared: Some(3),
                    ..ES::pat("r", 3, 4, given(k, 3, 3, 4))
                },
            ]);
        }
    }
    ctx.nontrivial
        .fetch_add(cases.len() as u64, Ordering::Relaxed);
    let small_n = cases.len();
    let wrong = cases.iter().filter(|c| c.first_bad.is_some()).count();
    ctx.note("archives with a wrong entry", wrong as u64);
    ctx.note("archives without a wrong entry", (small_n - wrong) as u64);
    ctx.sample(|| format!("{small_n} archives: declared 0..={max} x actual 0..={max} x {kinds} kinds of supplied CRC x 4 positions"));
    let sizes = [1usize, 2, 3, 5, 7, 30, 60, BIG];
    ctx.tree("declared and actual sizes and CRCs", |ctl| {
        let b = ctl.pick(&cases);
        let n = *ctl.pick(&sizes);
        ctl.log(|| format!("archive: {}", arch::describe(&b.es)));
        let env = Env::new(ctl, b.es.len(), READ_SHORT | READ_PENDING | OPEN_PENDING);
        ctl.set_budget(ctx.q(2, 3));
        let mut r = arch::builder(&env, &b.es)?.build();
        full_read(ctl, &mut r, b, n, 6)
    });
    // Also when it is not the first thing done with this reader
    ctx.tree("after a history", |ctl| {
        let b = ctl.pick(&cases);
        ctl.log(|| format!("archive: {}", arch::describe(&b.es)));
        let env = Env::new(ctl, b.es.len(), 0);
        let mut r = arch::builder(&env, &b.es)?.build();
        let g = &b.honest;
        let starts = [
            0,
            g.lay[0].data_start + 1,
            g.lay.last().unwrap().data_start,
            g.cd_off,
            g.cd_off + 47,
            g.eocd_off,
        ];
        for _ in 0..2 {
            let p = *ctl.pick(&starts);
            let n = *ctl.pick(&[1usize, 61, BIG]);
            ctl.log(|| format!("seek to {p}, two reads of {n}"));
            r.seek_from_start_mut(p);
            let _ = poll_read(Pin::new(&mut r), Waker::noop(), n)?;
            let _ = poll_read(Pin::new(&mut r), Waker::noop(), n)?;
            if ctl.flag() {
                r = r.clone();
            }
        }
        r.seek_from_start_mut(0);
        let n = *ctl.pick(&[2usize, 60, BIG]);
        full_read(ctl, &mut r, b, n, 3)?;
        // And once more
        r.seek_from_start_mut(0);
        full_read(ctl, &mut r, b, n, 3)
    });
    // Around the internal buffer size
    let mut bigs = Vec::new();
    for d in [8190u64, 8191, 8192, 8193, 16383, 16384, 16385, 30_000] {
        for delta in [-8192i64, -8191, -1, 0, 1, 2, 8191, 8192, 8193] {
            let Some(a) = d.checked_add_signed(delta) else {
                continue;
            };
            for k in [0, 1, 2, 3] {
                let e = ES {
                    declared: Some(d),
                    ..ES::pat("big", 1, a, given(k, 1, d, a))
                };
                bigs.push(prepare(vec![e.clone(), ES::pat("x", 2, 2, Crc::Unknown)]));
                bigs.push(prepare(vec![ES::pat("x", 2, 2, Crc::Unknown), e]));
            }
        }
    }
    ctx.nontrivial
        .fetch_add(bigs.len() as u64, Ordering::Relaxed);
    ctx.tree("around the buffer size", |ctl| {
        let b = ctl.pick(&bigs);
        let n = *ctl.pick(&[100usize, 4096, 8191, 8192, 8193, 8192 + 40, 16384, BIG]);
        if ctx.quick() && n == 100 && b.es[0].size() > 9000 {
            return Ok(());
        }
        ctl.log(|| format!("archive: {}", arch::describe(&b.es)));
        let env = Env::new(ctl, b.es.len(), READ_SHORT);
        ctl.set_budget(if n < 4000 { 0 } else { ctx.q(1, 2) });
        let mut r = arch::builder(&env, &b.es)?.build();
        full_read(ctl, &mut r, b, n, 4)
    });
}

// ---------------------------------------------------------------------------------------- C11

/// All names of up to `n` pieces, which are what an implementation might find special.
fn odd_names(n: usize) -> Vec<String> {
    const PIECES: [&str; 20] = [
        "a",
        "A",
        "/",
        "\\",
        ".",
        "\0",
        "\n",
        " ",
        "é",
        "e\u{301}",
        "\u{feff}",
        "%2f",
        "\u{202e}",
        "~",
        "?",
        ":",
        "\u{fffd}",
        "\u{10ffff}",
        "\u{7f}",
        "ẞ",
    ];
    let mut all = std::collections::BTreeSet::from([String::new()]);
    for _ in 0..n {
        for x in all.clone() {
            for p in PIECES {
                all.insert(format!("{x}{p}"));
            }
        }
    }
    all.into_iter().collect()
}

/// Adds entries with these names, all of which must be accepted, once.
fn add_all(names: &[String]) -> R {
    let env = Env::new(&Ctl::new(vec![], false), 4, 0);
    let mut b = Builder::<Ed>::new();
    let c = Content::new(b"");
    for round in 0..2 {
        let before = b.size();
        for (i, n) in names.iter().enumerate() {
            crate::ctl::op();
            let twice = round == 1 || names[..i].last() == Some(n);
            match b.add_entry(n.clone(), ed(&env, 0, c.clone())) {
                Ok(_) => ensure!(!twice, "accepted", "{n:?} was accepted twice"),
                Err(AddEntryError::DuplicateEntryName { entry_name }) => {
                    ensure!(twice, "refused", "{n:?} was refused as a duplicate");
                    ensure!(
                        entry_name == *n,
                        "error-name",
                        "the error for {n:?} carries {entry_name:?}"
                    );
                }
                Err(e) => return fail("refused", format!("{n:?} was refused: {e:?}")),
            }
        }
        ensure!(
            round == 0 || b.size() == before,
            "size",
            "refused adds had an effect"
        );
    }
    let mut want: Vec<Want> = names
        .iter()
        .map(|name| Want {
            name,
            content: &c,
            crc: 0,
            check_content: true,
        })
        .collect();
    want.dedup_by_key(|w| w.name);
    checked(b, &want, BIG).map(|_| ())
}

/// Names with every character there is, and names made of special ones.
fn names_of_every_kind(ctx: &Ctx) {
    const BLOCK: u32 = 4096;
    ctx.tree("every character in names", |ctl| {
        let from = ctl.choose((0x11_0000 / BLOCK) as usize) as u32 * BLOCK;
        let shape = ctl.choose(3);
        let names: Vec<String> = (from..from + BLOCK)
            .filter_map(char::from_u32)
            .map(|c| match shape {
                0 => format!("{c}"),
                1 => format!("{c}x"),
                _ => format!("dir/{c}{c}/"),
            })
            .collect();
        add_all(&names)
    });
    let names = odd_names(ctx.q(3, 4));
    ctx.tree("names of special characters", |ctl| {
        let mut names = names.clone();
        if ctl.choose(2) == 1 {
            names.reverse();
        }
        add_all(&names)
    });
    let few = odd_names(2);
    ctx.tree("pairs of names", |ctl| {
        add_all(&[ctl.pick(&few).clone(), ctl.pick(&few).clone()])
    });
}

/// Archive bytes an entry costs besides its data, measured on a scratch builder.
fn overhead(env: &EnvRef, name: &str) -> u64 {
    let mut b = Builder::<Ed>::new();
    let before = b.size();
    let _ = b.add_entry(name.to_string(), ed(env, 0, Content::new(b"")));
    b.size() - before
}

pub fn c11(ctx: &Ctx) {
    let names = [
        "a".to_string(),
        "b".into(),
        "".into(),
        "L".repeat(65535),
        "L".repeat(65536),
        format!("{}x", "é".repeat(32767)),
        "é".repeat(32768),
    ];
    #[derive(Clone, Copy, Debug)]
    enum S {
        Zero,
        One,
        Half,
        Rest,
        RestPlus,
        Rest2,
        Max,
    }
    let sizes = [
        S::One,
        S::Zero,
        S::Half,
        S::Rest,
        S::RestPlus,
        S::Rest2,
        S::Max,
    ];
    let depth = ctx.q(3, 4);
    let costs: Vec<Option<u64>> = {
        let ctl = Ctl::new(vec![], false);
        let env = Env::new(&ctl, 1, 0);
        names
            .iter()
            .map(|n| (n.len() <= 65535).then(|| overhead(&env, n)))
            .collect()
    };
    let empty_size = Builder::<Ed>::new().size();
    ctx.sample(|| {
        format!(
            "add sequences of up to {depth} over names {:?} and sizes {sizes:?}",
            names.iter().map(|n| short(n)).collect::<Vec<_>>()
        )
    });
    // Costs are what the format needs, whatever the name
    ctx.tree("cost of names", |ctl| {
        let i = ctl.choose(names.len());
        if let Some(c) = costs[i] {
            let base = costs[2].unwrap();
            ensure!(
                c == base + 2 * names[i].len() as u64,
                "cost",
                "name of {} bytes costs {c}, an empty one {base}",
                names[i].len()
            );
        }
        Ok(())
    });
    ctx.tree("add sequences", |ctl| {
        let env = Env::new(ctl, 16, 0);
        let mut b = Builder::<Ed>::new();
        let mut es: Vec<Ent> = Vec::new();
        let mut total = empty_size;
        let len = ctl.choose(depth) + 1;
        for step in 0..len {
            crate::ctl::op();
            let ni = ctl.choose(names.len() + 1);
            if ni == names.len() {
                // Free some space
                ctl.log(|| "remove the first entry".into());
                if !es.is_empty() {
                    b.get_entries_mut().shift_remove_index(0);
                    let e = es.remove(0);
                    let i = names.iter().position(|n| *n == e.name).unwrap();
                    total -= costs[i].unwrap() + e.content.len();
                }
                continue;
            }
            let name = &names[ni];
            // An archive of `total` can still take this much
            let cost = costs[ni].unwrap_or(0);
            let rest = (u64::MAX - total).checked_sub(cost);
            let s = *ctl.pick(&sizes);
            let size = match s {
                S::Zero => 0,
                S::One => 1,
                S::Half => u64::MAX / 2,
                S::Rest => rest.unwrap_or(0),
                S::RestPlus => rest.map_or(1, |r| r.saturating_add(1)),
                S::Rest2 => rest.map_or(2, |r| r.saturating_sub(400)),
                S::Max => u64::MAX,
            };
            ctl.log(|| format!("add {} of {size} bytes ({s:?})", short(name)));
            let too_long_name = name.len() > 65535;
            let dup = es.iter().any(|e| e.name == *name);
            let fits = total.checked_add(cost).and_then(|t| t.checked_add(size)).is_some();
            let content = Content::Pattern { seed: step as u8, len: size };
            let last = step + 1 == len;
            match b.add_entry(name.clone(), ed(&env, step, content.clone())) {
                Ok(x) => {
                    ensure!(!too_long_name, "accepted", "a name of {} bytes was accepted", name.len());
                    ensure!(!dup, "accepted", "a duplicate name was accepted");
                    ensure!(fits, "accepted", "an archive longer than 2^64-1 bytes was accepted");
                    let perm = 0o600 + step as u32;
                    x.crc32(step as u32 + 77).unix_permissions(perm);
                    if size == 0 {
                        x.crc32(0);
                    }
                    total += cost + size;
                    es.push(Ent {
                        name: name.clone(),
                        content,
                        crc: if size == 0 { 0 } else { step as u32 + 77 },
                        external: Some((0o100_000 | perm) << 16),
                    });
                }
                Err(e) => {
                    let (ok, what) = match &e {
                        AddEntryError::TooLongEntryName { entry_name } => {
                            ensure!(entry_name == name, "error-name", "the error carries another name");
                            (too_long_name, "too long name")
                        }
                        AddEntryError::TooLongZipFile { entry_name } => {
                            ensure!(entry_name == name, "error-name", "the error carries another name");
                            (!fits || too_long_name && total.checked_add(2 * name.len() as u64 + size + 200).is_none(), "too long archive")
                        }
                        AddEntryError::DuplicateEntryName { entry_name } => {
                            ensure!(entry_name == name, "error-name", "the error carries another name");
                            (dup, "duplicate")
                        }
                        e => return fail("error-kind", format!("{e:?}")),
                    };
                    ensure!(ok, "refused", "adding {} of {size} bytes to an archive of {total} bytes was refused as: {what}", short(name));
                }
            }
            ensure!(b.size() == total, "size", "size is {} instead of {total}", b.size());
            let order: Vec<&String> = b.get_entries().keys().collect();
            ensure!(
                order.len() == es.len() && order.iter().zip(&es).all(|(a, e)| **a == e.name),
                "order",
                "entries are {:?}",
                order.iter().map(|n| short(n)).collect::<Vec<_>>()
            );
            if last {
                let c = check_sparse(b.clone().build(), &es, BIG)?;
                for (l, e) in c.lay.iter().zip(&es) {
                    ensure!(
                        l.external >> 16 == e.external.unwrap() >> 16,
                        "metadata",
                        "an add changed the metadata of entry {}: {:o}",
                        short(&e.name),
                        l.external >> 16
                    );
                }
            }
        }
        Ok(())
    });
    names_of_every_kind(ctx);
    // Name lengths around the limit, in bytes
    ctx.tree("name lengths", |ctl| {
        let unit = *ctl.pick(&["x", "é", "€", "😀"]);
        let len = 65535 - 12 + ctl.choose(24);
        let count = len / unit.len();
        let name = format!(
            "{}{}",
            unit.repeat(count),
            "y".repeat(len - count * unit.len())
        );
        let env = Env::new(ctl, 1, 0);
        let mut b = Builder::<Ed>::new();
        let before = b.size();
        let r = b.add_entry(name.clone(), ed(&env, 0, Content::new(b"12")));
        match r {
            Ok(_) => {
                ensure!(
                    name.len() <= 65535,
                    "accepted",
                    "a name of {} bytes was accepted",
                    name.len()
                );
                let c = Content::new(b"12");
                checked(
                    b,
                    &[Want {
                        name: &name,
                        content: &c,
                        crc: c.crc(),
                        check_content: true,
                    }],
                    BIG,
                )?;
            }
            Err(AddEntryError::TooLongEntryName { entry_name }) => {
                ensure!(
                    name.len() > 65535,
                    "refused",
                    "a name of {} bytes was refused",
                    name.len()
                );
                ensure!(
                    entry_name == name,
                    "error-name",
                    "the error carries another name"
                );
                ensure!(
                    b.size() == before && b.get_entries().is_empty(),
                    "size",
                    "a refused add had an effect"
                );
            }
            Err(e) => return fail("error-kind", format!("{e:?}")),
        }
        Ok(())
    });
    // Exactly how many entries fit is decided by the total length only
    ctx.tree("filling up to the limit", |ctl| {
        let env = Env::new(ctl, 64, 0);
        let mut b = Builder::<Ed>::new();
        let mut es = Vec::new();
        let parts = 1 + ctl.choose(ctx.q(12, 40));
        let base = costs[2].unwrap();
        let slack = *ctl.pick(&[0u64, 1, 2]);
        let over = ctl.flag();
        let mut total = empty_size;
        for i in 0..parts {
            let name = format!("e{i}");
            let cost = base + 2 * name.len() as u64;
            let left = u64::MAX - total - cost;
            let size = if i + 1 == parts {
                if over { left + 1 } else { left - slack }
            } else {
                left / (parts - i) as u64 - 3
            };
            let content = Content::Pattern {
                seed: i as u8,
                len: size,
            };
            let r = b.add_entry(name.clone(), ed(&env, i, content.clone()));
            let fits = total
                .checked_add(cost)
                .and_then(|x| x.checked_add(size))
                .is_some();
            match r {
                Ok(x) => {
                    ensure!(
                        fits,
                        "accepted",
                        "{size} bytes more were accepted at {total}"
                    );
                    x.crc32(1);
                    es.push(Ent {
                        name,
                        content,
                        crc: 1,
                        external: None,
                    });
                    total += cost + size;
                }
                Err(AddEntryError::TooLongZipFile { entry_name }) => {
                    ensure!(
                        !fits,
                        "refused",
                        "{size} bytes more were refused at {total}"
                    );
                    ensure!(
                        entry_name == name,
                        "error-name",
                        "the error carries another name"
                    );
                }
                Err(e) => return fail("error-kind", format!("{e:?}")),
            }
            ensure!(
                b.size() == total,
                "size",
                "size is {} instead of {total}",
                b.size()
            );
        }
        check_sparse(b.build(), &es, BIG).map(|_| ())
    });
}

// ---------------------------------------------------------------------------------------- C12

#[derive(Clone, Copy, Debug, PartialEq)]
enum T {
    File,
    Dir,
    Link,
}

#[derive(Clone, Copy, Debug)]
enum Perm {
    Rw,
    Ro,
    Bits(u32),
}

fn mode(t: T, p: Perm) -> u32 {
    let x = if t == T::Dir { 0o111 } else { 0 };
    match t {
        T::Link => 0o120_777,
        _ => {
            let ty = if t == T::Dir { 0o040_000 } else { 0o100_000 };
            ty | match p {
                Perm::Rw => 0o644 | x,
                Perm::Ro => 0o444 | x,
                Perm::Bits(b) => b & 0o777,
            }
        }
    }
}

/// A scratch directory that is removed again.
pub struct Tmp(pub std::path::PathBuf);

static SCRATCH: std::sync::Mutex<Vec<std::path::PathBuf>> = std::sync::Mutex::new(Vec::new());

fn scratch_list() -> std::sync::MutexGuard<'static, Vec<std::path::PathBuf>> {
    SCRATCH.lock().unwrap_or_else(|e| e.into_inner())
}

/// Called before the process ends early.
pub fn remove_scratch() {
    let all: Vec<_> = scratch_list().drain(..).collect();
    for p in all {
        remove_tree(&p);
    }
}

fn remove_tree(p: &std::path::Path) {
    // Make everything removable first
    fn open(p: &std::path::Path) {
        use std::os::unix::fs::PermissionsExt;
        if let Ok(m) = std::fs::symlink_metadata(p) {
            if m.is_dir() {
                let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o700));
                for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
                    open(&e.path());
                }
            }
        }
    }
    open(p);
    let _ = std::fs::remove_dir_all(p);
}

impl Tmp {
    pub fn new(tag: &str) -> Tmp {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let name = format!(
            "zv-{tag}-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        );
        let mut p = std::path::Path::new("/dev/shm").join(&name);
        let _ = std::fs::remove_dir_all(&p);
        if std::fs::create_dir(&p).is_err() {
            p = std::env::temp_dir().join(&name);
            let _ = std::fs::remove_dir_all(&p);
            std::fs::create_dir_all(&p).expect("scratch directory");
        }
        scratch_list().push(p.clone());
        Tmp(p)
    }
}

impl Drop for Tmp {
    fn drop(&mut self) {
        scratch_list().retain(|p| *p != self.0);
        remove_tree(&self.0);
    }
}

/// (description, metadata, type, permission bits, seconds since the epoch)
fn metas(dir: &std::path::Path) -> Vec<(String, std::fs::Metadata, T, u32, i64)> {
    use std::os::unix::fs::PermissionsExt;
    let mut v = Vec::new();
    let mut add = |name: &str, t: T, mode: u32, time: i64| {
        let p = dir.join(name);
        match t {
            T::File => std::fs::write(&p, b"x").unwrap(),
            T::Dir => std::fs::create_dir(&p).unwrap(),
            T::Link => std::os::unix::fs::symlink("nowhere", &p).unwrap(),
        }
        if t != T::Link {
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)).unwrap();
            let f = std::fs::File::open(&p).unwrap();
            let ft = if time >= 0 {
                UNIX_EPOCH + Duration::from_secs(time as u64)
            } else {
                UNIX_EPOCH - Duration::from_secs(-time as u64)
            };
            f.set_modified(ft).unwrap();
        }
        let m = std::fs::symlink_metadata(&p).unwrap();
        let got = match m.modified().unwrap().duration_since(UNIX_EPOCH) {
            Ok(d) => d.as_secs() as i64,
            Err(e) => -(e.duration().as_secs() as i64),
        };
        let perms = m.permissions().mode() & 0o777;
        v.push((format!("{t:?} {mode:o} at {got}"), m, t, perms, got));
    };
    add("f", T::File, 0o640, 981_173_106);
    add("d", T::Dir, 0o751, 1_000_000_000);
    add("l", T::Link, 0, 0);
    add("suid", T::File, 0o4755, 0);
    add("sticky", T::Dir, 0o1777, 4_354_819_200);
    add("none", T::File, 0o000, 315_532_799);
    add("all", T::File, 0o2777, 315_532_800);
    v
}

pub fn c12(ctx: &Ctx) {
    use std::os::unix::fs::PermissionsExt;
    let tmp = Tmp::new("c12");
    let ms = metas(&tmp.0);
    let bits = [
        0o755u32,
        0,
        0o400,
        0o777,
        0o7777,
        0o100_644,
        u32::MAX,
        1 << 16,
        0o040_002,
    ];
    let perms = [0o604u32, 0o100_751, 0o7007];
    let n_ops = 3 + bits.len() + perms.len() + 2 + ms.len() + 3;
    ctx.sample(|| format!("{n_ops} setters: types, unix_permissions {bits:?}, permissions {perms:?}, readonly, metadata of {:?}, crc32, datetime", ms.iter().map(|m| m.0.clone()).collect::<Vec<_>>()));
    let apply =
        |ctl: &Ctl, op: usize, x: &mut BuilderEntry<Ed>, t: &mut T, p: &mut Perm, crc: u32| {
            crate::ctl::op();
            let mut k = op;
            match k {
                0 => {
                    ctl.log(|| "  file()".into());
                    x.file();
                    *t = T::File;
                    return;
                }
                1 => {
                    ctl.log(|| "  directory()".into());
                    x.directory();
                    *t = T::Dir;
                    return;
                }
                2 => {
                    ctl.log(|| "  symlink()".into());
                    x.symlink();
                    *t = T::Link;
                    return;
                }
                _ => k -= 3,
            }
            if k < 2 {
                ctl.log(|| format!("  readonly({})", k == 1));
                x.readonly(k == 1);
                *p = if k == 1 { Perm::Ro } else { Perm::Rw };
                return;
            }
            k -= 2;
            if k < bits.len() {
                ctl.log(|| format!("  unix_permissions({:#o})", bits[k]));
                x.unix_permissions(bits[k]);
                *p = Perm::Bits(bits[k]);
                return;
            }
            k -= bits.len();
            if k < ms.len() {
                ctl.log(|| format!("  metadata({})", ms[k].0));
                x.metadata(&ms[k].1);
                *t = ms[k].2;
                *p = Perm::Bits(ms[k].3);
                return;
            }
            k -= ms.len();
            if k < perms.len() {
                ctl.log(|| format!("  permissions({:#o})", perms[k]));
                x.permissions(&std::fs::Permissions::from_mode(perms[k]));
                *p = Perm::Bits(perms[k]);
                return;
            }
            k -= perms.len();
            ctl.log(|| format!("  other setter {k}"));
            match k {
                0 => {
                    x.crc32(crc);
                }
                1 => {
                    x.datetime_fields(2000, 1, 1, 1, 1, 1);
                }
                _ => {
                    x.datetime_system_or_default(UNIX_EPOCH);
                }
            }
        };
    let content = |i: usize| Content::new(if i == 1 { b"" } else { b"abc" });
    let verify = |b: Builder<Ed>, ts: &[(T, Perm)]| -> R {
        let es: Vec<ES> = (0..ts.len())
            .map(|i| ES {
                name: format!("n{i}"),
                content: content(i),
                declared: None,
                crc: Crc::Unknown,
            })
            .collect();
        let (_, c) = checked(b, &arch::wants(&es), BIG)?;
        for (i, (l, (t, p))) in c.lay.iter().zip(ts).enumerate() {
            let want = mode(*t, *p);
            ensure!(
                l.external >> 16 == want,
                "mode",
                "entry {i} records mode {:o} instead of {want:o} ({t:?}, {p:?})",
                l.external >> 16
            );
        }
        Ok(())
    };
    let build = |env: &EnvRef, n: usize| -> R<Builder<Ed>> {
        let mut b = Builder::<Ed>::new();
        for i in 0..n {
            if b.add_entry(format!("n{i}"), ed(env, i, content(i)))
                .is_err()
            {
                return fail("add", "an add was refused");
            }
        }
        Ok(b)
    };
    let depth = ctx.q(4, 5);
    ctx.tree("setter sequences on one entry", |ctl| {
        let env = Env::new(ctl, 1, 0);
        let mut b = Builder::<Ed>::new();
        let (mut t, mut p) = (T::File, Perm::Rw);
        {
            let Ok(x) = b.add_entry("n0".into(), ed(&env, 0, content(0))) else {
                return fail("add", "an add was refused");
            };
            let n = ctl.choose(depth + 1);
            for _ in 0..n {
                let op = ctl.choose(n_ops);
                apply(ctl, op, x, &mut t, &mut p, content(0).crc());
            }
        }
        verify(b, &[(t, p)])
    });
    let depth = ctx.q(3, 4);
    ctx.tree("setters on several entries", |ctl| {
        let env = Env::new(ctl, 3, 0);
        let mut b = build(&env, 3)?;
        let mut ts = [(T::File, Perm::Rw); 3];
        let used = [1usize, 2, 4, 5, 6, 14, 15, 16, n_ops - 4];
        let n = ctl.choose(depth + 1);
        for k in 0..n {
            let i = ctl.choose(3);
            let op = *ctl.pick(&used);
            ctl.log(|| format!("entry {i}:"));
            let (t, p) = &mut ts[i];
            apply(
                ctl,
                op,
                b.get_entries_mut().get_mut(&format!("n{i}")).unwrap(),
                t,
                p,
                content(i).crc(),
            );
            if k == 1 && ctl.flag() {
                b = b.clone();
            }
        }
        verify(b, &ts)
    });
    ctx.tree("all permission values, all types, in any order", |ctl| {
        let env = Env::new(ctl, 3, 0);
        let mut b = build(&env, 1)?;
        let bits = match ctl.choose(3) {
            0 => ctl.choose(0o1000) as u32,
            1 => (ctl.choose(0o200) as u32) << 9 | *ctl.pick(&[0u32, 0o777, 0o644]),
            _ => 1u32 << ctl.choose(32) | 0o640,
        };
        let ty = ctl.choose(3);
        let x = b.get_entries_mut().get_mut("n0").unwrap();
        let set = |x: &mut BuilderEntry<Ed>| match ty {
            0 => {
                x.file();
            }
            1 => {
                x.directory();
            }
            _ => {
                x.symlink();
            }
        };
        let how = ctl.choose(4);
        if how == 0 || how == 2 {
            set(x);
        }
        if how < 2 {
            x.unix_permissions(bits);
        } else {
            x.permissions(&std::fs::Permissions::from_mode(bits));
        }
        if how == 1 || how == 3 {
            set(x);
        }
        verify(b, &[([T::File, T::Dir, T::Link][ty], Perm::Bits(bits))])
    });
    // Equivalence of metadata() with the single setters, in every bit of the archive
    ctx.tree("metadata() is its parts", |ctl| {
        let m = ctl.pick(&ms);
        let conv = ctl.choose(3);
        let pre = ctl.choose(3);
        let env = Env::new(ctl, 1, 0);
        let mk = |parts: bool| -> R<Vec<u8>> {
            let mut b = Builder::<Ed>::new();
            match conv {
                0 => {}
                1 => {
                    b.system_time_timezone(Utc);
                }
                _ => {
                    b.system_time_converter(|_| (1999, 12, 31, 1, 2, 3));
                }
            }
            let Ok(x) = b.add_entry("n".into(), ed(&env, 0, Content::new(b"abc"))) else {
                return fail("add", "refused");
            };
            match pre {
                0 => {}
                1 => {
                    x.symlink()
                        .readonly(true)
                        .datetime_fields(2005, 5, 5, 5, 5, 5);
                }
                _ => {
                    x.directory().unix_permissions(0o222);
                }
            }
            if parts {
                match m.2 {
                    T::File => x.file(),
                    T::Dir => x.directory(),
                    T::Link => x.symlink(),
                };
                x.unix_permissions(m.3);
                x.datetime_system_or_default(m.1.modified().unwrap());
            } else {
                x.metadata(&m.1);
            }
            let size = b.size();
            read_all(Pin::new(&mut b.build()), BIG, size)
        };
        ensure!(
            mk(true)? == mk(false)?,
            "metadata",
            "metadata({}) differs from setting its parts",
            m.0
        );
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- C16

/// Reads ahead a little.
struct Windowed<S> {
    s: S,
    at: u64,
    data: Vec<u8>,
}

impl<S: Src> Src for Windowed<S> {
    fn size(&self) -> u64 {
        self.s.size()
    }
    fn get(&mut self, at: u64, len: usize) -> R<Vec<u8>> {
        let end = at.saturating_add(len as u64);
        if at < self.at || end > self.at + self.data.len() as u64 {
            let n = (self.s.size().saturating_sub(at))
                .min(len.max(8192) as u64)
                .max(len as u64) as usize;
            self.data = self.s.get(at, n)?;
            self.at = at;
        }
        let o = (at - self.at) as usize;
        Ok(self.data[o..o + len].to_vec())
    }
}

/// Checks random access of a huge archive at every offset of interest.
fn probe_huge(ctl: &Ctl, b: Builder<Ed>, es: &[Ent], extra: &[u64]) -> R {
    let r = b.build();
    let size = r.size();
    let mut one = r.clone();
    let c = check_sparse(r, es, BIG)?;
    // The metadata in small pieces has to be the same as in large ones
    let mut offs = vec![
        0,
        c.cd_off,
        c.eocd_off,
        size - 22,
        size - 42,
        size,
        size - 1,
    ];
    for l in &c.lay {
        offs.extend([
            l.start,
            l.data_start,
            l.data_end,
            l.end,
            l.cd_start,
            l.cd_end,
        ]);
        let mid = l.data_start + (l.data_end - l.data_start) / 2;
        offs.push(mid);
        for k in [16u32, 31, 32, 33, 47, 48, 62, 63] {
            offs.push(l.data_start.saturating_add(1 << k).min(l.data_end));
            offs.push(1u64 << k);
        }
    }
    offs.extend_from_slice(extra);
    offs.sort();
    offs.dedup();
    let mut all = Vec::new();
    for o in offs {
        for d in [-9i64, -1, 0, 1, 3] {
            if let Some(x) = o.checked_add_signed(d) {
                if x <= size {
                    all.push(x);
                }
            }
        }
    }
    all.sort();
    all.dedup();
    let expected = |at: u64, r: &mut Reader<Ed>| -> R<Vec<u8>> {
        // From the data of the entry, otherwise from the metadata verified above
        for (l, e) in c.lay.iter().zip(es) {
            if at >= l.data_start && at < l.data_end {
                let n = (l.data_end - at).min(20) as usize;
                let mut v = vec![0; n];
                e.content.copy(at - l.data_start, &mut v);
                return Ok(v);
            }
        }
        let n = (size - at).min(20) as usize;
        let next = c
            .lay
            .iter()
            .map(|l| l.data_start)
            .filter(|s| *s > at)
            .min()
            .map_or(n, |s| (s - at).min(n as u64) as usize);
        // Read with different alignment, starting before it
        let back = c
            .lay
            .iter()
            .filter(|l| l.data_end <= at)
            .map(|l| at - l.data_end)
            .min()
            .unwrap_or(at)
            .min(11);
        let v = SeekSrc {
            r: Pin::new(r),
            chunk: 4096,
        }
        .get(at - back, next + back as usize)?;
        Ok(v[back as usize..].to_vec())
    };
    let mut helper = one.clone();
    for at in all {
        crate::ctl::op();
        let want = expected(at, &mut helper)?;
        let how = at % 3;
        let to = match how {
            0 => SeekFrom::Start(at),
            1 => match i64::try_from(i128::from(at) - i128::from(size)) {
                Ok(d) => SeekFrom::End(d),
                Err(_) => SeekFrom::Start(at),
            },
            _ => match i64::try_from(i128::from(at) - i128::from(one.tell())) {
                Ok(d) => SeekFrom::Current(d),
                Err(_) => SeekFrom::Start(at),
            },
        };
        match arch::seek(Pin::new(&mut one), to)? {
            Ok(x) => ensure!(
                x == at && one.tell() == at,
                "seek",
                "{to:?} leads to {x}, tell {} instead of {at}",
                one.tell()
            ),
            Err(e) => return fail("seek", format!("{to:?} failed: {e}")),
        }
        let mut got = Vec::new();
        while got.len() < want.len() {
            match poll_read(Pin::new(&mut one), Waker::noop(), want.len() - got.len())? {
                Out::Data(d) => {
                    ensure!(
                        !d.is_empty(),
                        "early-eof",
                        "end of file at {} of {size}",
                        at + got.len() as u64
                    );
                    got.extend(d);
                }
                o => return fail("error", format!("reading at {at}: {o:?}")),
            }
            ensure!(
                one.tell() == at + got.len() as u64,
                "tell",
                "tell {} instead of {}",
                one.tell(),
                at + got.len() as u64
            );
        }
        ensure!(
            got == want,
            "content",
            "wrong bytes at {at}: {got:02x?} instead of {want:02x?}"
        );
        ctl.log(|| format!("  checked {at}"));
    }
    // At and beyond the end
    for p in [size, size.saturating_add(1), u64::MAX] {
        one.seek_from_start_mut(p);
        match poll_read(Pin::new(&mut one), Waker::noop(), 10)? {
            Out::Data(d) if d.is_empty() => {}
            o => return fail("overrun", format!("reading at {p} of {size} gives {o:?}")),
        }
        ensure!(
            one.tell() == p,
            "tell",
            "tell {} instead of {p}",
            one.tell()
        );
    }
    Ok(())
}

pub fn c16(ctx: &Ctx) {
    let sizes: Vec<u64> = vec![
        3,
        0,
        (1 << 16) - 1,
        1 << 16,
        (1 << 31) - 1,
        1 << 31,
        (1 << 32) - 2,
        (1 << 32) - 1,
        1 << 32,
        (1 << 32) + 1,
        (1 << 33) + 5,
        1 << 48,
        (1 << 63) - 1,
        1 << 63,
    ];
    let make = |ctl: &Ctl, sizes: &[u64], names: &[String]| -> R<(Builder<Ed>, Vec<Ent>)> {
        let env = Env::new(ctl, sizes.len(), 0);
        let mut b = Builder::<Ed>::new();
        let mut es: Vec<Ent> = Vec::new();
        for (i, (s, n)) in sizes.iter().zip(names).enumerate() {
            let content = Content::Pattern {
                seed: i as u8,
                len: *s,
            };
            match b.add_entry(n.clone(), ed(&env, i, content.clone())) {
                Ok(x) => {
                    let crc = if *s == 0 { 0 } else { 0xdead_bee0 + i as u32 };
                    x.crc32(crc);
                    es.push(Ent {
                        name: n.clone(),
                        content,
                        crc,
                        external: None,
                    });
                }
                Err(AddEntryError::TooLongZipFile { .. }) => {}
                Err(e) => return fail("add", e.to_string()),
            }
        }
        Ok((b, es))
    };
    let names: Vec<String> = ["a", "longer name", "ž", "d"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    ctx.sample(|| format!("all archives of up to {} entries with sizes from {sizes:?}, random access around every boundary and power of two", ctx.q(3, 4)));
    let count = ctx.q(3, 4);
    ctx.tree("huge entries and offsets", |ctl| {
        let n = 1 + ctl.choose(count);
        let pick: Vec<u64> = (0..n)
            .map(|k| {
                if k < 3 {
                    *ctl.pick(&sizes)
                } else {
                    *ctl.pick(&sizes[8..])
                }
            })
            .collect();
        ctl.log(|| format!("sizes {pick:?}"));
        let (b, es) = make(ctl, &pick, &names)?;
        probe_huge(ctl, b, &es, &[])
    });
    // An entry positioned so that each kind of record straddles or touches a limit
    ctx.tree("records at the limits", |ctl| {
        let limit: u64 = *ctl.pick(&[1 << 31, 1 << 32, (1 << 32) * 2, 1 << 63]);
        let delta = ctl.choose(ctx.q(160, 400)) as u64;
        // Size of the first entry so that its data end is just before the limit
        let first = limit - delta;
        let (b, es) = make(ctl, &[first, 2, 0], &names)?;
        probe_huge(ctl, b, &es, &[limit - 2, limit + 2])
    });
    // Archives of exactly the maximal length and a little shorter
    ctx.tree("archives up to 2^64-1 bytes", |ctl| {
        let base = {
            let (b, _) = make(ctl, &[0, 0, 0], &names)?;
            b.size()
        };
        let less = *ctl.pick(&[0u64, 1, 2, 22, 23, 98, 99, 1000]);
        let split = *ctl.pick(&[0u64, 5, 1 << 32, 1 << 63, u64::MAX - 70_000]);
        let total = u64::MAX - base - less;
        let a = split.min(total);
        let order = ctl.choose(3);
        let s = [[a, total - a, 0], [0, a, total - a], [total - a, 0, a]][order];
        let (b, es) = make(ctl, &s, &names)?;
        ensure!(
            es.len() == 3 && b.size() == u64::MAX - less,
            "size",
            "size {} instead of {}",
            b.size(),
            u64::MAX - less
        );
        probe_huge(ctl, b, &es, &[])
    });
    // Numbers of entries
    let counts: &[usize] = ctx.q(
        &[65534, 65535, 65536, 65537, 70_000],
        &[
            32767, 32768, 65534, 65535, 65536, 65537, 131_071, 131_072, 200_000,
        ],
    );
    ctx.tree("numbers of entries", |ctl| {
        let n = *ctl.pick(counts);
        let known = ctl.flag();
        let es: Vec<ES> = (0..n)
            .map(|i| {
                ES::pat(
                    &format!("{i}"),
                    i as u8,
                    (i % 2) as u64,
                    if known { Crc::True } else { Crc::Unknown },
                )
            })
            .collect();
        let env = Env::new(ctl, n, 0);
        let b = arch::builder(&env, &es)?;
        let mut r = b.clone().build();
        let (bytes, c) = checked(b, &arch::wants(&es), 8192)?;
        // The same by random access
        if known {
            for k in 0..400u64 {
                let at = if k % 2 == 0 {
                    c.cd_off + k * 997 % (bytes.len() as u64 - c.cd_off)
                } else {
                    k * 7919 * 31 % bytes.len() as u64
                };
                let len = 50.min(bytes.len() as u64 - at) as usize;
                let got = SeekSrc {
                    r: Pin::new(&mut r),
                    chunk: BIG,
                }
                .get(at, len)?;
                ensure!(
                    got == bytes[at as usize..at as usize + len],
                    "content",
                    "wrong bytes after a seek to {at}"
                );
            }
        }
        Ok(())
    });
    ctx.tree("many large entries", |ctl| {
        let n = *ctl.pick(ctx.q(&[65536][..], counts));
        let names: Vec<String> = (0..n).map(|i| format!("{i}")).collect();
        let s: Vec<u64> = (0..n).map(|i| (i as u64 % 3) << 20).collect();
        let (b, es) = make(ctl, &s, &names)?;
        let size = b.size();
        let r = b.build();
        ensure!(
            es.len() == n && r.size() == size,
            "size",
            "{} entries, {} bytes",
            es.len(),
            r.size()
        );
        let mut w = Windowed {
            s: SeekSrc {
                r: std::pin::pin!(r),
                chunk: BIG,
            },
            at: 0,
            data: vec![],
        };
        zipck::check(&mut w, &wants(&es)).map(|_| ())
    });
    // The names alone make local headers and central directory larger than 4 GiB each
    ctx.sample(|| {
        "65600 names of 65535 bytes: central directory above 4 GiB, records around every boundary"
            .to_string()
    });
    ctx.tree("central directory above 4 GiB", |ctl| {
        let n: u64 = 65_600;
        let name = |i: u64| {
            let d = format!("{i},");
            let mut s = String::with_capacity(65_535);
            while s.len() + d.len() <= 65_535 {
                s.push_str(&d);
            }
            while s.len() < 65_535 {
                s.push('-');
            }
            s
        };
        let data = |i: u64| if i % 1000 == 999 { &b"xyz"[..] } else { &b""[..] };
        ctl.log(|| format!("{n} entries with names of 65535 bytes"));
        let mut b = Builder::<&'static [u8]>::new();
        let (mut local, mut central) = (Vec::new(), Vec::new());
        let (mut size, mut at) = (0u64, 0u64);
        for i in 0..n {
            if let Err(e) = b.add_entry(name(i), data(i)) {
                return fail("add", format!("entry {i} was refused: {}", matches!(e, AddEntryError::TooLongZipFile { .. })));
            }
            local.push(size);
            size += 30 + 65_535 + 28 + data(i).len() as u64 + 24;
        }
        let cd_off = size;
        for _ in 0..n {
            central.push(size + at);
            at += 46 + 65_535 + 28;
        }
        let cd_size = at;
        size += cd_size + 56 + 20 + 22;
        ensure!(b.size() == size, "size", "builder says {} instead of {size}", b.size());
        let mut r = Box::pin(b.build());
        ensure!(r.size() == size, "size", "reader says {} instead of {size}", r.size());
        let mut get = |at: u64, len: u64, step: u64| -> R<Vec<u8>> {
            r.as_mut().seek_from_start_pinned(at);
            let mut got = Vec::new();
            while (got.len() as u64) < len {
                match poll_read(r.as_mut(), Waker::noop(), step.min(len - got.len() as u64) as usize)? {
                    Out::Data(d) if !d.is_empty() => got.extend(d),
                    o => return fail("content", format!("{o:?} at {at}+{} of {size}", got.len())),
                }
            }
            ensure!(r.tell() == at + len, "tell", "at {} instead of {}", r.tell(), at + len);
            Ok(got)
        };
        let u64_at = |b: &[u8], o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
        for step in [1 << 20, 11] {
            let end = get(size - 98, 98, step)?;
            ensure!(
                end[..4] == *b"PK\x06\x06"
                    && [24, 32, 40, 48].map(|o| u64_at(&end, o)) == [n, n, cd_size, cd_off]
                    && end[56..60] == *b"PK\x06\x07"
                    && u64_at(&end, 64) == size - 98,
                "zip",
                "wrong end of central directory {end:02x?}: {n} entries, {cd_size} bytes from {cd_off}"
            );
        }
        let full = 1u64 << 32;
        let edges = [local.partition_point(|o| *o < full), central.partition_point(|o| *o - cd_off < full)];
        let mut some = vec![0, 1, 998, 999, 1000, 65_534, 65_535, 65_536, n - 2, n - 1];
        for e in edges {
            some.extend((e as u64 - 2)..=(e as u64 + 2));
        }
        for i in some.into_iter().filter(|i| *i < n) {
            let k = i as usize;
            let l = data(i).len() as u64;
            for step in [1 << 20, 4096] {
                let h = get(local[k], 30 + 65_535 + 28 + l, step)?;
                ensure!(
                    h[..4] == *b"PK\x03\x04" && h[30..30 + 65_535] == *name(i).as_bytes() && h[30 + 65_535 + 28..] == *data(i),
                    "content",
                    "wrong local header of entry {i}"
                );
                let h = get(central[k], 46 + 65_535 + 28, step)?;
                ensure!(
                    h[..4] == *b"PK\x01\x02"
                        && h[46..46 + 65_535] == *name(i).as_bytes()
                        && [4, 12, 20].map(|o| u64_at(&h, 46 + 65_535 + o)) == [l, l, local[k]],
                    "content",
                    "wrong central directory record of entry {i}"
                );
            }
        }
        Ok(())
    });
    // Passing 4 GiB byte by byte: sequential reads, and skipping because the CRC has to be computed
    let huge = (1u64 << 32) + 5;
    let content = Content::Fill {
        byte: 0x5a,
        len: huge,
    };
    let crc = std::sync::OnceLock::new();
    ctx.tree("4 GiB actually read", |ctl| {
        let how = ctl.choose(4);
        let true_crc = *crc.get_or_init(|| content.crc());
        let env = Env::new(ctl, 3, 0);
        let mut b = Builder::<Ed>::new();
        let mut es = Vec::new();
        for (i, c) in [Content::new(b"12"), content.clone(), Content::new(b"tail")]
            .into_iter()
            .enumerate()
        {
            if b.add_entry(names[i].clone(), ed(&env, i, c.clone()))
                .is_err()
            {
                return fail("add", "refused");
            }
            let crc = if i == 1 { true_crc } else { c.crc() };
            es.push(Ent {
                name: names[i].clone(),
                content: c,
                crc,
                external: None,
            });
        }
        let size = b.size();
        let mut r = b.build();
        let reference = {
            let mut k = r.clone();
            k.seek_from_start_mut(size);
            k
        };
        match how {
            0 => {
                // Sequentially, content compared
                let n = 1 << 20;
                let mut buf = vec![0u8; n];
                let mut pos = 0u64;
                let start = es[0].name.len() as u64 + es[1].name.len() as u64; // before the data for sure
                let mut fill = 0u64;
                loop {
                    let mut rb = tokio::io::ReadBuf::new(&mut buf);
                    let cx = &mut std::task::Context::from_waker(Waker::noop());
                    match tokio::io::AsyncRead::poll_read(Pin::new(&mut r), cx, &mut rb) {
                        std::task::Poll::Ready(Ok(())) => {}
                        x => return fail("error", format!("at {pos}: {x:?}")),
                    }
                    let d = rb.filled();
                    if d.is_empty() {
                        break;
                    }
                    if d.iter().all(|b| *b == 0x5a) {
                        fill += d.len() as u64;
                    } else {
                        fill += d.iter().filter(|b| **b == 0x5a).count() as u64;
                    }
                    pos += d.len() as u64;
                    ensure!(
                        r.tell() == pos,
                        "tell",
                        "tell {} instead of {pos}",
                        r.tell()
                    );
                }
                let _ = start;
                ensure!(pos == size, "size", "{pos} bytes read instead of {size}");
                ensure!(
                    fill >= huge && fill < huge + 100,
                    "content",
                    "{fill} bytes of content"
                );
                let _ = zipck::check(
                    &mut SeekSrc {
                        r: Pin::new(&mut r),
                        chunk: BIG,
                    },
                    &wants(&es),
                )?;
            }
            1 => {
                // Only the end: the CRC is computed on the way
                r.seek_from_start_mut(size - 400);
                let mut x = read_all(Pin::new(&mut r), 8192, 400)?;
                ensure!(x.len() == 400, "size", "{} bytes", x.len());
                let _ = zipck::check(
                    &mut SeekSrc {
                        r: Pin::new(&mut r),
                        chunk: BIG,
                    },
                    &wants(&es),
                )?;
                x.clear();
            }
            2 => {
                // Into the far end of the data, which has to be skipped
                let lay = zipck::check(
                    &mut SeekSrc {
                        r: Pin::new(&mut r),
                        chunk: BIG,
                    },
                    &wants(&es),
                )?
                .lay;
                let mut f = reference;
                f.seek_from_start_mut(lay[1].data_end - 3);
                let mut got = Vec::new();
                while got.len() < 20 {
                    match poll_read(Pin::new(&mut f), Waker::noop(), 20 - got.len())? {
                        Out::Data(d) if !d.is_empty() => got.extend(d),
                        o => return fail("error", format!("{o:?}")),
                    }
                }
                ensure!(
                    got[..3] == [0x5a; 3] && got[3..7] == [0x50, 0x4b, 7, 8],
                    "content",
                    "{got:02x?} around the end of 4 GiB data"
                );
                ensure!(
                    got[7..11] == true_crc.to_le_bytes(),
                    "content",
                    "descriptor CRC {:02x?}",
                    &got[7..11]
                );
            }
            _ => {
                // Just behind it
                let lay_start = 2 * (30 + 20) + 1 + "longer name".len() as u64 + 2 + 24 + huge;
                let mut f = reference;
                f.seek_from_start_mut(lay_start);
                let rest = read_all(Pin::new(&mut f), 50, size - lay_start)?;
                ensure!(
                    rest.len() as u64 == size - lay_start,
                    "size",
                    "{} bytes after the data",
                    rest.len()
                );
            }
        }
        let listed: Vec<(String, u32)> = r.crc32s().map(|(n, c)| (n.to_string(), c)).collect();
        if how < 3 {
            ensure!(
                listed
                    .iter()
                    .any(|(n, c)| *n == es[1].name && *c == true_crc),
                "crc",
                "CRC of the 4 GiB entry is not known: {listed:x?}"
            );
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- C20

pub fn dos(f: (i32, u32, u32, u32, u32, u32)) -> Option<u32> {
    let (y, mo, d, h, mi, s) = f;
    let ok = y >= 1980
        && y <= 2107
        && mo >= 1
        && mo <= 12
        && d >= 1
        && d <= 31
        && h <= 23
        && mi <= 59
        && s <= 59;
    ok.then(|| ((y - 1980) as u32) << 25 | mo << 21 | d << 16 | h << 11 | mi << 5 | s / 2)
}

const EPOCH_DOS: u32 = 1 << 21 | 1 << 16;

/// Civil fields of seconds since 1970 (proleptic Gregorian calendar), by the definition of leap years.
pub fn civil(mut secs: i64) -> Option<(i32, u32, u32, u32, u32, u32)> {
    let day_secs = secs.rem_euclid(86400);
    let mut days = secs.div_euclid(86400);
    secs = day_secs;
    if !(-800_000..800_000).contains(&days) {
        return None;
    }
    let mut y = 1970;
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    while days < 0 {
        y -= 1;
        days += if leap(y) { 366 } else { 365 };
    }
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if days < n {
            break;
        }
        days -= n;
        y += 1;
    }
    let mut m = 0;
    let lens = [
        31,
        if leap(y) { 29 } else { 28 },
        31,
        30,
        31,
        30,
        31,
        31,
        30,
        31,
        30,
        31,
    ];
    while days >= lens[m] {
        days -= lens[m];
        m += 1;
    }
    Some((
        y as i32,
        m as u32 + 1,
        days as u32 + 1,
        (secs / 3600) as u32,
        (secs / 60 % 60) as u32,
        (secs % 60) as u32,
    ))
}

fn recorded(b: Builder<Ed>, es: &[ES]) -> R<Vec<u32>> {
    let (_, c) = checked(b, &arch::wants(es), BIG)?;
    Ok(c.lay.iter().map(|l| l.datetime).collect())
}

fn since_epoch(t: SystemTime) -> i64 {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => d.as_secs().min(i64::MAX as u64) as i64,
        Err(e) => {
            // Rounded towards the past
            let d = e.duration();
            -(d.as_secs().min(i64::MAX as u64 - 1) as i64) - i64::from(d.subsec_nanos() > 0)
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Conv {
    None,
    Const,
    Bad,
    Utc,
    East,
    West,
}

impl Conv {
    fn set(self, b: &mut Builder<Ed>) {
        match self {
            Conv::None => {}
            Conv::Const => {
                b.system_time_converter(|_| (2011, 11, 21, 13, 37, 59));
            }
            Conv::Bad => {
                b.system_time_converter(|_| (2011, 13, 0, 13, 37, 59));
            }
            Conv::Utc => {
                b.system_time_timezone(Utc);
            }
            Conv::East => {
                b.system_time_timezone(FixedOffset::east_opt(14 * 3600 + 1).unwrap());
            }
            Conv::West => {
                b.system_time_timezone(FixedOffset::west_opt(12 * 3600).unwrap());
            }
        }
    }
    fn fields(self, t: SystemTime) -> Option<u32> {
        let off = match self {
            Conv::None | Conv::Bad => return None,
            Conv::Const => return dos((2011, 11, 21, 13, 37, 59)),
            Conv::Utc => 0,
            Conv::East => 14 * 3600 + 1,
            Conv::West => -12 * 3600,
        };
        dos(civil(since_epoch(t).checked_add(off)?)?)
    }
}

fn times() -> Vec<SystemTime> {
    let mut v = Vec::new();
    let mut add = |t: Option<SystemTime>| {
        if let Some(t) = t {
            v.push(t);
        }
    };
    // 1980-01-01, 2108-01-01 and shifted by the zones, a leap day, ordinary times
    for base in [
        315_532_800i64,
        4_354_819_200,
        951_782_400,
        1_078_012_800,
        1_700_000_001,
        0,
        -1,
        3_000_000_000,
        4_107_542_400,
    ] {
        for off in [
            0i64,
            1,
            -1,
            2,
            14 * 3600 + 1,
            -(14 * 3600 + 1),
            -(14 * 3600 + 2),
            12 * 3600,
            12 * 3600 - 1,
            -12 * 3600,
            86400,
            -86400,
        ] {
            let s = base + off;
            let t = if s >= 0 {
                UNIX_EPOCH.checked_add(Duration::from_secs(s as u64))
            } else {
                UNIX_EPOCH.checked_sub(Duration::from_secs(-s as u64))
            };
            add(t);
            add(t.and_then(|t| t.checked_add(Duration::from_nanos(999_999_999))));
        }
    }
    for k in 32..64 {
        for s in [1u64 << k, (1u64 << k) - 1] {
            add(UNIX_EPOCH.checked_add(Duration::from_secs(s)));
            add(UNIX_EPOCH.checked_sub(Duration::from_secs(s)));
        }
    }
    add(UNIX_EPOCH.checked_add(Duration::new(i64::MAX as u64, 999_999_999)));
    add(UNIX_EPOCH.checked_sub(Duration::new(i64::MAX as u64, 0)));
    // Limits of what chrono can represent
    for s in [
        8_210_266_876_799u64,
        8_210_266_876_800,
        8_210_266_876_799 - 50_401,
    ] {
        add(UNIX_EPOCH.checked_add(Duration::from_secs(s)));
    }
    for s in [
        8_334_601_228_800u64,
        8_334_601_228_801,
        8_334_601_228_800 - 43_199,
    ] {
        add(UNIX_EPOCH.checked_sub(Duration::from_secs(s)));
    }
    v
}

pub fn c20(ctx: &Ctx) {
    let tmp = Tmp::new("c20");
    let ms = metas(&tmp.0);
    let ts = times();
    ctx.note("system times", ts.len() as u64);
    let fields: Vec<(i32, u32, u32, u32, u32, u32)> = vec![
        (2000, 2, 3, 4, 5, 6),
        (1995, 10, 31, 23, 59, 59),
        (1980, 1, 1, 0, 0, 1),
        (2107, 12, 31, 23, 59, 58),
        (1979, 12, 31, 23, 59, 59),
        (2108, 1, 1, 0, 0, 0),
        (2000, 13, 1, 0, 0, 0),
        (2000, 1, 0, 0, 0, 0),
        (2000, 1, 1, 24, 0, 0),
        (2000, 1, 1, 0, 60, 0),
        (2000, 1, 1, 0, 0, 60),
    ];
    let naive: Vec<NaiveDateTime> = [
        (2016, 12, 31, 23, 59, 58),
        (1979, 12, 31, 23, 59, 59),
        (2108, 1, 1, 0, 0, 0),
    ]
    .iter()
    .map(|(y, m, d, h, mi, s)| {
        NaiveDate::from_ymd_opt(*y, *m, *d)
            .unwrap()
            .and_hms_opt(*h, *mi, *s)
            .unwrap()
    })
    .collect();
    let systems: Vec<SystemTime> = [
        315_532_799u64,
        315_532_801,
        1_234_567_891,
        4_354_819_201,
        1 << 62,
    ]
    .iter()
    .filter_map(|s| UNIX_EPOCH.checked_add(Duration::from_secs(*s)))
    .collect();
    let one = |env: &EnvRef| -> (ES, Ed) {
        (
            ES::new("n", b"x", Crc::Unknown),
            ed(env, 0, Content::new(b"x")),
        )
    };
    // Every sequence of setters
    let n_ops = fields.len() * 2 + naive.len() * 2 + systems.len() * 2 + ms.len() + 2;
    let depth = ctx.q(3, 4);
    ctx.sample(|| format!("sequences of {depth} of {n_ops} setters: fields {fields:?}, chrono {naive:?}, system times {systems:?}, file metadata, other setters; 6 converters"));
    let apply = |ctl: &Ctl, op: usize, x: &mut BuilderEntry<Ed>, conv: Conv, cur: &mut u32| -> R {
        crate::ctl::op();
        let mut k = op;
        let checked_result = |some: bool, want: Option<u32>, cur: &mut u32, what: String| -> R {
            ensure!(
                some == want.is_some(),
                "accepted",
                "{what} reported {}",
                if some { "success" } else { "failure" }
            );
            if let Some(w) = want {
                *cur = w;
            }
            Ok(())
        };
        if k < fields.len() * 2 {
            let f = fields[k / 2];
            if k % 2 == 0 {
                ctl.log(|| format!("  datetime_fields{f:?}"));
                let r = x.datetime_fields(f.0, f.1, f.2, f.3, f.4, f.5).is_some();
                return checked_result(r, dos(f), cur, format!("datetime_fields{f:?}"));
            }
            ctl.log(|| format!("  datetime_fields_or_default{f:?}"));
            x.datetime_fields_or_default(f.0, f.1, f.2, f.3, f.4, f.5);
            *cur = dos(f).unwrap_or(EPOCH_DOS);
            return Ok(());
        }
        k -= fields.len() * 2;
        if k < naive.len() * 2 {
            use chrono::{Datelike, Timelike};
            let d = naive[k / 2];
            let w = dos((
                d.year(),
                d.month(),
                d.day(),
                d.hour(),
                d.minute(),
                d.second(),
            ));
            if k % 2 == 0 {
                ctl.log(|| format!("  datetime({d})"));
                let r = x.datetime(d).is_some();
                return checked_result(r, w, cur, format!("datetime({d})"));
            }
            ctl.log(|| format!("  datetime_or_default({d})"));
            x.datetime_or_default(d);
            *cur = w.unwrap_or(EPOCH_DOS);
            return Ok(());
        }
        k -= naive.len() * 2;
        if k < systems.len() * 2 {
            let s = systems[k / 2];
            let w = conv.fields(s);
            if k % 2 == 0 {
                ctl.log(|| format!("  datetime_system({})", since_epoch(s)));
                let r = x.datetime_system(s).is_some();
                return checked_result(r, w, cur, format!("datetime_system({})", since_epoch(s)));
            }
            ctl.log(|| format!("  datetime_system_or_default({})", since_epoch(s)));
            x.datetime_system_or_default(s);
            *cur = w.unwrap_or(EPOCH_DOS);
            return Ok(());
        }
        k -= systems.len() * 2;
        if k < ms.len() {
            ctl.log(|| format!("  metadata({})", ms[k].0));
            x.metadata(&ms[k].1);
            *cur = conv
                .fields(ms[k].1.modified().unwrap())
                .unwrap_or(EPOCH_DOS);
            return Ok(());
        }
        k -= ms.len();
        ctl.log(|| format!("  unrelated setter {k}"));
        if k == 0 {
            x.directory().unix_permissions(0o123);
        } else {
            x.readonly(true).symlink();
        }
        Ok(())
    };
    ctx.tree("setter sequences", |ctl| {
        let conv = *ctl.pick(&[
            Conv::Utc,
            Conv::None,
            Conv::Const,
            Conv::Bad,
            Conv::East,
            Conv::West,
        ]);
        let n = ctl.choose(depth + 1);
        let env = Env::new(ctl, 1, 0);
        let mut b = Builder::<Ed>::new();
        conv.set(&mut b);
        let (es, d) = one(&env);
        let mut cur = EPOCH_DOS;
        {
            let Ok(x) = b.add_entry(es.name.clone(), d) else {
                return fail("add", "refused");
            };
            for _ in 0..n {
                let op = ctl.choose(n_ops);
                apply(ctl, op, x, conv, &mut cur)?;
            }
        }
        let got = recorded(b, &[es])?;
        ensure!(
            got == [cur],
            "datetime",
            "{:08x?} recorded instead of {cur:08x}",
            got
        );
        Ok(())
    });
    // The converter in force when the entry was added counts; entries are independent
    ctx.tree("converters changed between adds", |ctl| {
        let convs = [Conv::None, Conv::Utc, Conv::Const, Conv::East, Conv::Bad];
        let env = Env::new(ctl, 3, 0);
        let mut b = Builder::<Ed>::new();
        let mut inforce = Conv::None;
        let mut at_add = Vec::new();
        let es: Vec<ES> = (0..3)
            .map(|i| ES::new(&format!("n{i}"), b"x", Crc::Unknown))
            .collect();
        for i in 0..3 {
            let c = *ctl.pick(&convs);
            // There is no way to remove a converter
            if c != Conv::None {
                c.set(&mut b);
                inforce = c;
            }
            if b.add_entry(es[i].name.clone(), ed(&env, i, Content::new(b"x")))
                .is_err()
            {
                return fail("add", "refused");
            }
            at_add.push(inforce);
        }
        let last = *ctl.pick(&convs);
        last.set(&mut b);
        if ctl.flag() {
            b = b.clone();
        }
        let t = *ctl.pick(&systems);
        let which = ctl.choose(8);
        let mut want = vec![EPOCH_DOS; 3];
        for i in 0..3 {
            if which >> i & 1 == 1 {
                let w = at_add[i].fields(t);
                let x = b.get_entries_mut().get_mut(&es[i].name).unwrap();
                let r = x.datetime_system(t).is_some();
                ensure!(
                    r == w.is_some(),
                    "accepted",
                    "datetime_system with {:?} reported {r}",
                    at_add[i]
                );
                want[i] = w.unwrap_or(EPOCH_DOS);
            }
        }
        let got = recorded(b, &es)?;
        ensure!(
            got == want,
            "datetime",
            "{got:08x?} recorded instead of {want:08x?}, converters {at_add:?}, then {last:?}"
        );
        Ok(())
    });
    ctx.tree("all system times", |ctl| {
        let conv = *ctl.pick(&[Conv::Utc, Conv::East, Conv::West, Conv::Const, Conv::None]);
        let t = *ctl.pick(&ts);
        let or_default = ctl.flag();
        ctl.log(|| format!("{conv:?}, {} s", since_epoch(t)));
        let env = Env::new(ctl, 1, 0);
        let mut b = Builder::<Ed>::new();
        conv.set(&mut b);
        let (es, d) = one(&env);
        let pre = (2001, 2, 3, 4, 5, 6);
        let w = conv.fields(t);
        let want;
        {
            let Ok(x) = b.add_entry(es.name.clone(), d) else {
                return fail("add", "refused");
            };
            let _ = x.datetime_fields(2001, 2, 3, 4, 5, 6);
            if or_default {
                x.datetime_system_or_default(t);
                want = w.unwrap_or(EPOCH_DOS);
            } else {
                let r = x.datetime_system(t).is_some();
                ensure!(
                    r == w.is_some(),
                    "accepted",
                    "datetime_system({} s) with {conv:?} reported {r}",
                    since_epoch(t)
                );
                want = w.unwrap_or(dos(pre).unwrap());
            }
        }
        let got = recorded(b, &[es])?;
        ensure!(
            got == [want],
            "datetime",
            "{got:08x?} recorded instead of {want:08x} for {} s with {conv:?}",
            since_epoch(t)
        );
        Ok(())
    });
    // Every day and every time of day, through fields and through system time
    ctx.tree("every date and every time of day", |ctl| {
        let env = Env::new(ctl, 4, 0);
        let mut b = Builder::<Ed>::new();
        b.system_time_timezone(Utc);
        let names = ["a", "b", "c", "d"];
        let es: Vec<ES> = names
            .iter()
            .map(|n| ES::new(n, b"", Crc::Unknown))
            .collect();
        for (i, n) in names.iter().enumerate() {
            let _ = b.add_entry(n.to_string(), ed(&env, i, Content::new(b"")));
        }
        let mut want = vec![EPOCH_DOS; 4];
        let mut set = |i: usize, b: &mut Builder<Ed>, f: (i32, u32, u32, u32, u32, u32)| -> R {
            let x = b.get_entries_mut().get_mut(names[i]).unwrap();
            let r = x.datetime_fields(f.0, f.1, f.2, f.3, f.4, f.5).is_some();
            ensure!(
                r == dos(f).is_some(),
                "accepted",
                "datetime_fields{f:?} reported {r}"
            );
            want[i] = dos(f).unwrap_or(EPOCH_DOS);
            Ok(())
        };
        if ctl.flag() {
            // 128 years of days, and a day on both sides
            let day = ctl.choose(46_752 + 2) as i64 - 1;
            let secs = 315_532_800 + day * 86400 + (day * 7919).rem_euclid(86400);
            let t = UNIX_EPOCH + Duration::from_secs(secs as u64);
            let f = civil(secs).unwrap();
            set(0, &mut b, f)?;
            let x = b.get_entries_mut().get_mut("b").unwrap();
            let r = x.datetime_system(t).is_some();
            ensure!(
                r == dos(f).is_some(),
                "accepted",
                "datetime_system({secs} s) reported {r}"
            );
            want[1] = dos(f).unwrap_or(EPOCH_DOS);
            let x = b.get_entries_mut().get_mut("c").unwrap();
            let nd = NaiveDate::from_ymd_opt(f.0, f.1, f.2)
                .unwrap()
                .and_hms_nano_opt(f.3, f.4, 59, 1_500_000_000)
                .unwrap();
            // A leap second belongs to second 59
            x.datetime_or_default(nd);
            want[2] = dos((f.0, f.1, f.2, f.3, f.4, 59)).unwrap_or(EPOCH_DOS);
        } else {
            let minute = ctl.choose(24 * 60) as u32;
            let (h, mi) = (minute / 60, minute % 60);
            let s = ctl.choose(15) as u32 * 4;
            for i in 0..4 {
                set(
                    i,
                    &mut b,
                    (
                        1980 + (minute % 128) as i32,
                        1 + minute % 12,
                        1 + minute % 31,
                        h,
                        mi,
                        s + i as u32,
                    ),
                )?;
            }
        }
        let got = recorded(b, &es)?;
        ensure!(
            got == want,
            "datetime",
            "{got:08x?} recorded instead of {want:08x?}"
        );
        Ok(())
    });
    // Fields at and around their limits, in all combinations
    let ys = [
        2000,
        i32::MIN,
        -1,
        0,
        1979,
        1980,
        1981,
        2043,
        2044,
        2106,
        2107,
        2108,
        2235,
        2236,
        3516,
        65536 + 1980,
        i32::MAX,
    ];
    let mos = [
        5u32,
        0,
        1,
        2,
        7,
        8,
        9,
        11,
        12,
        13,
        15,
        16,
        17,
        32,
        256 + 5,
        u32::MAX,
    ];
    let ds = [
        10u32,
        0,
        1,
        15,
        16,
        17,
        28,
        29,
        30,
        31,
        32,
        33,
        63,
        256 + 10,
        u32::MAX,
    ];
    let hs = [3u32, 0, 1, 15, 16, 22, 23, 24, 25, 31, 32, 256, u32::MAX];
    let mis = [7u32, 0, 1, 31, 32, 58, 59, 60, 61, 63, 64, 256, u32::MAX];
    let ss = [
        9u32,
        0,
        1,
        2,
        3,
        31,
        32,
        57,
        58,
        59,
        60,
        61,
        62,
        63,
        64,
        119,
        120,
        256,
        u32::MAX,
    ];
    let full = !ctx.quick();
    ctx.tree("field combinations", |ctl| {
        // At most three fields deviate from ordinary values, or all of them
        ctl.set_budget(if full { u32::MAX } else { 3 });
        let f = (
            ys[ctl.choose_dev(ys.len())],
            mos[ctl.choose_dev(mos.len())],
            ds[ctl.choose_dev(ds.len())],
            hs[ctl.choose_dev(hs.len())],
            mis[ctl.choose_dev(mis.len())],
            ss[ctl.choose_dev(ss.len())],
        );
        let env = Env::new(ctl, 2, 0);
        let mut b = Builder::<Ed>::new();
        b.system_time_converter(move |_| f);
        let es = [
            ES::new("n", b"", Crc::Unknown),
            ES::new("m", b"", Crc::Unknown),
        ];
        let pre = dos((2001, 2, 3, 4, 5, 6)).unwrap();
        for (i, e) in es.iter().enumerate() {
            let Ok(x) = b.add_entry(e.name.clone(), ed(&env, i, Content::new(b""))) else {
                return fail("add", "refused");
            };
            let _ = x.datetime_fields(2001, 2, 3, 4, 5, 6);
            let (r, what) = if i == 0 {
                (
                    x.datetime_fields(f.0, f.1, f.2, f.3, f.4, f.5).is_some(),
                    "datetime_fields",
                )
            } else {
                (
                    x.datetime_system(UNIX_EPOCH).is_some(),
                    "datetime_system converted to",
                )
            };
            ensure!(
                r == dos(f).is_some(),
                "accepted",
                "{what}{f:?} reported {r}"
            );
        }
        let w = dos(f).unwrap_or(pre);
        let got = recorded(b, &es)?;
        ensure!(
            got == [w, w],
            "datetime",
            "{got:08x?} recorded instead of {w:08x} for {f:?}"
        );
        Ok(())
    });
}
