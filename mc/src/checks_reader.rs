//! C03, C04, C05, C06, C08, C09, C10: the reader's state graph under different alphabets.
use crate::arch::{self, Crc, ES, Golden, read_all};
use crate::checks_fs::{FOp, real_files};
use crate::ctl::{Ctl, Ctx, Machine, R, fail};
use crate::ensure;
use crate::env::*;
use crate::rm::{self, Cfg, Op, Rm};
use std::io::SeekFrom;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::Ordering;

pub fn golden(es: &[ES]) -> Arc<Golden> {
    match std::panic::catch_unwind(|| Golden::new(es)) {
        Ok(Ok(g)) => Arc::new(g),
        Ok(Err(f)) => std::panic::panic_any(f),
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// A content with CRC-32 zero
pub const CRC_ZERO: [u8; 4] = [0x9d, 0x0a, 0xd9, 0x6d];

/// Small archives exercising every kind of record and of CRC knowledge.
pub fn shapes() -> Vec<Vec<ES>> {
    use Crc::*;
    vec![
        vec![],
        vec![ES::new("a", b"xyz", Unknown)],
        vec![ES::new("a", b"xyz", True)],
        vec![ES::new("", b"", Unknown), ES::new("b", b"qw", Unknown)],
        vec![ES::new("é", b"ab", Unknown), ES::new("bb", b"cde", Unknown)],
        vec![ES::new("a", b"ab", True), ES::new("b", b"cde", Unknown)],
        vec![ES::new("a", b"ab", Unknown), ES::new("b", b"cde", True)],
        vec![
            ES::new("a", b"1", Unknown),
            ES::new("d/", b"", True),
            ES::new("c", b"23", Unknown),
        ],
        // The CRC of this content is zero
        vec![
            ES::new("0", &CRC_ZERO, Unknown),
            ES::new("1", &CRC_ZERO, True),
        ],
    ]
}

fn reads(v: &[usize]) -> Vec<Op> {
    v.iter().map(|n| Op::Read(*n)).collect()
}

const BIG: usize = 1 << 17;

fn run_graph(ctx: &Ctx, name: &str, cfgs: Vec<Cfg>, depth: usize) {
    let cfgs: Vec<Arc<Cfg>> = cfgs.into_iter().map(Arc::new).collect();
    for c in &cfgs {
        ctx.sample(|| {
            format!(
                "{name}: archive [{}], {} operations, source answers mask {:#x}",
                c.g.desc,
                c.ops.len(),
                c.faults
            )
        });
    }
    ctx.nontrivial
        .fetch_add(cfgs.len() as u64, Ordering::Relaxed);
    ctx.graph(name, depth, |ctl| Rm::new(ctl, ctl.pick(&cfgs)));
}

fn depth(hook: usize, nohook: usize) -> usize {
    if cfg!(zippity_verif) { hook } else { nohook }
}

pub fn c03(ctx: &Ctx) {
    // Every state reachable with these buffer sizes
    let sizes: Vec<usize> = if ctx.quick() {
        vec![
            0, 1, 2, 3, 4, 5, 7, 8, 11, 20, 22, 23, 24, 25, 27, 28, 29, 30, 31, 32, 45, 46, 47, 53,
            56, 57, 59, 60, 61, 74, 75, 76, 77, 97, 98, 99, 128, BIG,
        ]
    } else {
        (0..=700).chain([BIG]).collect()
    };
    let sizes = &sizes[..];
    let cfgs = shapes()
        .iter()
        .map(|s| Cfg {
            g: golden(s),
            ops: reads(sizes),
            faults: 0,
            budget: None,
            probes: false,
        })
        .collect();
    run_graph(
        ctx,
        "graph of mixed read sizes",
        cfgs,
        depth(100_000, 100_000),
    );

    // All uniform sizes and all alternations of two sizes on a record-rich archive
    let g = golden(&[
        ES::new("name1", b"hello", Crc::Unknown),
        ES::new("ž", b"", Crc::Unknown),
        ES::new("n3", &[7u8; 100], Crc::True),
    ]);
    let max = ctx.q(720usize, 1500);
    ctx.tree("all pairs of alternating read sizes", |ctl| {
        let a = 1 + ctl.choose(max);
        let b = 1 + ctl.choose(max);
        let cfg = Arc::new(Cfg {
            g: g.clone(),
            ops: vec![],
            faults: 0,
            budget: None,
            probes: false,
        });
        let mut m = Rm::new(ctl, &cfg)?;
        let mut k = 0;
        while m.pos < g.size() {
            let _ = m.read(if k % 2 == 0 { a } else { b })?;
            k += 1;
        }
        for _ in 0..2 {
            m.apply(&Op::Read(a))?;
        }
        Ok(())
    });

    // Sizes around the internal buffer, long names, large entries
    let mut bigs = Vec::new();
    for n in [0usize, 1, 255, 256, 8190, 8192, 8193, 65535] {
        for s in [0u64, 1, 8191, 8192, 8193, 16384, 16385, 70000] {
            for crc in [Crc::Unknown, Crc::True] {
                bigs.push(golden(&[
                    ES::pat(&"n".repeat(n), 3, s, crc),
                    ES::pat(
                        &format!("{}é", "z".repeat(n.saturating_sub(3))),
                        9,
                        s / 2 + 1,
                        crc,
                    ),
                ]));
            }
        }
    }
    ctx.nontrivial
        .fetch_add(bigs.len() as u64, Ordering::Relaxed);
    let sizes = [
        1usize,
        13,
        511,
        4096,
        8191,
        8192,
        8193,
        16384,
        65536,
        1 << 20,
    ];
    ctx.tree("long names and large entries, uniform read sizes", |ctl| {
        let g = ctl.pick(&bigs);
        let n = *ctl.pick(&sizes);
        let first = *ctl.pick(&[0usize, 1, 29, 30, 31, 33, 5000]);
        if n == 1 && (g.size() > 30_000 || first > 1) {
            return Ok(());
        }
        let cfg = Arc::new(Cfg {
            g: g.clone(),
            ops: vec![],
            faults: 0,
            budget: None,
            probes: false,
        });
        let mut m = Rm::new(ctl, &cfg)?;
        if first > 0 {
            let _ = m.read(first)?;
        }
        while m.pos < g.size() {
            let _ = m.read(n)?;
        }
        m.apply(&Op::Read(n))
    });
    crate::checks_builder::wrong_reads(ctx);
    // Errors and pending sources
    let cfgs = shapes()
        .iter()
        .map(|s| Cfg {
            g: golden(s),
            ops: reads(ctx.q(
                &[1, 4, 33, 98, BIG][..],
                &[0, 1, 2, 4, 24, 33, 60, 98, BIG][..],
            )),
            faults: PENDINGS | READ_SHORT | ERRORS,
            budget: None,
            probes: false,
        })
        .collect();
    run_graph(
        ctx,
        "graph of mixed read sizes, any answers of the sources",
        cfgs,
        depth(100_000, 4),
    );
    real_files(
        ctx,
        "real files: read sizes",
        &[1, 2, 31, 50, 8192, 20_000, BIG].map(FOp::Read),
        false,
        ctx.q(4, 5),
    );
}

pub fn c04(ctx: &Ctx) {
    let mut cfgs = Vec::new();
    for (i, s) in shapes().iter().enumerate() {
        let g = golden(s);
        let n = g.size();
        let mut ops = reads(&[1, 5, 33, BIG]);
        let all: Vec<u64> = (0..=n + 2).collect();
        let ends: Vec<u64> = vec![
            u64::MAX - 1,
            u64::MAX,
            1 << 32,
            (1 << 32) - 1,
            i64::MAX as u64,
        ];
        ops.extend(
            all.iter()
                .chain(&ends)
                .map(|p| Op::Seek(SeekFrom::Start(*p))),
        );
        if i <= 1 || !ctx.quick() {
            let m = n as i64 + 2;
            ops.extend((-m..=m).map(|d| Op::Seek(SeekFrom::Current(d))));
            ops.extend((-m..=2).map(|d| Op::Seek(SeekFrom::End(d))));
            ops.extend(all.iter().chain(&ends).map(|p| Op::SeekMut(*p)));
            ops.extend(all.iter().chain(&ends).map(|p| Op::SeekPinned(*p)));
        } else {
            let b = g.boundaries(1);
            ops.extend(b.iter().map(|p| Op::SeekMut(*p)));
            ops.extend(b.iter().map(|p| Op::SeekPinned(*p)));
            ops.extend(
                b.iter()
                    .map(|p| Op::Seek(SeekFrom::End(*p as i64 - n as i64))),
            );
            ops.extend([-1000, -30, -1, 0, 1, 2, 40].map(|d| Op::Seek(SeekFrom::Current(d))));
        }
        ops.extend([i64::MIN, i64::MIN + 1, i64::MAX].map(|d| Op::Seek(SeekFrom::Current(d))));
        ops.extend([i64::MIN, i64::MIN + 1].map(|d| Op::Seek(SeekFrom::End(d))));
        cfgs.push(Cfg {
            g,
            ops,
            faults: 0,
            budget: None,
            probes: false,
        });
    }
    run_graph(ctx, "graph of reads and all seeks", cfgs, depth(100_000, 2));

    // Seeks while sources are being opened, read, positioned, or have failed
    let mut cfgs = fault_cfgs(ctx, PENDINGS | READ_SHORT | ERRORS, false, &[]);
    for c in &mut cfgs {
        let g = c.g.clone();
        for p in g.boundaries(1) {
            c.ops.push(Op::SeekMut(p));
            c.ops.push(Op::SeekPinned(p));
            c.ops
                .push(Op::Seek(SeekFrom::End(p as i64 - g.size() as i64)));
        }
        c.ops
            .extend([-1000, -30, -1, 1, 2, 40].map(|d| Op::Seek(SeekFrom::Current(d))));
    }
    run_graph(
        ctx,
        "graph of seeks, any answers of the sources",
        cfgs,
        depth(100_000, 3),
    );

    // Archives with many entries and with long records: every offset of interest, then read on
    let many: Vec<ES> = (0..ctx.q(40, 300))
        .map(|i| {
            ES::pat(
                &format!("e{i}"),
                i as u8,
                (i as u64 * 7) % 5,
                if i % 3 == 0 { Crc::True } else { Crc::Unknown },
            )
        })
        .collect();
    let mut gs = vec![golden(&many)];
    for crc in [Crc::Unknown, Crc::True] {
        gs.push(golden(&[
            ES::pat(&"x".repeat(9000), 1, 20_000, crc),
            ES::pat("mid", 1, 0, crc),
            ES::pat(&"y".repeat(65535), 2, 8193, crc),
        ]));
    }
    ctx.nontrivial.fetch_add(gs.len() as u64, Ordering::Relaxed);
    ctx.tree("large archives: seek, read, seek, read", |ctl| {
        let i = ctl.choose(gs.len());
        let g = &gs[i];
        let offs: Vec<u64> = if i == 0 {
            (0..=g.size()).collect()
        } else {
            let mut v = g.boundaries(2);
            v.extend((0..g.size()).step_by(ctx.q(4093, 509)));
            v
        };
        let cfg = Arc::new(Cfg {
            g: g.clone(),
            ops: vec![],
            faults: 0,
            budget: None,
            probes: false,
        });
        let mut m = Rm::new(ctl, &cfg)?;
        if ctl.flag() {
            // A history in front of it
            m.apply(&Op::Read(*ctl.pick(&[3, 9000])))?;
        }
        m.apply(&Op::Seek(SeekFrom::Start(*ctl.pick(&offs))))?;
        let _ = m.read(*ctl.pick(&[1usize, 100, 8192, BIG]))?;
        m.apply(&Op::Seek(SeekFrom::Current(-1)))?;
        while m.pos < g.size() {
            let _ = m.read(1 << 16)?;
        }
        Ok(())
    });
    real_files(
        ctx,
        "real files: seeks and reads",
        &[
            FOp::Read(1),
            FOp::Read(60),
            FOp::Read(BIG),
            FOp::Poke(50),
            FOp::Back(-3),
        ],
        true,
        ctx.q(2, 3),
    );
    crate::checks_builder::asref_sources(ctx);
}

fn fault_cfgs(ctx: &Ctx, faults: u16, probes: bool, ops_extra: &[Op]) -> Vec<Cfg> {
    use Crc::*;
    let mut cfgs = Vec::new();
    let mut all = shapes();
    if !ctx.quick() {
        all.extend([
            vec![
                ES::new("first", b"0123456789ab", Unknown),
                ES::new("žluťoučký kůň", b"\0\xff", True),
            ],
            vec![
                ES::new("a", b"", Unknown),
                ES::new("b", b"12", True),
                ES::new("c", b"34", Unknown),
                ES::new("d", b"5", True),
            ],
        ]);
    }
    for s in all.iter() {
        let g = golden(s);
        let mut ops = reads(ctx.q(
            &[1, 2, 3, 7, 24, 40, 75, 130, BIG][..],
            &[
                0, 1, 2, 3, 4, 5, 7, 11, 17, 20, 23, 24, 25, 30, 31, 32, 40, 46, 47, 56, 60, 61,
                75, 76, 77, 100, 130, 131, 180, 260, BIG,
            ][..],
        ));
        ops.extend((0..=g.size() + 1).map(|p| Op::Seek(SeekFrom::Start(p))));
        ops.push(Op::Seek(SeekFrom::Current(0)));
        ops.extend_from_slice(ops_extra);
        cfgs.push(Cfg {
            g,
            ops,
            faults,
            budget: None,
            probes,
        });
    }
    cfgs
}

/// Entries larger than the internal buffer, every state reachable with a few operations.
fn big_cfgs(ctx: &Ctx, faults: u16, probes: bool) -> Vec<Cfg> {
    let mut cfgs = Vec::new();
    for crc in [
        [Crc::Unknown; 2],
        [Crc::True; 2],
        [Crc::Unknown, Crc::True],
        [Crc::True, Crc::Unknown],
    ] {
        let g = golden(&[
            ES::pat("first", 5, 8192 + 100, crc[0]),
            ES::pat("second", 6, 20_000, crc[1]),
        ]);
        let l = &g.lay;
        let mut ops = reads(ctx.q(
            &[5000, 8192, BIG][..],
            &[50, 2600, 5000, 8192, 8193, 16_384, BIG][..],
        ));
        ops.extend(
            [
                0,
                l[0].data_start - 1,
                l[0].data_start + 5,
                l[0].data_start + 8191,
                l[0].data_start + 8200,
                l[0].data_end,
                l[1].start,
                l[1].data_start + 1,
                l[1].data_start + 8192,
                l[1].data_start + 16_385,
                l[1].data_end - 1,
                l[1].data_end + 1,
                l[0].cd_start,
                l[0].cd_end + 3,
                g.size(),
            ]
            .map(|p| Op::Seek(SeekFrom::Start(p))),
        );
        ops.extend([Op::Clone, Op::Take]);
        cfgs.push(Cfg {
            g,
            ops,
            faults: faults & !READ_SHORT,
            budget: None,
            probes,
        });
    }
    cfgs
}

/// Multi-buffer entries: sources answering in every way at a bounded number of polls.
fn fault_big(ctx: &Ctx, name: &str, faults: u16, budget: u32) {
    let mut gs = Vec::new();
    for crc in [[Crc::Unknown; 2], [Crc::True; 2], [Crc::Unknown, Crc::True]] {
        gs.push(golden(&[
            ES::pat("first", 5, 8192 + 100, crc[0]),
            ES::pat("second", 6, 20_000, crc[1]),
        ]));
    }
    ctx.nontrivial.fetch_add(gs.len() as u64, Ordering::Relaxed);
    ctx.tree(name, |ctl| {
        let g = ctl.pick(&gs);
        let l = &g.lay;
        let starts = [
            0,
            l[0].data_start + 5,
            l[0].data_start + 8200,
            l[0].data_end,
            l[1].data_start + 1,
            l[1].data_start + 8192 + 1,
            l[1].data_end + 1,
            l[0].cd_start,
            l[0].cd_end + 3,
        ];
        let start = *ctl.pick(&starts);
        let n = *ctl.pick(&[5000usize, 8192, BIG]);
        let cfg = Arc::new(Cfg {
            g: g.clone(),
            ops: vec![],
            faults,
            budget: Some(budget),
            probes: false,
        });
        let mut m = Rm::new(ctl, &cfg)?;
        if start > 0 {
            m.apply(&Op::Seek(SeekFrom::Start(start)))?;
        }
        let mut calls = 0;
        while m.pos < g.size() {
            let _ = m.read(n)?;
            calls += 1;
            ensure!(calls < 10_000, "no-progress", "no end after {calls} reads");
        }
        Ok(())
    });
}

pub fn c05(ctx: &Ctx) {
    let f = PENDINGS | READ_SHORT;
    run_graph(
        ctx,
        "graph with pending and short-reading sources",
        fault_cfgs(ctx, f, false, &[Op::Clone, Op::Take]),
        depth(100_000, 6),
    );
    run_graph(
        ctx,
        "graph of multi-buffer entries",
        big_cfgs(ctx, f, false),
        depth(100_000, 4),
    );
    fault_big(
        ctx,
        "multi-buffer entries with pending and short-reading sources",
        f,
        ctx.q(2, 3),
    );
    steady(ctx);
}

/// Sources that are pending at every n-th call, forever: everything still gets delivered.
fn steady(ctx: &Ctx) {
    let mut gs = Vec::new();
    for crc in [Crc::Unknown, Crc::True] {
        for n in [1u64, 5, 300, 8191, 8192, 8193, 30_000, 100_000] {
            gs.push(golden(&[
                ES::pat("a", 1, n, crc),
                ES::pat("b", 2, 40, Crc::Unknown),
            ]));
        }
    }
    ctx.nontrivial.fetch_add(gs.len() as u64, Ordering::Relaxed);
    let paces = [2u64, 3, 4, 5, 7, 11, 16];
    let dribbles = [0u64, 1, 100, 5000];
    let sizes = [1usize, 7, 100, 4096, 8192, BIG];
    ctx.tree("sources pending at a steady pace", |ctl| {
        let g = ctl.pick(&gs);
        let pace = *ctl.pick(&paces);
        let dribble = *ctl.pick(&dribbles);
        let n = *ctl.pick(&sizes);
        // Where to start: the data of both, the central directory, its middle, the end
        let starts = [
            0,
            g.lay[0].data_start + g.es[0].size() / 2,
            g.lay[0].data_end,
            g.cd_off,
            g.cd_off + 60,
            g.eocd_off,
        ];
        let start = *ctl.pick(&starts);
        let large = g.es[0].size() > 1000;
        if large && (n < 100 && (ctx.quick() || start > 0) || dribble == 1 && ctx.quick()) {
            return Ok(());
        }
        let cfg = Arc::new(Cfg {
            g: g.clone(),
            ops: vec![],
            faults: PENDINGS,
            budget: None,
            probes: false,
        });
        let mut m = Rm::new(ctl, &cfg)?;
        m.env.stutter.set(pace);
        m.env.dribble.set(dribble);
        m.env.poll_cap.set(4_000_000);
        m.apply(&Op::SeekMut(start))?;
        let total: u64 = g.es.iter().map(|e| e.size()).sum();
        // Every source call makes progress or is one of every `pace` ones
        let most = 100 + 4 * g.size() / n as u64 + 4 * total / if dribble > 0 { dribble } else { 1 };
        let mut calls = 0;
        while m.pos < g.size() {
            let _ = m.read(n)?;
            calls += 1;
            ensure!(
                calls <= most,
                "stall",
                "at {} of {} after {calls} reads of {n} bytes, the sources are pending at every {pace}. call only",
                m.pos,
                g.size()
            );
        }
        m.apply(&Op::Read(n))
    });
}

pub fn c06(ctx: &Ctx) {
    let f = ERRORS | PENDINGS;
    run_graph(
        ctx,
        "graph with failing and pending sources",
        fault_cfgs(ctx, f | KINDS, false, &[Op::Clone, Op::Take]),
        depth(100_000, 5),
    );
    run_graph(
        ctx,
        "graph of multi-buffer entries",
        big_cfgs(ctx, f | KINDS, false),
        depth(100_000, 3),
    );
    fault_big(
        ctx,
        "multi-buffer entries with failing sources",
        f | READ_SHORT,
        ctx.q(2, 3),
    );
    // Errors while nothing else is in the way: every single placement in an uninterrupted read
    let gs: Vec<_> = shapes().iter().map(|s| golden(s)).collect();
    ctx.tree("every pair of error placements, caller only reads", |ctl| {
        let g = ctl.pick(&gs);
        let n = *ctl.pick(&[1usize, 2, 30, 61, 100, BIG]);
        let cfg = Arc::new(Cfg {
            g: g.clone(),
            ops: vec![],
            faults: ERRORS | KINDS,
            budget: Some(ctx.q(2, 3)),
            probes: false,
        });
        let mut m = Rm::new(ctl, &cfg)?;
        // also start in the middle of known-CRC data, to get positioning
        if let Some(l) = g.lay.iter().find(|l| l.size > 1) {
            if ctl.flag() {
                m.apply(&Op::Seek(SeekFrom::Start(l.data_start + 1)))?;
            }
        }
        let mut calls = 0;
        while m.pos < g.size() {
            let _ = m.read(n)?;
            calls += 1;
            ensure!(calls < 10_000, "no-progress", "no end after {calls} reads");
        }
        Ok(())
    });
}

pub fn c08(ctx: &Ctx) {
    run_graph(
        ctx,
        "graph of CRC knowledge",
        fault_cfgs(
            ctx,
            PENDINGS | READ_SHORT | READ_ERR,
            true,
            &[Op::Clone, Op::Take],
        ),
        depth(100_000, 5),
    );
    run_graph(
        ctx,
        "graph of CRC knowledge with multi-buffer entries",
        big_cfgs(ctx, PENDINGS | READ_ERR, true),
        depth(100_000, 3),
    );
    // Which entries are known after a full read, and rebuilding with what is known
    let mut gs = Vec::new();
    for mask in 0..8u32 {
        for sizes in [[3u64, 0, 2], [0, 0, 0], [1, 8193, 0], [8192, 1, 20_000]] {
            let es: Vec<ES> = (0..3)
                .map(|i| {
                    ES::pat(
                        ["a", "é", "c/"][i],
                        i as u8,
                        sizes[i],
                        if mask >> i & 1 == 1 {
                            Crc::True
                        } else {
                            Crc::Unknown
                        },
                    )
                })
                .collect();
            gs.push(golden(&es));
        }
    }
    // Same content, other names: names must not be mixed up
    gs.push(golden(&[
        ES::new("x", b"same", Crc::Unknown),
        ES::new("y", b"same", Crc::True),
        ES::new("z", b"diff", Crc::Unknown),
    ]));
    ctx.nontrivial.fetch_add(gs.len() as u64, Ordering::Relaxed);
    ctx.tree(
        "completeness after reading to the end, and rebuilding",
        |ctl| {
            let g = ctl.pick(&gs);
            let n = *ctl.pick(&[1usize, 50, 8192, BIG]);
            if n == 1 && g.size() > 2000 {
                return Ok(());
            }
            let cfg = Arc::new(Cfg {
                g: g.clone(),
                ops: vec![],
                faults: PENDINGS | READ_SHORT,
                budget: Some(ctx.q(u32::from(n > 1), 1)),
                probes: false,
            });
            let mut m = Rm::new(ctl, &cfg)?;
            // Optionally some seeking first, the last one to the beginning
            if ctl.flag() {
                let b = g.boundaries(ctx.q(0, 1));
                m.apply(&Op::Seek(SeekFrom::Start(*ctl.pick(&b))))?;
                let _ = m.read(*ctl.pick(&[2usize, BIG]))?;
                m.apply(&Op::Seek(SeekFrom::Start(0)))?;
            }
            while m.pos < g.size() {
                let _ = m.read(n)?;
            }
            ensure!(
                m.known.iter().all(|k| k.is_some()),
                "crc-missing",
                "after reading to the end only {:x?} are known",
                m.known
            );
            // Take over what is known after the read into a new archive
            let es: Vec<ES> =
                g.es.iter()
                    .zip(&m.known)
                    .map(|(e, k)| ES {
                        crc: k.map_or(Crc::Unknown, Crc::Given),
                        ..e.clone()
                    })
                    .collect();
            let env = Env::new(ctl, es.len(), 0);
            let mut r = arch::builder(&env, &es)?.build();
            let b = read_all(Pin::new(&mut r), 8192, g.size())?;
            ensure!(
                b == g.bytes,
                "rebuild",
                "the archive rebuilt with known CRCs differs"
            );
            Ok(())
        },
    );
    real_files(
        ctx,
        "real files: CRCs known after seeks and reads",
        &[
            FOp::Read(8),
            FOp::Read(BIG),
            FOp::Poke(BIG),
            FOp::Clone,
            FOp::Take,
        ],
        true,
        2,
    );
}

pub fn c09(ctx: &Ctx) {
    run_graph(
        ctx,
        "graph of opens",
        fault_cfgs(
            ctx,
            PENDINGS | READ_SHORT | ERRORS,
            false,
            &[Op::Clone, Op::Take],
        ),
        depth(100_000, 4),
    );
    run_graph(
        ctx,
        "graph of opens with multi-buffer entries",
        big_cfgs(ctx, PENDINGS | ERRORS, false),
        depth(100_000, 3),
    );
    let mut gs = Vec::new();
    for mask in 0..8u32 {
        for sizes in [[3u64, 0, 2], [0, 0, 0], [1, 8193, 0], [8192, 1, 20_000]] {
            let es: Vec<ES> = (0..3)
                .map(|i| {
                    ES::pat(
                        ["a", "é", "c/"][i],
                        i as u8,
                        sizes[i],
                        if mask >> i & 1 == 1 {
                            Crc::True
                        } else {
                            Crc::Unknown
                        },
                    )
                })
                .collect();
            gs.push(golden(&es));
        }
    }
    ctx.nontrivial.fetch_add(gs.len() as u64, Ordering::Relaxed);
    ctx.tree("a sequential read opens and reads each entry once", |ctl| {
        let g = ctl.pick(&gs);
        let n = *ctl.pick(&[1usize, 2, 29, 50, 4096, 8192, BIG]);
        let large = g.size() > 2000;
        if large && n < ctx.q(4000, 29) {
            return Ok(());
        }
        let budget = if n < 29 || large && n < 4000 {
            1
        } else {
            ctx.q(2, 3)
        };
        let cfg = Arc::new(Cfg {
            g: g.clone(),
            ops: vec![],
            faults: PENDINGS | READ_SHORT,
            budget: Some(budget),
            probes: false,
        });
        let mut m = Rm::new(ctl, &cfg)?;
        while m.pos < g.size() {
            let _ = m.read(n)?;
        }
        for _ in 0..2 {
            m.apply(&Op::Read(n))?;
        }
        check_once(&m)
    });
    ctx.tree(
        "a second sequential read also opens each entry once",
        |ctl| {
            let g = ctl.pick(&gs);
            let n = *ctl.pick(&[50, 8192, BIG]);
            let cfg = Arc::new(Cfg {
                g: g.clone(),
                ops: vec![],
                faults: 0,
                budget: None,
                probes: false,
            });
            let mut m = Rm::new(ctl, &cfg)?;
            for _ in 0..2 {
                m.env.opens.borrow_mut().fill(0);
                m.env.bytes_read.borrow_mut().fill(0);
                while m.pos < g.size() {
                    let _ = m.read(n)?;
                }
                check_once(&m)?;
                m.apply(&Op::SeekPinned(0))?;
            }
            Ok(())
        },
    );
    // Seeking over unknown entries opens each of them once for the central directory,
    // with everything known nothing is opened outside of the data.
    ctx.tree("reading only the end", |ctl| {
        let g = ctl.pick(&gs);
        let offs = g.boundaries(1);
        let start = *ctl.pick(&offs);
        let n = *ctl.pick(&[1usize, 50, 8192, BIG]);
        if n < 29 && g.size() > 2000 {
            return Ok(());
        }
        let cfg = Arc::new(Cfg {
            g: g.clone(),
            ops: vec![],
            faults: 0,
            budget: None,
            probes: false,
        });
        let mut m = Rm::new(ctl, &cfg)?;
        m.apply(&Op::Seek(SeekFrom::Start(start)))?;
        while m.pos < g.size() {
            let _ = m.read(n)?;
        }
        for (i, o) in m.env.opens.borrow().iter().enumerate() {
            ensure!(
                *o <= 1,
                "opens",
                "entry {i} was opened {o} times by reading from {start} to the end"
            );
            let l = &g.lay[i];
            let known = m.cfg.g.es[i].given().is_some();
            if known && start >= l.data_end {
                ensure!(
                    *o == 0,
                    "opens",
                    "entry {i} with a known CRC before {start} was opened"
                );
            }
        }
        Ok(())
    });
    // Building and inspecting opens nothing; accesses are also judged inside Rm.
}

fn check_once(m: &Rm) -> R {
    for (i, e) in m.cfg.g.es.iter().enumerate() {
        let o = m.env.opens.borrow()[i];
        let b = m.env.bytes_read.borrow()[i];
        let want = u32::from(e.size() > 0);
        ensure!(
            o == want,
            "opens",
            "a sequential read opened entry {i} of {} bytes {o} times",
            e.size()
        );
        ensure!(
            b == e.size(),
            "reread",
            "a sequential read read {b} bytes of entry {i} of {} bytes",
            e.size()
        );
    }
    ensure!(
        m.env.live_total() == 0,
        "live-at-end",
        "an entry reader is still open at the end"
    );
    Ok(())
}

/// Two readers used alternately.
struct Two {
    a: Rm,
    b: Rm,
}

impl Machine for Two {
    fn step(&mut self, ctl: &Ctl) -> R {
        let which = ctl.choose(2);
        ctl.log(|| format!("reader {}:", ["A", "B"][which]));
        let (m, other) = if which == 0 {
            (&mut self.a, &mut self.b)
        } else {
            (&mut self.b, &mut self.a)
        };
        m.step(ctl)?;
        // The other one is not affected
        other.check_static()?;
        other.check_crcs()
    }
    fn key(&self) -> Option<u128> {
        let mut h = crate::ctl::H::new();
        self.a.write_key(&mut h);
        self.b.write_key(&mut h);
        Some(h.end())
    }
    fn probe(&mut self, _ctl: &Ctl) -> R {
        for m in [&mut self.a, &mut self.b] {
            let mut t = Pin::new(&mut m.r).take_pinned();
            m.rest_is_right(&mut t, "a reader interleaved with another")?;
        }
        Ok(())
    }
}

pub fn c10(ctx: &Ctx) {
    // Clone and take at every reachable state
    let mut cfgs = Vec::new();
    for (i, s) in shapes().iter().enumerate() {
        let g = golden(s);
        let mut ops = reads(ctx.q(
            &[1, 5, 40, BIG][..],
            &[1, 2, 3, 5, 24, 40, 75, 130, BIG][..],
        ));
        ops.extend([Op::Clone, Op::Take]);
        let offs: Vec<u64> = if ctx.quick() && i > 2 {
            g.boundaries(1)
        } else {
            (0..=g.size() + 1).collect()
        };
        ops.extend(offs.iter().map(|p| Op::Seek(SeekFrom::Start(*p))));
        ops.extend([u64::MAX, 1 << 40].map(Op::SeekMut));
        ops.extend([-3, 0, 2].map(|d| Op::Seek(SeekFrom::Current(d))));
        cfgs.push(Cfg {
            g,
            ops,
            faults: PENDINGS | READ_SHORT | ERRORS,
            budget: None,
            probes: true,
        });
    }
    run_graph(
        ctx,
        "clone and take at every reachable state",
        cfgs,
        depth(100_000, 3),
    );

    // Two readers, all interleavings
    let mut pairs = Vec::new();
    let sh = shapes();
    for (a, b) in [(1, 1), (1, 4), (4, 5), (2, 3), (6, 7), (0, 4)] {
        if ctx.quick() && pairs.len() >= 4 {
            break;
        }
        let mk = |s: &[ES]| {
            let g = golden(s);
            let mut ops = reads(ctx.q(&[20, 60, BIG][..], &[7, 20, 60, BIG][..]));
            if let Some(l) = g.lay.last() {
                for p in [
                    0,
                    l.data_start + 1,
                    l.data_end,
                    g.cd_off,
                    g.cd_off + 50,
                    g.eocd_off,
                ] {
                    ops.push(Op::Seek(SeekFrom::Start(p)));
                }
            }
            ops.push(Op::Take);
            Arc::new(Cfg {
                g,
                ops,
                faults: READ_SHORT | READ_PENDING,
                budget: None,
                probes: false,
            })
        };
        pairs.push((mk(&sh[a]), mk(&sh[b])));
    }
    ctx.nontrivial
        .fetch_add(pairs.len() as u64, Ordering::Relaxed);
    ctx.graph("two readers interleaved", depth(ctx.q(4, 6), 2), |ctl| {
        let (a, b) = ctl.pick(&pairs);
        let a = Rm::new(ctl, a)?;
        // Half of the time the second reader is a clone of the first one
        Ok(Two {
            a,
            b: Rm::new(ctl, b)?,
        })
    });
    // A reader and its clone, made at every boundary
    let gs: Vec<_> = sh.iter().map(|s| golden(s)).collect();
    ctx.nontrivial.fetch_add(gs.len() as u64, Ordering::Relaxed);
    ctx.tree("a reader and its clone interleaved", |ctl| {
        let g = ctl.pick(&gs);
        let cfg = Arc::new(Cfg {
            g: g.clone(),
            ops: vec![],
            faults: 0,
            budget: None,
            probes: false,
        });
        let mut m = Rm::new(ctl, &cfg)?;
        m.env.max_live.set(0);
        let offs = g.boundaries(1);
        m.apply(&Op::Seek(SeekFrom::Start(*ctl.pick(&offs))))?;
        let _ = m.read(1)?;
        let mut c = m.r.clone();
        let (mut pa, mut pb) = (m.pos, m.pos);
        m.env.quiet.set(true);
        let w = rm::new_waker();
        let steps = [1usize, 25, 70, BIG];
        for _ in 0..ctx.q(4, 6) {
            let first = ctl.flag();
            let n = *ctl.pick(&steps);
            let (r, p) = if first {
                (&mut m.r, &mut pa)
            } else {
                (&mut c, &mut pb)
            };
            match arch::poll_read(Pin::new(r), &w, n)? {
                arch::Out::Data(d) => {
                    let s = *p as usize;
                    ensure!(
                        s >= g.bytes.len() && d.is_empty()
                            || g.bytes.get(s..s + d.len()) == Some(&d[..]),
                        "content",
                        "interleaved readers deliver wrong bytes at {p}"
                    );
                    *p += d.len() as u64;
                }
                o => return fail("error", format!("unexpected {o:?}")),
            }
            ensure!(
                m.r.tell() == pa && c.tell() == pb,
                "tell",
                "positions of interleaved readers"
            );
        }
        m.env.quiet.set(false);
        Ok(())
    });
    real_files(
        ctx,
        "real files: clone and take",
        &[
            FOp::Read(1),
            FOp::Read(70),
            FOp::Read(BIG),
            FOp::Poke(50),
            FOp::Poke(BIG),
            FOp::Seek(35),
            FOp::Back(-2),
            FOp::Clone,
            FOp::Take,
        ],
        false,
        ctx.q(4, 5),
    );
    // Dummies
    ctx.tree("new_empty_file", |ctl| {
        let mut r = zippity::Reader::<Ed>::new_empty_file();
        rm::check_dummy(&mut r)?;
        let size = r.size();
        let at = ctl.choose(size as usize + 2) as u64;
        r.seek_from_start_mut(at);
        let mut t = Pin::new(&mut r).take_pinned();
        rm::check_dummy(&mut r)?;
        ensure!(t.tell() == at && t.size() == size, "take", "taking a dummy");
        let mut c = t.clone();
        let x = read_all(Pin::new(&mut t), 1 + ctl.choose(120), size)?;
        let y = read_all(Pin::new(&mut c), 4096, size)?;
        ensure!(
            x == y && x.len() as u64 == size.saturating_sub(at),
            "content",
            "dummy rest at {at}"
        );
        Ok(())
    });
}
