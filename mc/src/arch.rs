//! Archive specifications, building them with the real builder, and their golden bytes.
use crate::ctl::{Ctl, R, fail};
use crate::ensure;
use crate::env::{Content, Ed, Env, EnvRef};
use crate::zipck::{self, Checked, Want};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{Builder, EntryData, Reader};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Crc {
    Unknown,
    True,
    Given(u32),
}

#[derive(Clone)]
pub struct ES {
    pub name: String,
    pub content: Content,
    /// Size the source claims, if different from the content
    pub declared: Option<u64>,
    pub crc: Crc,
}

impl ES {
    pub fn new(name: &str, content: &[u8], crc: Crc) -> ES {
        ES {
            name: name.into(),
            content: Content::new(content),
            declared: None,
            crc,
        }
    }
    pub fn pat(name: &str, seed: u8, len: u64, crc: Crc) -> ES {
        ES {
            name: name.into(),
            content: Content::Pattern { seed, len },
            declared: None,
            crc,
        }
    }
    pub fn size(&self) -> u64 {
        self.declared.unwrap_or(self.content.len())
    }
    pub fn given(&self) -> Option<u32> {
        match self.crc {
            Crc::Unknown => None,
            Crc::True => Some(self.content.crc()),
            Crc::Given(x) => Some(x),
        }
    }
}

pub fn describe(es: &[ES]) -> String {
    es.iter()
        .map(|e| {
            let n = if e.name.len() > 20 {
                format!("<{} byte name>", e.name.len())
            } else {
                format!("{:?}", e.name)
            };
            let d = match e.declared {
                Some(d) => format!(" declared {d}"),
                None => String::new(),
            };
            format!("{n}:{} B{d} crc {:?}", e.content.len(), e.crc)
        })
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn builder(env: &EnvRef, es: &[ES]) -> R<Builder<Ed>> {
    let mut b = Builder::<Ed>::new();
    for (idx, e) in es.iter().enumerate() {
        let ed = Ed {
            env: env.clone(),
            idx,
            declared: e.size(),
            content: e.content.clone(),
        };
        match b.add_entry(e.name.clone(), ed) {
            Ok(be) => {
                if let Some(c) = e.given() {
                    be.crc32(c);
                }
            }
            Err(x) => {
                return fail(
                    "add",
                    format!("adding {} was refused: {x}", describe(&es[idx..=idx])),
                );
            }
        }
    }
    Ok(b)
}

#[derive(Debug)]
pub enum Out {
    Pending,
    /// Bytes
    Data(Vec<u8>),
    Err(std::io::Error),
}

const SENTINEL: &[u8] = &[0xa5, 0x5a, 0xc3];

/// One `poll_read` with room for `n` bytes, checking the buffer discipline.
pub fn poll_read<A: AsyncRead + ?Sized>(mut r: Pin<&mut A>, w: &Waker, n: usize) -> R<Out> {
    crate::ctl::op();
    let mut storage = vec![0xEEu8; SENTINEL.len() + n];
    let mut buf = ReadBuf::new(&mut storage);
    buf.put_slice(SENTINEL);
    let res = r.as_mut().poll_read(&mut Context::from_waker(w), &mut buf);
    let filled = buf.filled();
    ensure!(
        filled.len() >= SENTINEL.len() && &filled[..SENTINEL.len()] == SENTINEL,
        "buffer",
        "bytes that were in the caller's buffer were changed by reading"
    );
    let new = filled[SENTINEL.len()..].to_vec();
    Ok(match res {
        Poll::Pending => {
            ensure!(
                new.is_empty(),
                "pending-data",
                "{} bytes delivered by a pending read",
                new.len()
            );
            Out::Pending
        }
        Poll::Ready(Err(e)) => {
            ensure!(
                new.is_empty(),
                "error-data",
                "{} bytes delivered by a read failing with {e}",
                new.len()
            );
            Out::Err(e)
        }
        Poll::Ready(Ok(())) => Out::Data(new),
    })
}

/// Reads to the end with a buffer of `n` bytes; pending and errors are not expected.
pub fn read_all<A: AsyncRead + ?Sized>(mut r: Pin<&mut A>, n: usize, limit: u64) -> R<Vec<u8>> {
    let mut out = Vec::new();
    let w = Waker::noop();
    loop {
        match poll_read(r.as_mut(), w, n)? {
            Out::Pending => {
                return fail(
                    "pending",
                    format!("pending at {} although all sources are ready", out.len()),
                );
            }
            Out::Err(e) => return fail("error", format!("reading failed at {}: {e}", out.len())),
            Out::Data(d) => {
                ensure!(d.len() <= n, "overfull", "{} bytes read into {n}", d.len());
                if d.is_empty() {
                    return Ok(out);
                }
                out.extend_from_slice(&d);
                ensure!(
                    out.len() as u64 <= limit,
                    "overrun",
                    "more than {limit} bytes delivered"
                );
            }
        }
    }
}

pub fn seek<D: EntryData>(
    r: Pin<&mut Reader<D>>,
    to: std::io::SeekFrom,
) -> R<std::io::Result<u64>> {
    crate::ctl::op();
    let mut r = r;
    if let Err(e) = AsyncSeek::start_seek(r.as_mut(), to) {
        return Ok(Err(e));
    }
    match AsyncSeek::poll_complete(r.as_mut(), &mut Context::from_waker(Waker::noop())) {
        Poll::Ready(x) => Ok(x),
        Poll::Pending => fail("seek-pending", "completing a seek is pending"),
    }
}

/// Archive bytes with the layout found by the independent checker.
pub struct Golden {
    pub es: Vec<ES>,
    pub bytes: Vec<u8>,
    pub lay: Vec<zipck::Lay>,
    pub cd_off: u64,
    pub eocd_off: u64,
    pub crcs: Vec<u32>,
    pub desc: String,
}

pub fn wants(es: &[ES]) -> Vec<Want<'_>> {
    es.iter()
        .map(|e| Want {
            name: &e.name,
            content: &e.content,
            crc: e.content.crc(),
            check_content: true,
        })
        .collect()
}

impl Golden {
    pub fn new(es: &[ES]) -> R<Golden> {
        // CRC knowledge and wrong declarations must not influence the golden bytes
        let honest: Vec<ES> = es
            .iter()
            .map(|e| ES {
                declared: None,
                crc: Crc::Unknown,
                ..e.clone()
            })
            .collect();
        let ctl = Ctl::new(vec![], false);
        let env = Env::new(&ctl, es.len(), 0);
        let b = builder(&env, &honest)?;
        let size = b.size();
        let mut r = b.build();
        let bytes = read_all(Pin::new(&mut r), 1 << 16, size)?;
        ensure!(
            bytes.len() as u64 == size,
            "size",
            "{} bytes read instead of {size}",
            bytes.len()
        );
        let Checked {
            lay,
            cd_off,
            eocd_off,
        } = zipck::check(&mut &bytes[..], &wants(&honest))?;
        Ok(Golden {
            desc: describe(es),
            crcs: es.iter().map(|e| e.content.crc()).collect(),
            es: es.to_vec(),
            bytes,
            lay,
            cd_off,
            eocd_off,
        })
    }
    pub fn size(&self) -> u64 {
        self.bytes.len() as u64
    }
    /// Offsets around every boundary
    pub fn boundaries(&self, delta: u64) -> Vec<u64> {
        let mut base = vec![
            0,
            self.cd_off,
            self.eocd_off,
            self.size(),
            self.eocd_off + 56,
            self.eocd_off + 76,
        ];
        for l in &self.lay {
            base.extend([
                l.start,
                l.start + 30,
                l.data_start,
                l.data_end,
                l.end,
                l.cd_start,
                l.cd_start + 46,
            ]);
            base.push((l.data_start + l.data_end) / 2);
        }
        let mut v = Vec::new();
        for b in base {
            for d in 0..=delta {
                v.push(b.saturating_sub(d));
                v.push(b + d);
            }
        }
        v.sort();
        v.dedup();
        v.retain(|x| *x <= self.size() + 2);
        v
    }
}

/// Random access to the archive of a reader, through seeking and reading.
pub struct SeekSrc<'a, D: EntryData> {
    pub r: Pin<&'a mut Reader<D>>,
    pub chunk: usize,
}

impl<D: EntryData> zipck::Src for SeekSrc<'_, D> {
    fn size(&self) -> u64 {
        self.r.size()
    }
    fn get(&mut self, at: u64, len: usize) -> R<Vec<u8>> {
        let size = self.r.size();
        match at.checked_add(len as u64) {
            Some(e) if e <= size => {}
            _ => {
                return fail(
                    "zip",
                    format!("structure at {at}+{len} is outside of the archive of {size} bytes"),
                );
            }
        }
        self.r.as_mut().seek_from_start_pinned(at);
        let mut out = Vec::new();
        while out.len() < len {
            ensure!(
                self.r.tell() == at + out.len() as u64,
                "tell",
                "tell() is {} instead of {}",
                self.r.tell(),
                at + out.len() as u64
            );
            match poll_read(
                self.r.as_mut(),
                Waker::noop(),
                (len - out.len()).min(self.chunk),
            )? {
                Out::Pending => {
                    return fail(
                        "pending",
                        format!("pending at {at} although all sources are ready"),
                    );
                }
                Out::Err(e) => {
                    return fail("error", format!("reading {len} bytes at {at} failed: {e}"));
                }
                Out::Data(d) => {
                    ensure!(
                        !d.is_empty(),
                        "early-eof",
                        "end of file at {} of {size}",
                        at + out.len() as u64
                    );
                    out.extend_from_slice(&d);
                }
            }
        }
        Ok(out)
    }
}
