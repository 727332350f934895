//! The reader as a state machine: every operation a caller can perform, checked against
//! the golden archive, with every answer the entry sources can give.
use crate::arch::{self, Golden, Out, poll_read, read_all};
use crate::ctl::{Ctl, Fail, H, Machine, R, fail};
use crate::ensure;
use crate::env::{Ed, Env, EnvRef};
use std::collections::BTreeMap;
use std::fmt::Write;
use std::io::{ErrorKind, SeekFrom};
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::task::{Wake, Waker};
use zippity::Reader;

#[derive(Clone, Debug)]
pub enum Op {
    Read(usize),
    Seek(SeekFrom),
    SeekMut(u64),
    SeekPinned(u64),
    /// Continue with a clone
    Clone,
    /// Continue with the taken reader
    Take,
}

#[derive(Clone)]
pub struct Cfg {
    pub g: Arc<Golden>,
    pub ops: Vec<Op>,
    pub faults: u16,
    /// Deviations (non-ordinary source answers) per history, None: unlimited
    pub budget: Option<u32>,
    pub probes: bool,
}

struct CW(#[allow(dead_code)] AtomicU64);
impl Wake for CW {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}

pub fn new_waker() -> Waker {
    Waker::from(Arc::new(CW(AtomicU64::new(0))))
}

pub struct Rm {
    pub cfg: Arc<Cfg>,
    pub env: EnvRef,
    pub r: Reader<Ed>,
    pub pos: u64,
    pub known: Vec<Option<u32>>,
    pub wakers: [Waker; 2],
    pub flip: usize,
    pub last: u8,
}

impl Rm {
    pub fn new(ctl: &Ctl, cfg: &Arc<Cfg>) -> R<Rm> {
        ctl.set_budget(cfg.budget.unwrap_or(u32::MAX));
        let env = Env::new(ctl, cfg.g.es.len(), cfg.faults);
        env.poll_cap.set(200_000);
        ctl.log(|| format!("archive: {}", cfg.g.desc));
        let b = arch::builder(&env, &cfg.g.es)?;
        ensure!(
            b.size() == cfg.g.size(),
            "size",
            "Builder::size() is {} for an archive of {} bytes",
            b.size(),
            cfg.g.size()
        );
        let r = b.build();
        ensure!(
            env.opens.borrow().iter().all(|x| *x == 0),
            "opens",
            "building opened an entry"
        );
        let m = Rm {
            known: cfg.g.es.iter().map(|e| e.given()).collect(),
            cfg: cfg.clone(),
            env,
            r,
            pos: 0,
            wakers: [new_waker(), new_waker()],
            flip: 0,
            last: 0,
        };
        m.check_static()?;
        let mut m = m;
        m.check_crcs()?;
        Ok(m)
    }

    pub fn check_flags(&self) -> R {
        if let Some((c, m)) = self.env.flags.borrow().first() {
            return fail(c, m.clone());
        }
        Ok(())
    }

    pub fn check_static(&self) -> R {
        ensure!(
            self.r.size() == self.cfg.g.size(),
            "size",
            "size() is {} for an archive of {} bytes",
            self.r.size(),
            self.cfg.g.size()
        );
        ensure!(
            self.r.tell() == self.pos,
            "tell",
            "tell() is {}, but the position is {}",
            self.r.tell(),
            self.pos
        );
        ensure!(
            self.env.max_live.get() <= 1,
            "live",
            "{} entry readers were open at the same time",
            self.env.max_live.get()
        );
        self.check_flags()
    }

    /// The list of known CRCs is correct and never shrinks.
    pub fn check_crcs(&mut self) -> R {
        let known = crcs(&self.r, &self.cfg.g)?;
        for (i, k) in known.iter().enumerate() {
            if let Some(old) = self.known[i] {
                ensure!(
                    *k == Some(old),
                    "crc-lost",
                    "known CRC of entry {i} changed from {old:08x} to {k:x?}"
                );
            } else if let Some(new) = k {
                ensure!(
                    *new == self.cfg.g.crcs[i],
                    "crc-wrong",
                    "CRC of entry {i} became {new:08x}, but its content has {:08x}",
                    self.cfg.g.crcs[i]
                );
            }
        }
        self.known = known;
        Ok(())
    }

    /// Economy of opening: which entries a read of `n` bytes at `pos` may open.
    fn check_opens(&self, pos: u64, n: usize) -> R {
        let opens = self.env.opens_in_op.borrow();
        for i in opens.iter() {
            if self.known[*i].is_some() {
                let l = &self.cfg.g.lay[*i];
                let end = pos.saturating_add(n.max(1) as u64);
                ensure!(
                    pos < l.data_end && end > l.data_start,
                    "opens",
                    "entry {i} with a known CRC was opened by a read of {n} bytes at {pos}, its data is at {}..{}",
                    l.data_start,
                    l.data_end
                );
            }
        }
        // A known CRC means positioning instead of reading from the beginning
        for (i, from, len) in self.env.reads.borrow().iter() {
            let l = &self.cfg.g.lay[*i];
            if *len != u64::MAX && self.known[*i].is_some() && pos > l.data_start {
                ensure!(
                    *from >= pos - l.data_start || *len == 0,
                    "reread",
                    "data of entry {i} with a known CRC was read from {from} to get to {}",
                    pos - l.data_start
                );
            }
        }
        Ok(())
    }

    pub fn read(&mut self, n: usize) -> R<Result<usize, bool>> {
        let g = self.cfg.g.clone();
        self.flip ^= 1;
        let w = self.wakers[self.flip].clone();
        self.env.begin_op(Some(&w));
        let ctl = self.env.ctl.clone();
        let at = self.pos;
        ctl.log(|| format!("  read({n}) at {at}"));
        let out = poll_read(Pin::new(&mut self.r), &w, n)?;
        *self.env.waker.borrow_mut() = None;
        ctl.log(|| match &out {
            Out::Pending => "    -> pending".into(),
            Out::Err(e) => format!("    -> error {e}"),
            Out::Data(d) => format!("    -> {} bytes", d.len()),
        });
        let inj = self.env.errs_in_op.borrow().clone();
        let res = match out {
            Out::Pending => {
                ensure!(
                    self.env.pending_in_op.get() > 0,
                    "lost-wakeup",
                    "a read at {at} is pending, but no entry source is"
                );
                ensure!(
                    inj.is_empty(),
                    "swallowed",
                    "a source error was turned into pending"
                );
                Ok(Err(true))
            }
            Out::Err(e) => {
                let ok = inj.iter().any(|i| i.is(&e));
                if inj.is_empty() {
                    return fail(
                        "error",
                        format!("a read at {at} failed: {e} ({:?})", e.kind()),
                    );
                }
                ensure!(
                    ok,
                    "error-changed",
                    "source error {inj:?} was reported as {e} ({:?})",
                    e.kind()
                );
                Ok(Err(false))
            }
            Out::Data(d) => {
                ensure!(
                    inj.is_empty(),
                    "swallowed",
                    "source error {inj:?} was not reported, the read at {at} delivered {} bytes",
                    d.len()
                );
                let left = g.size().saturating_sub(at);
                ensure!(
                    d.len() as u64 <= left,
                    "overrun",
                    "{} bytes delivered at {at} of an archive of {} bytes",
                    d.len(),
                    g.size()
                );
                let s = at as usize;
                if !d.is_empty() && g.bytes[s..s + d.len()] != d[..] {
                    let k = (0..d.len()).find(|k| g.bytes[s + k] != d[*k]).unwrap();
                    return fail(
                        "content",
                        format!(
                            "byte {} of the archive was delivered as {:02x} instead of {:02x}",
                            s + k,
                            d[k],
                            g.bytes[s + k]
                        ),
                    );
                }
                ensure!(
                    !d.is_empty() || n == 0 || left == 0,
                    "early-eof",
                    "end of file at {at} of {}",
                    g.size()
                );
                self.pos += d.len() as u64;
                Ok(Ok(d.len()))
            }
        };
        self.check_static()?;
        self.check_opens(at, n)?;
        self.check_crcs()?;
        if self.pos >= g.size() {
            ensure!(
                self.env.live_total() == 0,
                "live-at-end",
                "an entry reader is still open after the end of the archive was delivered"
            );
        }
        res
    }

    fn no_touch(&self, what: &str) -> R {
        ensure!(
            self.env.opens_in_op.borrow().is_empty() && self.env.polls_in_op.get() == 0,
            "opens",
            "{what} touched entry sources"
        );
        Ok(())
    }

    pub fn apply(&mut self, op: &Op) -> R {
        let ctl = self.env.ctl.clone();
        if !matches!(op, Op::Read(_) | Op::Seek(_)) {
            crate::ctl::op();
        }
        match op {
            Op::Read(n) => {
                self.last = match self.read(*n)? {
                    Ok(_) => 1,
                    Err(true) => 2,
                    Err(false) => 3,
                };
                return Ok(());
            }
            Op::Seek(to) => {
                let want = match to {
                    SeekFrom::Start(x) => Some(*x),
                    SeekFrom::Current(d) => self.pos.checked_add_signed(*d),
                    SeekFrom::End(d) => self.cfg.g.size().checked_add_signed(*d),
                };
                let neg = matches!(to, SeekFrom::Current(d) | SeekFrom::End(d) if *d < 0);
                if want.is_none() && !neg {
                    // Not a representable offset
                    return Ok(());
                }
                if let (SeekFrom::Current(d), Some(w)) = (to, want) {
                    // Keeps the number of positions past the end finite
                    let near = self.cfg.g.size() + 2;
                    if w > near && (*d != i64::MAX || self.pos > near) {
                        return Ok(());
                    }
                }
                ctl.log(|| format!("  seek({to:?}) at {}", self.pos));
                self.env.begin_op(None);
                let res = arch::seek(Pin::new(&mut self.r), *to)?;
                match (want, res) {
                    (Some(p), Ok(x)) => {
                        ensure!(
                            x == p,
                            "seek",
                            "seek({to:?}) at {} reported {x} instead of {p}",
                            self.pos
                        );
                        self.pos = p;
                        self.no_touch("a seek")?;
                        ensure!(
                            self.env.live_total() == 0,
                            "live-seek",
                            "an entry reader stays open after a seek"
                        );
                    }
                    (None, Err(e)) => {
                        ensure!(
                            e.kind() == ErrorKind::InvalidInput,
                            "seek-error",
                            "seeking before the start gives {:?}",
                            e.kind()
                        );
                        self.no_touch("a rejected seek")?;
                    }
                    (Some(p), Err(e)) => {
                        return fail("seek", format!("seek({to:?}) to {p} failed: {e}"));
                    }
                    (None, Ok(x)) => {
                        return fail(
                            "seek",
                            format!("seek({to:?}) at {} succeeded with {x}", self.pos),
                        );
                    }
                }
                self.last = 4;
            }
            Op::SeekMut(p) => {
                ctl.log(|| format!("  seek_from_start_mut({p})"));
                self.env.begin_op(None);
                self.r.seek_from_start_mut(*p);
                self.pos = *p;
                self.no_touch("a seek")?;
                ensure!(
                    self.env.live_total() == 0,
                    "live-seek",
                    "an entry reader stays open after a seek"
                );
                self.last = 4;
            }
            Op::SeekPinned(p) => {
                ctl.log(|| format!("  seek_from_start_pinned({p})"));
                self.env.begin_op(None);
                Pin::new(&mut self.r).seek_from_start_pinned(*p);
                self.pos = *p;
                self.no_touch("a seek")?;
                ensure!(
                    self.env.live_total() == 0,
                    "live-seek",
                    "an entry reader stays open after a seek"
                );
                self.last = 4;
            }
            Op::Clone => {
                ctl.log(|| "  clone".into());
                self.env.begin_op(None);
                let c = self.r.clone();
                self.no_touch("cloning")?;
                self.r = c;
                self.last = 5;
            }
            Op::Take => {
                ctl.log(|| "  take_pinned".into());
                self.env.begin_op(None);
                let t = Pin::new(&mut self.r).take_pinned();
                self.no_touch("taking")?;
                ensure!(
                    self.env.live_total() == 0,
                    "live-take",
                    "an entry reader stays open after taking"
                );
                check_dummy(&mut self.r)?;
                // What is left behind is a dummy, which holds on to nothing
                ensure!(
                    self.env.opening.get() == 0,
                    "live-take",
                    "the future opening an entry stays around after taking"
                );
                self.r = t;
                self.last = 6;
            }
        }
        self.check_static()?;
        self.check_crcs()
    }

    /// The remaining output of `r`, all sources answering at once.
    pub fn rest_is_right(&self, r: &mut Reader<Ed>, what: &str) -> R {
        let g = &self.cfg.g;
        self.env.quiet.set(true);
        let rest = read_all(Pin::new(r), 4096, g.size());
        self.env.quiet.set(false);
        let rest = rest.map_err(|f| Fail {
            sig: f.sig,
            msg: format!("{what}: {}", f.msg),
        })?;
        let at = (self.pos as usize).min(g.bytes.len());
        ensure!(
            rest[..] == g.bytes[at..],
            "content",
            "{what} at {} delivers other bytes than the archive ({} instead of {})",
            self.pos,
            rest.len(),
            g.bytes.len() - at
        );
        Ok(())
    }
}

pub fn crcs(r: &Reader<Ed>, g: &Golden) -> R<Vec<Option<u32>>> {
    let mut m: BTreeMap<&str, u32> = BTreeMap::new();
    for (n, c) in r.crc32s() {
        ensure!(
            m.insert(n, c).is_none(),
            "crc-list",
            "entry {n:?} is listed twice in the known CRCs"
        );
    }
    let v: Vec<Option<u32>> = g.es.iter().map(|e| m.remove(e.name.as_str())).collect();
    ensure!(
        m.is_empty(),
        "crc-list",
        "unknown entries in the known CRCs: {m:?}"
    );
    Ok(v)
}

/// What `take_pinned` leaves behind is a fresh reader of a valid empty archive.
pub fn check_dummy<D: zippity::EntryData>(r: &mut Reader<D>) -> R {
    ensure!(
        r.tell() == 0,
        "dummy",
        "the reader left behind is at {}",
        r.tell()
    );
    ensure!(
        r.crc32s().next().is_none(),
        "dummy",
        "the reader left behind knows CRCs"
    );
    let size = r.size();
    let mut p = unsafe { Pin::new_unchecked(r) };
    let b = read_all(p.as_mut(), 4096, size)?;
    ensure!(
        b.len() as u64 == size,
        "dummy",
        "the reader left behind delivers {} of {size} bytes",
        b.len()
    );
    crate::zipck::check(&mut &b[..], &[])?;
    p.as_mut().seek_from_start_pinned(0);
    Ok(())
}

impl Machine for Rm {
    fn step(&mut self, ctl: &Ctl) -> R {
        let cfg = self.cfg.clone();
        let op = ctl.pick(&cfg.ops);
        self.apply(op)
    }
    fn key(&self) -> Option<u128> {
        let mut h = H::new();
        let _ = write!(h, "{:p}|", &*self.cfg.g);
        self.write_key(&mut h);
        Some(h.end())
    }
    fn probe(&mut self, ctl: &Ctl) -> R {
        if !self.cfg.probes {
            return Ok(());
        }
        self.probe_all(ctl)
    }
}

impl Rm {
    pub fn write_key(&self, h: &mut H) {
        let _ = write!(h, "{}|{:?}|{}|", self.pos, self.known, self.last_key());
        let _ = write!(h, "{:?}|", self.env.live.borrow());
        #[cfg(zippity_verif)]
        {
            let _ = self.r.verif_state(h);
        }
    }
    /// Without the hook the last operation's result stands in for the invisible part of the state.
    fn last_key(&self) -> u8 {
        if cfg!(zippity_verif) { 0 } else { self.last }
    }

    pub fn probe_all(&mut self, ctl: &Ctl) -> R {
        ctl.log(|| "  (probing clone and take)".into());
        self.env.begin_op(None);
        let mut c = self.r.clone();
        self.no_touch("cloning")?;
        ensure!(
            c.size() == self.r.size() && c.tell() == self.pos,
            "clone",
            "a clone has size {} and position {} instead of {} and {}",
            c.size(),
            c.tell(),
            self.r.size(),
            self.pos
        );
        ensure!(
            crcs(&c, &self.cfg.g)? == self.known,
            "clone",
            "a clone knows different CRCs"
        );
        self.rest_is_right(&mut c, "a clone")?;
        let after = crcs(&c, &self.cfg.g)?;
        for (i, k) in after.iter().enumerate() {
            ensure!(
                k.is_none_or(|k| k == self.known[i].unwrap_or(self.cfg.g.crcs[i])),
                "crc-wrong",
                "a clone computed {k:08x?} as the CRC of entry {i}"
            );
        }
        drop(c);
        // Using the clone has not changed the original
        self.check_static()?;
        self.check_crcs()?;
        let mut t = Pin::new(&mut self.r).take_pinned();
        check_dummy(&mut self.r)?;
        ensure!(
            t.size() == self.cfg.g.size() && t.tell() == self.pos,
            "take",
            "a taken reader has size {} and position {} instead of {} and {}",
            t.size(),
            t.tell(),
            self.cfg.g.size(),
            self.pos
        );
        ensure!(
            crcs(&t, &self.cfg.g)? == self.known,
            "take",
            "a taken reader knows different CRCs"
        );
        ensure!(
            self.env.live_total() == 0,
            "live-take",
            "an entry reader stays open after taking"
        );
        self.rest_is_right(&mut t, "a taken reader")?;
        std::mem::swap(&mut self.r, &mut t);
        Ok(())
    }
}
