//! Independent strict ZIP checker. Knows nothing about how zippity lays out its archives;
//! every field has to be consistent with the others and with the entries that were added.
use crate::ctl::{Fail, R, fail};
use crate::ensure;
use crate::env::Content;

#[derive(Clone, Debug, Default)]
pub struct Lay {
    pub start: u64,
    pub data_start: u64,
    pub data_end: u64,
    pub end: u64,
    pub cd_start: u64,
    pub cd_end: u64,
    pub datetime: u32,
    pub external: u32,
    pub crc: u32,
    pub size: u64,
    pub name: Vec<u8>,
}

/// Expected entry.
pub struct Want<'a> {
    pub name: &'a str,
    pub content: &'a Content,
    /// None: too large to compute, the recorded one has to be this
    pub crc: u32,
    pub check_content: bool,
}

/// Random access to archive bytes.
pub trait Src {
    fn size(&self) -> u64;
    fn get(&mut self, at: u64, len: usize) -> R<Vec<u8>>;
}

impl Src for &[u8] {
    fn size(&self) -> u64 {
        self.len() as u64
    }
    fn get(&mut self, at: u64, len: usize) -> R<Vec<u8>> {
        let b = usize::try_from(at)
            .ok()
            .and_then(|a| a.checked_add(len).map(|e| (a, e)))
            .and_then(|(a, e)| <[u8]>::get(self, a..e));
        match b {
            Some(b) => Ok(b.to_vec()),
            None => fail(
                "zip",
                format!("structure at {at}+{len} is outside of the archive"),
            ),
        }
    }
}

fn u16at(b: &[u8], i: usize) -> u16 {
    u16::from_le_bytes(b[i..i + 2].try_into().unwrap())
}
fn u32at(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes(b[i..i + 4].try_into().unwrap())
}
fn u64at(b: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(b[i..i + 8].try_into().unwrap())
}

/// Payload of the only zip64 extra field
fn zip64_extra(extra: &[u8], ctx: &str) -> R<Option<Vec<u8>>> {
    let mut i = 0;
    let mut found = None;
    while i < extra.len() {
        ensure!(extra.len() - i >= 4, "zip", "{ctx}: truncated extra field");
        let tag = u16at(extra, i);
        let len = u16at(extra, i + 2) as usize;
        ensure!(
            extra.len() - i - 4 >= len,
            "zip",
            "{ctx}: extra field {tag:#x} of length {len} overruns the extra area"
        );
        if tag == 1 {
            ensure!(found.is_none(), "zip", "{ctx}: two zip64 extra fields");
            found = Some(extra[i + 4..i + 4 + len].to_vec());
        }
        i += 4 + len;
    }
    Ok(found)
}

pub struct Checked {
    pub lay: Vec<Lay>,
    pub cd_off: u64,
    pub eocd_off: u64,
}

/// Checks the whole archive.
pub fn check(src: &mut dyn Src, want: &[Want]) -> R<Checked> {
    let total = src.size();
    ensure!(
        total >= 22,
        "zip",
        "archive of {total} bytes has no room for its end record"
    );
    // End of central directory
    let eocd_at = total - 22;
    let e = src.get(eocd_at, 22)?;
    ensure!(
        u32at(&e, 0) == 0x0605_4b50,
        "zip",
        "no end of central directory at {eocd_at}"
    );
    ensure!(
        u16at(&e, 4) == 0 || u16at(&e, 4) == 0xffff,
        "zip",
        "EOCD disk number"
    );
    ensure!(
        u16at(&e, 6) == 0 || u16at(&e, 6) == 0xffff,
        "zip",
        "EOCD cd disk number"
    );
    ensure!(
        u16at(&e, 20) == 0,
        "zip",
        "EOCD comment length {}",
        u16at(&e, 20)
    );
    ensure!(total >= 42, "zip", "no room for the zip64 locator");
    let l = src.get(eocd_at - 20, 20)?;
    ensure!(u32at(&l, 0) == 0x0706_4b50, "zip", "no zip64 locator");
    ensure!(u32at(&l, 4) == 0, "zip", "locator disk {}", u32at(&l, 4));
    ensure!(
        u32at(&l, 16) == 1,
        "zip",
        "locator number of disks {}",
        u32at(&l, 16)
    );
    let z_at = u64at(&l, 8);
    ensure!(
        z_at.checked_add(56).is_some_and(|x| x <= eocd_at - 20),
        "zip",
        "locator points to {z_at} of {total}"
    );
    let z = src.get(z_at, 56)?;
    ensure!(
        u32at(&z, 0) == 0x0606_4b50,
        "zip",
        "no zip64 end record at {z_at}"
    );
    let zlen = u64at(&z, 4);
    ensure!(
        z_at.checked_add(12).and_then(|x| x.checked_add(zlen)) == Some(eocd_at - 20),
        "zip",
        "zip64 end record length {zlen} doesn't lead to the locator"
    );
    ensure!(
        z[12] >= 45 && z[12] < 64,
        "zip",
        "zip64 EOCD version made by {}",
        z[12]
    );
    let v_needed = u16at(&z, 14);
    ensure!(
        v_needed == 45,
        "zip",
        "zip64 EOCD version needed {v_needed}"
    );
    ensure!(
        u32at(&z, 16) == 0 && u32at(&z, 20) == 0,
        "zip",
        "zip64 EOCD disk numbers"
    );
    let n = want.len() as u64;
    ensure!(
        u64at(&z, 24) == n && u64at(&z, 32) == n,
        "zip",
        "zip64 EOCD counts {} and {} instead of {n}",
        u64at(&z, 24),
        u64at(&z, 32)
    );
    let cd_size = u64at(&z, 40);
    let cd_off = u64at(&z, 48);
    ensure!(
        cd_off.checked_add(cd_size) == Some(z_at),
        "zip",
        "central directory {cd_off}+{cd_size} doesn't end at {z_at}"
    );
    let n16 = |v: u16, t: u64| v == 0xffff || v as u64 == t;
    let n32 = |v: u32, t: u64| v == u32::MAX || v as u64 == t;
    ensure!(
        n16(u16at(&e, 8), n)
            && n16(u16at(&e, 10), n)
            && n32(u32at(&e, 12), cd_size)
            && n32(u32at(&e, 16), cd_off),
        "zip",
        "EOCD disagrees with the zip64 record"
    );
    // Central directory
    let mut at = cd_off;
    let mut lay = Vec::with_capacity(want.len());
    let mut lfh_at = 0u64;
    for (i, w) in want.iter().enumerate() {
        let mut y = Lay {
            cd_start: at,
            ..Default::default()
        };
        let h = src.get(at, 46)?;
        let c = format!("central header {i}");
        ensure!(u32at(&h, 0) == 0x0201_4b50, "zip", "{c}: signature at {at}");
        ensure!(
            h[4] >= 45 && h[4] < 64,
            "zip",
            "{c}: version made by {}",
            h[4]
        );
        ensure!(h[5] == 3, "zip", "{c}: made by host {}, not unix", h[5]);
        ensure!(
            u16at(&h, 6) == 45,
            "zip",
            "{c}: version needed {}",
            u16at(&h, 6)
        );
        let cflags = u16at(&h, 8);
        ensure!(
            cflags & 0x800 != 0,
            "zip",
            "{c}: name is not marked as UTF-8"
        );
        ensure!(cflags & !0x808 == 0, "zip", "{c}: flags {cflags:#x}");
        ensure!(
            u16at(&h, 10) == 0,
            "zip",
            "{c}: compression {}",
            u16at(&h, 10)
        );
        y.datetime = u32at(&h, 12);
        y.crc = u32at(&h, 16);
        let (nl, xl, cl) = (u16at(&h, 28), u16at(&h, 30), u16at(&h, 32));
        ensure!(cl == 0, "zip", "{c}: comment length {cl}");
        ensure!(u16at(&h, 34) == 0, "zip", "{c}: disk number");
        ensure!(
            u16at(&h, 36) & 0xfffe == 0,
            "zip",
            "{c}: internal attributes"
        );
        y.external = u32at(&h, 38);
        ensure!(
            nl as usize == w.name.len(),
            "zip",
            "{c}: name length {nl} instead of {}",
            w.name.len()
        );
        let rest = src.get(at + 46, nl as usize + xl as usize)?;
        ensure!(
            &rest[..nl as usize] == w.name.as_bytes(),
            "zip",
            "{c}: name {:?} instead of {:?}",
            String::from_utf8_lossy(&rest[..nl as usize]),
            w.name
        );
        y.name = rest[..nl as usize].to_vec();
        let x = zip64_extra(&rest[nl as usize..], &c)?;
        let mut xi = x.as_deref().unwrap_or(&[]);
        let mut take = |v: u32, what: &str| -> R<u64> {
            if v != u32::MAX {
                return Ok(v as u64);
            }
            if xi.len() < 8 {
                return fail("zip", format!("{c}: zip64 value of {what} is missing"));
            }
            let r = u64at(xi, 0);
            xi = &xi[8..];
            Ok(r)
        };
        let usz = take(u32at(&h, 24), "uncompressed size")?;
        let csz = take(u32at(&h, 20), "compressed size")?;
        let off = take(u32at(&h, 42), "offset")?;
        ensure!(xi.is_empty(), "zip", "{c}: unused zip64 values");
        let size = w.content.len();
        ensure!(
            usz == size && csz == size,
            "zip",
            "{c}: sizes {usz}/{csz} instead of {size}"
        );
        ensure!(
            y.crc == w.crc,
            "zip",
            "{c}: CRC {:08x} instead of {:08x}",
            y.crc,
            w.crc
        );
        ensure!(
            off == lfh_at,
            "zip",
            "{c}: local header offset {off} instead of {lfh_at}"
        );
        y.cd_end = at + 46 + nl as u64 + xl as u64;
        at = y.cd_end;
        y.size = size;

        // Local part
        let h = src.get(off, 30)?;
        let c = format!("local header {i}");
        ensure!(
            u32at(&h, 0) == 0x0403_4b50,
            "zip",
            "{c}: signature at {off}"
        );
        ensure!(
            u16at(&h, 4) == 45,
            "zip",
            "{c}: version needed {}",
            u16at(&h, 4)
        );
        let flags = u16at(&h, 6);
        ensure!(
            flags & 0x800 != 0,
            "zip",
            "{c}: name is not marked as UTF-8"
        );
        ensure!(
            flags & 8 != 0,
            "zip",
            "{c}: no data descriptor announced (flags {flags:#x})"
        );
        ensure!(flags & !0x808 == 0, "zip", "{c}: flags {flags:#x}");
        ensure!(
            u16at(&h, 8) == 0,
            "zip",
            "{c}: compression {}",
            u16at(&h, 8)
        );
        ensure!(
            u32at(&h, 10) == y.datetime,
            "zip",
            "{c}: datetime {:08x} differs from central {:08x}",
            u32at(&h, 10),
            y.datetime
        );
        let lcrc = u32at(&h, 14);
        ensure!(lcrc == 0 || lcrc == w.crc, "zip", "{c}: CRC {lcrc:08x}");
        let (lc, lu) = (u32at(&h, 18), u32at(&h, 22));
        let (nl, xl) = (u16at(&h, 26), u16at(&h, 28));
        ensure!(nl as usize == w.name.len(), "zip", "{c}: name length {nl}");
        let rest = src.get(off + 30, nl as usize + xl as usize)?;
        ensure!(
            &rest[..nl as usize] == w.name.as_bytes(),
            "zip",
            "{c}: name differs"
        );
        let x = zip64_extra(&rest[nl as usize..], &c)?;
        let has64 = x.is_some();
        let x = x.unwrap_or_default();
        // A 64 bit data descriptor is only to be expected if the zip64 extra field is here
        ensure!(
            has64,
            "zip",
            "{c}: no zip64 extra field, but a 64-bit data descriptor"
        );
        ensure!(
            x.len() >= 16,
            "zip",
            "{c}: zip64 extra field of {} bytes doesn't contain both sizes",
            x.len()
        );
        for (v32, v64) in [(lu, u64at(&x, 0)), (lc, u64at(&x, 8))] {
            ensure!(
                v32 == u32::MAX,
                "zip",
                "{c}: size {v32} besides a zip64 extra field"
            );
            ensure!(v64 == 0 || v64 == size, "zip", "{c}: zip64 size {v64}");
        }
        if x.len() >= 24 {
            ensure!(
                u64at(&x, 16) == off,
                "zip",
                "{c}: zip64 offset {} at {off}",
                u64at(&x, 16)
            );
        }
        if x.len() >= 28 {
            ensure!(u32at(&x, 24) == 0, "zip", "{c}: zip64 disk number");
        }
        ensure!(
            x.len() == 16 || x.len() == 24 || x.len() == 28,
            "zip",
            "{c}: zip64 extra length"
        );
        y.start = off;
        y.data_start = off + 30 + nl as u64 + xl as u64;
        let Some(data_end) = y.data_start.checked_add(size) else {
            return fail("zip", format!("{c}: data overflows"));
        };
        y.data_end = data_end;
        // Content
        if w.check_content {
            let mut p = 0;
            while p < size {
                let n = (size - p).min(1 << 20) as usize;
                let got = src.get(y.data_start + p, n)?;
                for (k, g) in got.iter().enumerate() {
                    if *g != w.content.at(p + k as u64) {
                        return Err(Fail {
                            sig: "zip".into(),
                            msg: format!("entry {i}: wrong content byte {}", p + k as u64),
                        });
                    }
                }
                p += n as u64;
            }
        }
        let d = src.get(y.data_end, 24)?;
        let c = format!("data descriptor {i}");
        ensure!(
            u32at(&d, 0) == 0x0807_4b50,
            "zip",
            "{c}: signature at {}",
            y.data_end
        );
        ensure!(
            u32at(&d, 4) == w.crc,
            "zip",
            "{c}: CRC {:08x} instead of {:08x}",
            u32at(&d, 4),
            w.crc
        );
        ensure!(
            u64at(&d, 8) == size && u64at(&d, 16) == size,
            "zip",
            "{c}: sizes {}/{} instead of {size}",
            u64at(&d, 8),
            u64at(&d, 16)
        );
        y.end = y.data_end + 24;
        lfh_at = y.end;
        lay.push(y);
    }
    ensure!(
        at == z_at,
        "zip",
        "central directory ends at {at}, not {z_at}"
    );
    ensure!(
        lfh_at == cd_off,
        "zip",
        "entries end at {lfh_at}, central directory starts at {cd_off}"
    );
    Ok(Checked {
        lay,
        cd_off,
        eocd_off: z_at,
    })
}
