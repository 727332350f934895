//! C14, C15, C18: the stream of chunks and HTTP responses.
use crate::arch::{self, Crc, ES, Golden, Out, poll_read, read_all};
use crate::checks_reader::{golden, shapes};
use crate::ctl::{Ctl, Ctx, H, Machine, R, fail, op};
use crate::ensure;
use crate::env::*;
use crate::rm::{check_dummy, crcs, new_waker};
use actix_web::body::{BodySize, BoxBody, MessageBody};
use actix_web::http::header::{HeaderValue, RANGE};
use actix_web::{HttpResponse, Responder};
use futures_core::Stream;
use std::fmt::Write;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::Ordering;
use std::task::{Context, Poll, Waker};
use zippity::{ActixWebAdapter, BytesStream, EntryData, Reader};

// ----------------------------------------------------------------------------- the responses

pub fn respond<D: EntryData + 'static>(
    a: ActixWebAdapter<D>,
    range: Option<&[u8]>,
) -> R<HttpResponse<BoxBody>> {
    op();
    let mut req = actix_web::test::TestRequest::default();
    if let Some(r) = range {
        let Ok(v) = HeaderValue::from_bytes(r) else {
            std::panic::panic_any(crate::ctl::Machinery(format!("bad header value {r:?}")));
        };
        req = req.insert_header((RANGE, v));
    }
    Ok(a.respond_to(&req.to_http_request()))
}

fn header<'a>(r: &'a HttpResponse<BoxBody>, name: &str) -> R<Option<&'a str>> {
    let mut all = r.headers().get_all(name);
    let Some(v) = all.next() else { return Ok(None) };
    ensure!(
        all.next().is_none(),
        "headers",
        "{name} is sent more than once"
    );
    match v.to_str() {
        Ok(v) => Ok(Some(v)),
        Err(_) => fail("headers", format!("{name} is not text")),
    }
}

/// What has to be served.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Expect {
    Whole,
    Part(u64, u64),
    Unsatisfiable,
    Bad,
}

/// Checks everything but the body; the offset and length of the body to come.
fn check_head(resp: &HttpResponse<BoxBody>, size: u64, e: Expect) -> R<Option<(u64, u64)>> {
    let st = resp.status().as_u16();
    let len = header(resp, "content-length")?;
    let cr = header(resp, "content-range")?;
    let (offset, length) = match e {
        Expect::Bad => {
            ensure!(st == 400, "status", "status {st} instead of 400");
            return Ok(None);
        }
        Expect::Unsatisfiable => {
            ensure!(st == 416, "status", "status {st} instead of 416");
            let want = format!("bytes */{size}");
            ensure!(
                cr == Some(&want[..]),
                "headers",
                "Content-Range of a 416 response is {cr:?} instead of {want:?}"
            );
            return Ok(None);
        }
        Expect::Whole => {
            ensure!(st == 200, "status", "status {st} instead of 200");
            ensure!(
                cr.is_none(),
                "headers",
                "Content-Range {cr:?} without a range request"
            );
            (0, size)
        }
        Expect::Part(a, b) => {
            let all = a == 0 && b + 1 == size;
            ensure!(
                st == 206 || (all && st == 200),
                "status",
                "status {st} instead of 206 for bytes {a}-{b} of {size}"
            );
            if st == 206 || cr.is_some() {
                let want = format!("bytes {a}-{b}/{size}");
                ensure!(
                    cr == Some(&want[..]),
                    "headers",
                    "Content-Range {cr:?} instead of {want:?}"
                );
            }
            (a, b - a + 1)
        }
    };
    ensure!(
        len == Some(&length.to_string()[..]),
        "headers",
        "Content-Length is {len:?} instead of {length}"
    );
    ensure!(
        header(resp, "content-type")? == Some("application/zip"),
        "headers",
        "Content-Type is {:?}",
        header(resp, "content-type")?
    );
    ensure!(
        header(resp, "accept-ranges")? == Some("bytes"),
        "headers",
        "Accept-Ranges is {:?}",
        header(resp, "accept-ranges")?
    );
    let bs = resp.body().size();
    ensure!(
        bs == BodySize::Sized(length),
        "headers",
        "the body announces {bs:?} instead of {length} bytes"
    );
    Ok(Some((offset, length)))
}

#[derive(Debug)]
enum Chunk {
    Pending,
    Data(Vec<u8>),
    Err(String),
    End,
}

fn poll_body(body: &mut Pin<Box<BoxBody>>, w: &Waker) -> R<Chunk> {
    op();
    Ok(match body.as_mut().poll_next(&mut Context::from_waker(w)) {
        Poll::Pending => Chunk::Pending,
        Poll::Ready(None) => Chunk::End,
        Poll::Ready(Some(Ok(b))) => {
            ensure!(
                !b.is_empty(),
                "empty-chunk",
                "an empty chunk in a response body"
            );
            Chunk::Data(b.to_vec())
        }
        Poll::Ready(Some(Err(e))) => Chunk::Err(e.to_string()),
    })
}

/// The complete body when all sources answer at once.
fn body_of(resp: HttpResponse<BoxBody>, limit: u64) -> R<Vec<u8>> {
    let mut b = Box::pin(resp.into_body());
    let mut v = Vec::new();
    loop {
        match poll_body(&mut b, Waker::noop())? {
            Chunk::Pending => {
                return fail(
                    "pending",
                    "a body is pending although all sources are ready",
                );
            }
            Chunk::Err(e) => return fail("error", format!("a body failed: {e}")),
            Chunk::End => break,
            Chunk::Data(d) => v.extend_from_slice(&d),
        }
        ensure!(
            v.len() as u64 <= limit,
            "body-size",
            "the body has more than the announced {limit} bytes"
        );
    }
    ensure!(
        matches!(poll_body(&mut b, Waker::noop())?, Chunk::End),
        "body-size",
        "a body goes on after its end"
    );
    Ok(v)
}

fn check_response(resp: HttpResponse<BoxBody>, g: &Golden, e: Expect) -> R {
    match check_head(&resp, g.size(), e)? {
        None => {
            let b = body_of(resp, 0)?;
            ensure!(
                b.is_empty(),
                "body-size",
                "a refused request has a body of {} bytes",
                b.len()
            );
        }
        Some((o, l)) => {
            let b = body_of(resp, l)?;
            ensure!(
                b.len() as u64 == l,
                "body-size",
                "the body has {} bytes instead of {l}",
                b.len()
            );
            ensure!(
                b[..] == g.bytes[o as usize..(o + l) as usize],
                "content",
                "the body differs from bytes {o}+{l} of the archive"
            );
        }
    }
    Ok(())
}

fn fresh(ctl: &Ctl, g: &Golden, faults: u16) -> R<(EnvRef, Reader<Ed>)> {
    let env = Env::new(ctl, g.es.len(), faults);
    let r = arch::builder(&env, &g.es)?.build();
    Ok((env, r))
}

/// Meaning of a single range specification of a well-formed header.
fn meaning(spec: &str, size: u64) -> Option<Expect> {
    let (a, b) = spec.split_once('-')?;
    let num = |s: &str| -> Option<u64> {
        if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        Some(s.parse().unwrap_or(u64::MAX))
    };
    if a.is_empty() {
        let n = num(b)?;
        return Some(match n {
            0 => Expect::Unsatisfiable,
            n if n <= size => Expect::Part(size - n, size - 1),
            _ => Expect::Part(0, size - 1),
        });
    }
    let a = num(a)?;
    let b = if b.is_empty() { u64::MAX } else { num(b)? };
    if a >= size || a > b {
        return Some(Expect::Unsatisfiable);
    }
    Some(Expect::Part(a, b.min(size - 1)))
}

/// Odd but well-formed specifications that may also be refused.
fn refusable(spec: &str, size: u64) -> bool {
    let Some((a, b)) = spec.split_once('-') else {
        return true;
    };
    let odd = |s: &str| {
        (s.len() > 1 && s.starts_with('0')) || (!s.is_empty() && s.parse::<u64>().is_err())
    };
    if odd(a) || odd(b) {
        return true;
    }
    if a.is_empty() {
        return b.parse::<u64>().is_ok_and(|n| n == 0 || n > size);
    }
    // Reversed
    !b.is_empty() && a.parse::<u64>().unwrap() > b.parse::<u64>().unwrap()
}

/// Any of these responses is right.
fn allowed(h: &[u8], size: u64) -> Vec<Expect> {
    use Expect::*;
    let refused = [Unsatisfiable, Bad];
    let Ok(s) = std::str::from_utf8(h) else {
        return vec![Bad];
    };
    let Some((unit, set)) = s.split_once('=') else {
        return vec![Bad];
    };
    if unit != "bytes" {
        // Other units might be ignored, but are documented to be refused
        if unit.trim().eq_ignore_ascii_case("bytes") {
            let mut v: Vec<Expect> = meaning(set.trim(), size).into_iter().collect();
            v.extend(refused);
            v.push(Whole);
            return v;
        }
        return vec![Bad];
    }
    let specs: Vec<&str> = set.split(',').collect();
    let parsed: Vec<Option<Expect>> = specs
        .iter()
        .map(|x| meaning(x.trim_matches([' ', '\t']), size))
        .collect();
    if specs.len() == 1 && set.trim_matches([' ', '\t']) == set {
        let Some(m) = parsed[0] else { return vec![Bad] };
        let mut v = vec![m];
        if refusable(set, size) {
            v.extend(refused);
        }
        return v;
    }
    // Several ranges (serving any or all of it is fine), or unusual spaces
    let mut v: Vec<Expect> = Vec::new();
    if parsed
        .iter()
        .zip(&specs)
        .all(|(p, s)| p.is_some() || s.trim().is_empty())
    {
        v.extend(parsed.iter().flatten());
        v.push(Whole);
        v.push(Unsatisfiable);
    }
    v.push(Bad);
    v
}

fn check_allowed(ctl: &Ctl, g: &Golden, header: &[u8]) -> R {
    let (_env, r) = fresh(ctl, g, 0)?;
    ctl.log(|| {
        format!(
            "  archive: {} ({} bytes), Range: {:?}",
            g.desc,
            g.size(),
            String::from_utf8_lossy(header)
        )
    });
    let resp = respond(r.into_responder(), Some(header))?;
    let all = allowed(header, g.size());
    if let [only] = all[..] {
        return check_response(resp, g, only);
    }
    // The response tells which of the possible meanings was chosen
    let st = resp.status().as_u16();
    let cr = resp
        .headers()
        .get("content-range")
        .map(|x| x.to_str().unwrap_or("?").to_string());
    let e = all.iter().find(|e| match e {
        Expect::Bad => st == 400,
        Expect::Unsatisfiable => st == 416,
        Expect::Whole => st == 200,
        Expect::Part(a, b) => {
            (st == 206 || st == 200) && cr == Some(format!("bytes {a}-{b}/{}", g.size()))
        }
    });
    match e {
        // A status without Content-Range is enough for requests that may be refused
        Some(Expect::Unsatisfiable) => check_response(resp, g, Expect::Unsatisfiable),
        Some(e) => check_response(resp, g, *e),
        None => fail(
            "status",
            format!("status {st} with Content-Range {cr:?}, possible would be {all:?}"),
        ),
    }
}

/// Archives with several chunks per body
fn big_shapes() -> Vec<Vec<ES>> {
    use Crc::*;
    vec![
        vec![ES::pat("a", 1, 20_000, Unknown)],
        vec![
            ES::pat("a", 1, 9_000, True),
            ES::pat("b", 2, 8_192, Unknown),
            ES::new("d/", b"", Unknown),
        ],
    ]
}

pub fn c14(ctx: &Ctx) {
    // 1. Every range of small archives
    let gs: Vec<Arc<Golden>> = [0, 2, 3, 6, 1, 4, 5, 7]
        .iter()
        .map(|i| golden(&shapes()[*i]))
        .collect();
    let gs = &gs[..ctx.q(4, 8)];
    ctx.nontrivial.fetch_add(gs.len() as u64, Ordering::Relaxed);
    for g in gs {
        ctx.sample(|| {
            format!(
                "every range of an archive of {} bytes [{}]",
                g.size(),
                g.desc
            )
        });
    }
    ctx.tree("every range", |ctl| {
        let g = ctl.pick(gs);
        let s = g.size();
        let kind = ctl.choose(4);
        let h = match kind {
            0 => {
                let a = ctl.choose(s as usize + 2) as u64;
                let extra = [
                    s + 1,
                    s + 4096,
                    1 << 32,
                    i64::MAX as u64,
                    i64::MAX as u64 + 1,
                    u64::MAX - 1,
                    u64::MAX,
                ];
                let k = ctl.choose(s as usize + 1 + extra.len());
                let b = if k as u64 <= s {
                    k as u64
                } else {
                    extra[k - s as usize - 1]
                };
                format!("bytes={a}-{b}")
            }
            1 => format!("bytes={}-", ctl.choose(s as usize + 3)),
            2 => format!("bytes=-{}", ctl.choose(s as usize + 3)),
            _ => {
                let huge = [
                    "4294967295",
                    "4294967296",
                    "9223372036854775807",
                    "18446744073709551615",
                    "18446744073709551616",
                ];
                let a = *ctl.pick(&huge);
                match ctl.choose(3) {
                    0 => format!("bytes={a}-"),
                    1 => format!("bytes=-{a}"),
                    _ => format!("bytes={a}-{}", ctl.pick(&huge)),
                }
            }
        };
        check_allowed(ctl, g, h.as_bytes())
    });

    // 2. Every header over a small alphabet of tokens
    let g = golden(&shapes()[1]);
    let tokens: &[&[u8]] = &[b"0", b"5", b"-", b",", b" ", b"=", b"bytes", b"x", b"\xe9"];
    let len = ctx.q(5, 7);
    ctx.tree("malformed headers", |ctl| {
        let mut h: Vec<u8> = match ctl.choose(3) {
            0 => b"bytes=".to_vec(),
            1 => b"bytes=0-5".to_vec(),
            _ => vec![],
        };
        for _ in 0..len {
            let k = ctl.choose(tokens.len() + 1);
            if k == 0 {
                break;
            }
            h.extend_from_slice(tokens[k - 1]);
        }
        if h.first() == Some(&b' ') || h.last() == Some(&b' ') {
            // Servers strip these before the header is seen
            return Ok(());
        }
        check_allowed(ctl, &g, &h)
    });
    let odd: &[&[u8]] = &[
        b"",
        b"bytes",
        b"bytes=",
        b"bytes=-",
        b"bytes=--1",
        b"bytes=+1-2",
        b"bytes=1-+2",
        b"bytes=0x1-2",
        b"bytes=1.0-2",
        b"bytes=1-2-3",
        b"bytes:1-2",
        b"bytes 1-2",
        b"byte=1-2",
        b"bytes==1-2",
        b"bytes=1_0-20",
        b"bytes=\t1-2",
        b"bytes=1-2\t",
        b"bytes=0-0,1-1",
        b"bytes=0-0, 1-1",
        b"bytes=5-6,0-1",
        b"bytes=0-5,3-7",
        b"bytes=0-5,x",
        b"bytes=0-5,",
        b"bytes=,0-5",
        b"bytes=0-1,999999-",
        b"bytes=999999-,0-1",
        b"Bytes=0-5",
        b"BYTES=0-5",
        b"bytes =0-5",
        b"bytes= 0-5",
        b"items=0-5",
        b"none",
        b"bytes=\xff",
        b"\xff",
        b"bytes=0-\xc3\xa9",
        b"bytes=00-05",
        b"bytes=-00",
        b"bytes=-05",
        b"bytes=0-5;q=1",
        b"bytes=1-0",
        b"bytes=100000-5",
        b"bytes=340282366920938463463374607431768211456-",
        b"bytes=0-340282366920938463463374607431768211456",
    ];
    ctx.tree("odd headers", |ctl| {
        let h = *ctl.pick(odd);
        check_allowed(ctl, gs.last().unwrap(), h)
    });

    // 3. Any state of the reader before, any chunking of the body
    let mut hs = Vec::new();
    for s in shapes().iter().chain(&big_shapes()) {
        hs.push(golden(s));
    }
    ctx.nontrivial.fetch_add(hs.len() as u64, Ordering::Relaxed);
    let budget = ctx.q(2, 3);
    ctx.tree("reader states and body chunking", |ctl| {
        let g = ctl.pick(&hs);
        let big = g.size() > 2000;
        let (env, mut r) = fresh(ctl, g, PENDINGS | ERRORS | READ_SHORT)?;
        env.quiet.set(true);
        ctl.log(|| format!("  archive: {} ({} bytes)", g.desc, g.size()));
        // The state before
        let bounds = g.boundaries(u64::from(!big));
        let before = ctl.choose(4);
        match before {
            0 => {}
            1 => {
                read_all(Pin::new(&mut r), 4096, g.size())?;
            }
            2 => r.seek_from_start_mut(*ctl.pick(&[1, g.size() / 2, g.size(), g.size() + 5])),
            _ => {
                poll_read(Pin::new(&mut r), Waker::noop(), *ctl.pick(&[1, 40, 100]))?;
                poll_read(Pin::new(&mut r), Waker::noop(), 2)?;
            }
        }
        let prior = r.tell();
        ctl.log(|| format!("  reader at {prior} (case {before})"));
        let (h, e) = match ctl.choose(5) {
            0 => (None, Expect::Whole),
            1 => (Some("bytes=1-0".into()), Expect::Unsatisfiable),
            2 => (Some("bytes=x".into()), Expect::Bad),
            3 => {
                let a = *ctl.pick(&bounds);
                let h = format!("bytes={a}-");
                let e = meaning(&h[6..], g.size()).unwrap();
                (Some(h), e)
            }
            _ => {
                let a = *ctl.pick(&bounds);
                let l = *ctl.pick(&[1u64, 8192, 8193]);
                let h = format!("bytes={a}-{}", a + l - 1);
                let e = meaning(&h[6..], g.size()).unwrap();
                (Some(h), e)
            }
        };
        ctl.log(|| format!("  Range: {h:?}"));
        env.quiet.set(false);
        ctl.set_budget(if big { 1 } else { budget });
        env.begin_op(None);
        let resp = respond(r.into_responder(), h.as_deref().map(str::as_bytes))?;
        ensure!(
            env.opens_in_op.borrow().is_empty() && env.polls_in_op.get() == 0,
            "opens",
            "responding touched entry sources before the body is polled"
        );
        if resp.status().as_u16() == 400 && e == Expect::Unsatisfiable {
            return check_response(resp, g, Expect::Bad);
        }
        let Some((o, l)) = check_head(&resp, g.size(), e)? else {
            return check_response(resp, g, e);
        };
        let want = &g.bytes[o as usize..(o + l) as usize];
        let mut body = Box::pin(resp.into_body());
        let mut got: Vec<u8> = Vec::new();
        let wakers = [new_waker(), new_waker()];
        let mut polls = 0;
        let mut failed = false;
        loop {
            polls += 1;
            let w = &wakers[polls % 2];
            env.begin_op(Some(w));
            let c = poll_body(&mut body, w)?;
            *env.waker.borrow_mut() = None;
            if let Some((c, m)) = env.flags.borrow().first() {
                return fail(c, m.clone());
            }
            match c {
                Chunk::Pending => {
                    ctl.log(|| "    pending".into());
                    ensure!(
                        env.pending_in_op.get() > 0,
                        "lost-wakeup",
                        "a body is pending, but no entry source is"
                    );
                    env.pending_in_op.set(0);
                }
                Chunk::Err(m) => {
                    ctl.log(|| format!("    error {m}"));
                    ensure!(
                        !env.errs_in_op.borrow().is_empty(),
                        "error",
                        "a body failed without a source error: {m}"
                    );
                    // Servers give up here; polling on must go on without a loss
                    // (the wrapper actix puts around bodies can't report a second error)
                    env.faults.set(PENDINGS | READ_SHORT);
                    failed = true;
                }
                Chunk::End => break,
                Chunk::Data(d) => {
                    ctl.log(|| format!("    chunk of {} bytes", d.len()));
                    ensure!(
                        env.errs_in_op.borrow().is_empty(),
                        "swallowed",
                        "a source error was not reported"
                    );
                    ensure!(!d.is_empty(), "empty-chunk", "an empty chunk of a body");
                    ensure!(
                        got.len() + d.len() <= want.len(),
                        "body-size",
                        "the body has more than the announced {l} bytes"
                    );
                    ensure!(
                        d[..] == want[got.len()..got.len() + d.len()],
                        "content",
                        "the body has wrong bytes at {}",
                        got.len()
                    );
                    got.extend_from_slice(&d);
                }
            }
        }
        ensure!(
            got.len() as u64 == l,
            "body-size",
            "the body has {} bytes instead of {l}{}",
            got.len(),
            if failed { " after an error" } else { "" }
        );
        ensure!(
            matches!(poll_body(&mut body, Waker::noop())?, Chunk::End),
            "body-size",
            "a body goes on after its end"
        );
        Ok(())
    });

    // 4. Archives larger than 32 bits, known CRCs
    let big = [(1u64 << 32) - 1, 1 << 32, (1 << 40) + 7];
    ctx.tree("huge archives", |ctl| {
        let n = *ctl.pick(&big);
        let env = Env::new(ctl, 2, 0);
        let es = [
            ES {
                name: "huge".into(),
                content: Content::Pattern { seed: 3, len: n },
                declared: None,
                crc: Crc::Given(0x1234_5678),
            },
            ES::new("end", b"tail", Crc::True),
        ];
        let b = arch::builder(&env, &es)?;
        let size = b.size();
        let over = size - n;
        ensure!(
            (100..2000).contains(&over),
            "size",
            "an archive with a {n} byte entry has size {size}"
        );
        let mut r = b.build();
        // Bytes of the archive, read directly
        let at = *ctl.pick(&[
            0u64,
            30,
            1 << 31,
            n - 1,
            n,
            n + 40,
            size - 300,
            size - 98,
            size - 1,
            size,
        ]);
        let l = *ctl.pick(&[1u64, 100, 8192, 10_000]);
        let form = ctl.choose(3);
        let (h, first, last) = match form {
            0 => (
                format!("bytes={at}-{}", at + l - 1),
                at,
                (at + l - 1).min(size - 1),
            ),
            1 if size - at <= 10_000 => (format!("bytes={at}-"), at, size - 1),
            2 if size - at <= 10_000 && at < size => {
                (format!("bytes=-{}", size - at), at, size - 1)
            }
            _ => return Ok(()),
        };
        ctl.log(|| format!("  archive of {size} bytes with a {n} byte entry, Range: {h}"));
        if at >= size {
            let resp = respond(r.into_responder(), Some(h.as_bytes()))?;
            check_head(&resp, size, Expect::Unsatisfiable)?;
            return Ok(());
        }
        r.seek_from_start_mut(first);
        let mut want = Vec::new();
        while (want.len() as u64) < last - first + 1 {
            match poll_read(
                Pin::new(&mut r),
                Waker::noop(),
                (last - first + 1) as usize - want.len(),
            )? {
                Out::Data(d) if !d.is_empty() => want.extend_from_slice(&d),
                x => return fail("error", format!("reading the archive gives {x:?}")),
            }
        }
        let resp = respond(r.into_responder(), Some(h.as_bytes()))?;
        let Some((o, l)) = check_head(&resp, size, Expect::Part(first, last))? else {
            unreachable!()
        };
        let b = body_of(resp, l)?;
        ensure!(
            b == want,
            "content",
            "the body of {} bytes differs from the {l} bytes at {o}",
            b.len()
        );
        Ok(())
    });
    // Without reading them: the announced length of huge ranges
    ctx.tree("huge ranges", |ctl| {
        let n = *ctl.pick(&big);
        let env = Env::new(ctl, 1, 0);
        let es = [ES {
            name: "huge".into(),
            content: Content::Fill { byte: 1, len: n },
            declared: None,
            crc: Crc::Given(1),
        }];
        let b = arch::builder(&env, &es)?;
        let size = b.size();
        let pts = [
            0u64,
            1,
            u32::MAX as u64 - 1,
            u32::MAX as u64,
            1 << 32,
            n,
            size - 2,
            size - 1,
            size,
            size + 1,
            u64::MAX,
        ];
        let r = b.build();
        let h = match ctl.choose(4) {
            0 => None,
            1 => Some(format!("bytes={}-{}", ctl.pick(&pts), ctl.pick(&pts))),
            2 => Some(format!("bytes={}-", ctl.pick(&pts))),
            _ => Some(format!("bytes=-{}", ctl.pick(&pts))),
        };
        ctl.log(|| format!("  archive of {size} bytes, Range: {h:?}"));
        let resp = respond(r.into_responder(), h.as_deref().map(str::as_bytes))?;
        let st = resp.status().as_u16();
        let e = match &h {
            None => Expect::Whole,
            Some(h) => {
                if (st == 400 || st == 416) && refusable(&h[6..], size) {
                    return Ok(());
                }
                meaning(&h[6..], size).unwrap()
            }
        };
        check_head(&resp, size, e)?;
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- C15

#[derive(Clone, Debug)]
enum SOp {
    Poll,
    Seek(u64),
    SeekPinned(u64),
    Clone,
    Take,
    Unwrap,
    Read(usize),
}

struct SCfg {
    g: Arc<Golden>,
    ops: Vec<SOp>,
    faults: u16,
    budget: Option<u32>,
}

struct Sm {
    cfg: Arc<SCfg>,
    env: EnvRef,
    s: Option<BytesStream<Ed>>,
    pos: u64,
    known: Vec<Option<u32>>,
    wakers: [Waker; 2],
    flip: usize,
    ended: bool,
}

impl Sm {
    fn new(ctl: &Ctl, cfg: &Arc<SCfg>) -> R<Sm> {
        ctl.set_budget(cfg.budget.unwrap_or(u32::MAX));
        ctl.log(|| format!("archive: {}", cfg.g.desc));
        let (env, r) = fresh(ctl, &cfg.g, cfg.faults)?;
        env.poll_cap.set(200_000);
        Ok(Sm {
            known: cfg.g.es.iter().map(|e| e.given()).collect(),
            cfg: cfg.clone(),
            env,
            s: Some(r.into_bytes_stream()),
            pos: 0,
            wakers: [new_waker(), new_waker()],
            flip: 0,
            ended: false,
        })
    }
    fn check(&mut self) -> R {
        let g = &self.cfg.g;
        let r = self.s.as_ref().unwrap().reader_ref();
        ensure!(
            r.tell() == self.pos,
            "tell",
            "the inner reader is at {} after {} bytes",
            r.tell(),
            self.pos
        );
        ensure!(
            r.size() == g.size(),
            "size",
            "size() is {} instead of {}",
            r.size(),
            g.size()
        );
        let k = crcs(r, g)?;
        for i in 0..k.len() {
            match (self.known[i], k[i]) {
                (Some(a), b) => ensure!(
                    b == Some(a),
                    "crc-lost",
                    "known CRC of entry {i} changed from {a:08x} to {b:x?}"
                ),
                (None, Some(b)) => ensure!(
                    b == g.crcs[i],
                    "crc-wrong",
                    "CRC of entry {i} became {b:08x}"
                ),
                (None, None) => {}
            }
        }
        self.known = k;
        if let Some((c, m)) = self.env.flags.borrow().first() {
            return fail(c, m.clone());
        }
        Ok(())
    }
    fn at_error(&self, e: &std::io::Error) -> R {
        let (text, kind) = (e.to_string(), e.kind());
        let inj = self.env.errs_in_op.borrow();
        ensure!(!inj.is_empty(), "error", "at {}: {text}", self.pos);
        ensure!(
            inj.iter().any(|i| i.is(e)),
            "error-changed",
            "source error {inj:?} was reported as {text} ({kind:?})"
        );
        Ok(())
    }
    fn no_touch(&self, what: &str) -> R {
        ensure!(
            self.env.opens_in_op.borrow().is_empty() && self.env.polls_in_op.get() == 0,
            "opens",
            "{what} touched entry sources"
        );
        Ok(())
    }
}

impl Machine for Sm {
    fn step(&mut self, ctl: &Ctl) -> R {
        let cfg = self.cfg.clone();
        let g = &cfg.g;
        let o = ctl.pick(&cfg.ops);
        op();
        ctl.log(|| format!("  {o:?} at {}", self.pos));
        self.flip ^= 1;
        let w = self.wakers[self.flip].clone();
        self.env.begin_op(Some(&w));
        let data = |at: u64, d: &[u8]| -> R {
            let left = g.size().saturating_sub(at);
            ensure!(
                d.len() as u64 <= left,
                "overrun",
                "{} bytes yielded at {at} of {}",
                d.len(),
                g.size()
            );
            ensure!(
                d.is_empty() || g.bytes[at as usize..at as usize + d.len()] == *d,
                "content",
                "wrong bytes yielded at {at}"
            );
            Ok(())
        };
        let mut ended = false;
        match o {
            SOp::Poll => {
                let p = Pin::new(self.s.as_mut().unwrap()).poll_next(&mut Context::from_waker(&w));
                let inj = !self.env.errs_in_op.borrow().is_empty();
                match p {
                    Poll::Pending => {
                        ctl.log(|| "    -> pending".into());
                        ensure!(
                            self.env.pending_in_op.get() > 0,
                            "lost-wakeup",
                            "the stream is pending, but no entry source is"
                        );
                        ensure!(!inj, "swallowed", "a source error was turned into pending");
                    }
                    Poll::Ready(Some(Err(e))) => {
                        ctl.log(|| format!("    -> error {e}"));
                        self.at_error(&e)?
                    }
                    Poll::Ready(Some(Ok(d))) => {
                        ctl.log(|| format!("    -> chunk of {} bytes", d.len()));
                        ensure!(!inj, "swallowed", "a source error was not reported");
                        ensure!(
                            !d.is_empty(),
                            "empty-chunk",
                            "an empty chunk at {}",
                            self.pos
                        );
                        data(self.pos, &d)?;
                        self.pos += d.len() as u64;
                    }
                    Poll::Ready(None) => {
                        ctl.log(|| "    -> end".into());
                        ensure!(
                            !inj,
                            "swallowed",
                            "a source error was turned into the end of the stream"
                        );
                        ensure!(
                            self.pos >= g.size(),
                            "early-eof",
                            "the stream ended at {} of {}",
                            self.pos,
                            g.size()
                        );
                        ended = true;
                    }
                }
                if self.ended {
                    ensure!(ended, "after-end", "the stream went on after its end");
                }
            }
            SOp::Seek(p) => {
                self.s
                    .as_mut()
                    .unwrap()
                    .reader_mut()
                    .seek_from_start_mut(*p);
                self.pos = *p;
                self.no_touch("a seek")?;
            }
            SOp::SeekPinned(p) => {
                Pin::new(self.s.as_mut().unwrap())
                    .reader_pin_mut()
                    .seek_from_start_pinned(*p);
                self.pos = *p;
                self.no_touch("a seek")?;
            }
            SOp::Clone => {
                let c = self.s.as_ref().unwrap().clone();
                self.no_touch("cloning")?;
                self.s = Some(c);
                ended = self.ended;
            }
            SOp::Take => {
                let s = self.s.as_mut().unwrap();
                let t = Pin::new(&mut *s).reader_pin_mut().take_pinned();
                check_dummy(s.reader_mut())?;
                // The stream left behind streams the empty archive
                let mut n = 0;
                let empty = s.reader_ref().size();
                loop {
                    match Pin::new(&mut *s).poll_next(&mut Context::from_waker(Waker::noop())) {
                        Poll::Ready(Some(Ok(d))) => n += d.len() as u64,
                        Poll::Ready(None) => break,
                        x => return fail("dummy", format!("the stream left behind gives {x:?}")),
                    }
                }
                ensure!(
                    n == empty,
                    "dummy",
                    "the stream left behind yields {n} of {empty} bytes"
                );
                self.no_touch("taking")?;
                self.s = Some(BytesStream::new(t));
                ended = self.ended;
            }
            SOp::Unwrap => {
                let r = self.s.take().unwrap().into_reader();
                ensure!(
                    r.tell() == self.pos,
                    "tell",
                    "the unwrapped reader is at {} instead of {}",
                    r.tell(),
                    self.pos
                );
                self.s = Some(if ctl.flag() {
                    BytesStream::from(r)
                } else {
                    r.into_bytes_stream()
                });
                self.no_touch("unwrapping")?;
                ended = self.ended;
            }
            SOp::Read(n) => {
                let at = self.pos;
                match poll_read(Pin::new(self.s.as_mut().unwrap()).reader_pin_mut(), &w, *n)? {
                    Out::Pending => ensure!(
                        self.env.pending_in_op.get() > 0,
                        "lost-wakeup",
                        "a read is pending, but no entry source is"
                    ),
                    Out::Err(e) => self.at_error(&e)?,
                    Out::Data(d) => {
                        ensure!(
                            !d.is_empty() || at >= g.size(),
                            "early-eof",
                            "end of file at {at} of {}",
                            g.size()
                        );
                        data(at, &d)?;
                        self.pos += d.len() as u64;
                    }
                }
                ended = self.ended;
            }
        }
        self.ended = ended;
        *self.env.waker.borrow_mut() = None;
        self.check()
    }
    fn key(&self) -> Option<u128> {
        let mut h = H::new();
        let _ = write!(
            h,
            "{:p}|{}|{:?}|{}|{:?}|{:?}|",
            &*self.cfg,
            self.pos,
            self.known,
            self.ended,
            self.env.live.borrow(),
            self.s
        );
        #[cfg(zippity_verif)]
        {
            let _ = self.s.as_ref().unwrap().reader_ref().verif_state(&mut h);
        }
        Some(h.end())
    }
    fn probe(&mut self, _ctl: &Ctl) -> R {
        // A clone yields the rest, without the original noticing
        self.env.begin_op(None);
        let g = self.cfg.g.clone();
        let mut c = self.s.as_ref().unwrap().clone();
        self.env.quiet.set(true);
        let mut out = Vec::new();
        let mut hints = vec![c.size_hint()];
        loop {
            match Pin::new(&mut c).poll_next(&mut Context::from_waker(Waker::noop())) {
                Poll::Ready(Some(Ok(d))) => {
                    ensure!(!d.is_empty(), "empty-chunk", "an empty chunk from a clone");
                    hints.push(c.size_hint());
                    out.extend_from_slice(&d)
                }
                Poll::Ready(None) => break,
                x => return fail("clone", format!("a clone of the stream gives {x:?}")),
            }
        }
        hints.push(c.size_hint());
        self.env.quiet.set(false);
        let chunks = hints.len() - 2;
        for (i, h) in hints.iter().enumerate() {
            let n = chunks - i.min(chunks);
            ensure!(
                h.0 <= n && h.1.is_none_or(|u| u >= n),
                "size-hint",
                "size_hint() is {h:?} with {n} chunks to come"
            );
        }
        let at = (self.pos as usize).min(g.bytes.len());
        ensure!(
            out[..] == g.bytes[at..],
            "content",
            "a clone of the stream at {} yields {} other bytes",
            self.pos,
            out.len()
        );
        self.check()
    }
}

fn run_stream(ctx: &Ctx, name: &str, cfgs: Vec<SCfg>) {
    let cfgs: Vec<Arc<SCfg>> = cfgs.into_iter().map(Arc::new).collect();
    for c in &cfgs {
        ctx.sample(|| {
            format!(
                "{name}: archive [{}], {} operations, source answers mask {:#x}",
                c.g.desc,
                c.ops.len(),
                c.faults
            )
        });
    }
    ctx.nontrivial
        .fetch_add(cfgs.len() as u64, Ordering::Relaxed);
    let depth = if cfg!(zippity_verif) {
        100_000
    } else {
        ctx.q(6, 7)
    };
    ctx.graph(name, depth, |ctl| Sm::new(ctl, ctl.pick(&cfgs)));
}

pub fn c15(ctx: &Ctx) {
    use SOp::*;
    let mut cfgs = Vec::new();
    for s in shapes() {
        let g = golden(&s);
        let mut ops = vec![Poll, Clone, Take, Unwrap, Read(1), Read(30)];
        let ps = ctx.q(g.boundaries(1), (0..g.size() + 3).collect());
        for (i, p) in ps.iter().enumerate() {
            ops.push(if i % 2 == 0 { Seek(*p) } else { SeekPinned(*p) });
        }
        cfgs.push(SCfg {
            g: g.clone(),
            ops,
            faults: 0,
            budget: None,
        });
        let mut ops = vec![Poll, Clone, Take, Unwrap, Seek(g.cd_off + 3), Seek(1)];
        {
            ops.extend([
                Read(1),
                Read(30),
                Seek(g.lay.first().map_or(0, |l| l.data_end + 2)),
                SeekPinned(0),
                SeekPinned(g.size() + 3),
            ]);
        }
        if !ctx.quick() {
            ops.extend([Read(3), Read(60)]);
            ops.extend(g.boundaries(1).into_iter().map(Seek));
        }
        cfgs.push(SCfg {
            g,
            ops,
            faults: PENDINGS | ERRORS | READ_SHORT,
            budget: None,
        });
    }
    run_stream(ctx, "stream graph of small archives", cfgs);
    // Chunks at and around the size of the internal buffers
    let mut cfgs = Vec::new();
    use self::Crc::{True, Unknown};
    for (a, b) in [(8191u64, 8193u64), (8192, 8192), (20_000, 0)] {
        for c in [Unknown, True] {
            let g = golden(&[ES::pat("one", 1, a, c), ES::pat("two", 2, b, Unknown)]);
            let l = g.lay[0].data_start;
            let mut ops = vec![
                Poll,
                Clone,
                Take,
                Unwrap,
                Seek(l + 1),
                Seek(g.cd_off),
                SeekPinned(l + a),
            ];
            {
                ops.extend([Seek(l), Read(8192), SeekPinned(l + 8192), Seek(g.size())]);
            }
            cfgs.push(SCfg {
                g,
                ops,
                faults: PENDINGS | ERRORS | READ_SHORT,
                budget: Some(ctx.q(1, 2)),
            });
        }
    }
    run_stream(ctx, "streams of several buffers", cfgs);
}

// ---------------------------------------------------------------------------------------- C18

pub fn c18(ctx: &Ctx) {
    let mut gs: Vec<Arc<Golden>> = shapes().iter().map(|s| golden(s)).collect();
    gs.extend(big_shapes().iter().map(|s| golden(s)));
    ctx.nontrivial.fetch_add(gs.len() as u64, Ordering::Relaxed);
    for g in &gs {
        ctx.sample(|| format!("abort points of responses for [{}]", g.desc));
    }
    let budget = ctx.q(3, 4);
    ctx.tree("abort points", |ctl| {
        let g = ctl.pick(&gs);
        let big = g.size() > 2000;
        let (env, mut r) = fresh(ctl, g, PENDINGS | ERRORS | READ_SHORT)?;
        ctl.set_budget(if big { 1 } else { budget });
        env.quiet.set(true);
        ctl.log(|| format!("  archive: {} ({} bytes)", g.desc, g.size()));
        let before = ctl.choose(4);
        match before {
            0 => {}
            1 => {
                // All CRCs get known
                read_all(Pin::new(&mut r), 4096, g.size())?;
            }
            2 => r.seek_from_start_mut(*ctl.pick(&[1, g.size() / 2, g.size() + 5])),
            _ => {
                // Mid entry, with a source open
                poll_read(Pin::new(&mut r), Waker::noop(), 100)?;
                poll_read(Pin::new(&mut r), Waker::noop(), 1)?;
            }
        }
        env.quiet.set(false);
        let prior = r.tell();
        let known = crcs(&r, g)?;
        ctl.log(|| format!("  reader at {prior} (case {before})"));
        let drop_receiver = ctl.choose(if before == 0 { 2 } else { 1 }) == 1;
        let (a, rx) = r.into_responder_with_channel();
        let mut rx = Some(rx);
        if drop_receiver {
            rx = None;
        }
        // Which bytes are asked for
        let size = g.size();
        let mut ranges: Vec<Option<(u64, u64)>> = vec![
            None,
            Some((0, 0)),
            Some((size - 1, size - 1)),
            Some((g.cd_off, size - 1)),
            Some((1, size - 2)),
        ];
        for l in &g.lay {
            ranges.push(Some((l.data_end, size - 1)));
            if l.data_end > l.data_start + 1 {
                ranges.push(Some((l.data_start + 1, l.data_end - 1)));
                ranges.push(Some((l.data_start + 1, l.end)));
            }
        }
        {
            for l in &g.lay {
                ranges.push(Some((l.start, l.data_start)));
                ranges.push(Some((l.cd_start + 1, size - 2)));
                ranges.push(Some((l.data_start, l.data_end)));
            }
        }
        let k = ctl.choose(ranges.len() + 3);
        let mut taken_from = prior;
        let mut delivered = 0u64;
        let mut complete = false;
        let mut served = None;
        if k == ranges.len() + 2 {
            ctl.log(|| "  dropped without responding".into());
            drop(a);
        } else if k >= ranges.len() {
            let h = if k == ranges.len() {
                "bytes=999999-"
            } else {
                "bytes=junk"
            };
            ctl.log(|| format!("  Range: {h}"));
            let resp = respond(a, Some(h.as_bytes()))?;
            let st = resp.status().as_u16();
            ensure!(
                st == if k == ranges.len() { 416 } else { 400 },
                "status",
                "status {st} for {h}"
            );
            if ctl.flag() {
                body_of(resp, 0)?;
            } else {
                drop(resp);
            }
        } else {
            let range = ranges[k];
            let (o, l) = range.map_or((0, size), |(a, b)| (a, b + 1 - a));
            let h = range.map(|(a, b)| format!("bytes={a}-{b}"));
            ctl.log(|| format!("  Range: {h:?}"));
            let resp = respond(a, h.as_deref().map(str::as_bytes))?;
            check_head(
                &resp,
                size,
                range.map_or(Expect::Whole, |(a, b)| Expect::Part(a, b)),
            )?;
            served = Some((o, l));
            let mut body = Box::pin(resp.into_body());
            let mut polled = false;
            let mut errors = 0;
            loop {
                if ctl.flag() {
                    ctl.log(|| "    aborted".into());
                    break;
                }
                polled = true;
                env.begin_op(None);
                match poll_body(&mut body, Waker::noop())? {
                    Chunk::Pending => ctl.log(|| "    pending".into()),
                    Chunk::Err(m) => {
                        ctl.log(|| format!("    error {m}"));
                        ensure!(
                            !env.errs_in_op.borrow().is_empty(),
                            "error",
                            "a body failed without a source error: {m}"
                        );
                        errors += 1;
                        // Servers give up, but others may go on
                        if errors > 1 || ctl.flag() {
                            break;
                        }
                        // (the wrapper actix puts around bodies can't report a second error)
                        env.faults.set(PENDINGS | READ_SHORT);
                    }
                    Chunk::End => {
                        ensure!(
                            delivered == l,
                            "body-size",
                            "the body has {delivered} bytes instead of {l}"
                        );
                        break;
                    }
                    Chunk::Data(d) => {
                        ctl.log(|| format!("    chunk of {} bytes", d.len()));
                        let at = (o + delivered) as usize;
                        ensure!(
                            delivered + d.len() as u64 <= l && g.bytes[at..at + d.len()] == d[..],
                            "content",
                            "wrong bytes in the body"
                        );
                        delivered += d.len() as u64;
                    }
                }
            }
            complete = delivered == l;
            if polled {
                taken_from = o;
            }
            drop(body);
        }
        ensure!(
            env.live_total() == 0,
            "live",
            "an entry reader stays open after the response has ended"
        );
        let Some(mut rx) = rx else { return Ok(()) };
        let mut back = match rx.try_recv() {
            Ok(r) => r,
            Err(e) => return fail("no-reader", format!("no reader was handed back: {e}")),
        };
        ensure!(
            rx.try_recv().is_err(),
            "two-readers",
            "a second reader was handed back"
        );
        // Where it stands
        let t = back.tell();
        if let Some((o, _)) = served {
            let min = o + delivered;
            if complete {
                // The last chunk was cut, the reader stands behind what it gave. How much that is, is its affair
                ensure!(
                    (min..=(min + (1 << 18)).min(size)).contains(&t),
                    "position",
                    "the reader handed back is at {t}, {min} bytes were taken"
                );
            } else if taken_from == o {
                ensure!(
                    t == min,
                    "position",
                    "the reader handed back is at {t} instead of {min}"
                );
            } else {
                ensure!(
                    t == o || t == prior,
                    "position",
                    "the reader handed back is at {t}, but was never polled at {o}"
                );
            }
        } else {
            ensure!(
                t == prior,
                "position",
                "the reader handed back is at {t}, but was at {prior} and nothing was served"
            );
        }
        // What it knows
        ensure!(
            back.size() == size,
            "size",
            "the reader handed back has size {} instead of {size}",
            back.size()
        );
        let now = crcs(&back, g)?;
        for (i, k) in now.iter().enumerate() {
            if let Some(old) = known[i] {
                ensure!(
                    *k == Some(old),
                    "crc-lost",
                    "the known CRC of entry {i} was lost"
                );
            }
            ensure!(
                k.is_none_or(|k| k == g.crcs[i]),
                "crc-wrong",
                "CRC of entry {i} became {k:x?}"
            );
            if let Some((o, _)) = served {
                let l = &g.lay[i];
                let end = o + delivered;
                // The four bytes of the CRC in the data descriptor and in the central directory
                let crc_sent = |from: u64| delivered > 0 && o < from + 4 && end > from;
                if l.size > 0 && (crc_sent(l.data_end + 4) || crc_sent(l.cd_start + 16)) {
                    ensure!(
                        k.is_some(),
                        "crc-lost",
                        "the CRC of entry {i} was sent, but is not known to the reader handed back"
                    );
                }
            }
        }
        // It goes on from where it stands
        env.quiet.set(true);
        if ctl.flag() {
            let rest = read_all(Pin::new(&mut back), 4096, size)?;
            ensure!(
                rest[..] == g.bytes[(t.min(size)) as usize..],
                "content",
                "the reader handed back reads {} other bytes at {t}",
                rest.len()
            );
        }
        // ... and serves the whole archive again
        let (a, mut rx) = back.into_responder_with_channel();
        let resp = respond(a, None)?;
        check_response(resp, g, Expect::Whole)?;
        let Ok(last) = rx.try_recv() else {
            return fail(
                "no-reader",
                "no reader was handed back by the second response",
            );
        };
        let now = crcs(&last, g)?;
        for (i, k) in now.iter().enumerate() {
            ensure!(
                *k == Some(g.crcs[i]),
                "crc-lost",
                "after serving everything the CRC of entry {i} is {k:x?}"
            );
        }
        Ok(())
    });
}
