//! P21: record streams, as peers and files deliver them.
use crate::base::*;
use serde::{Deserialize, Serialize};
use simcore::*;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use tn_storage::archive::error::fetch::FetchError;
use tn_storage::archive::pack::{write_value, Pack, PackCompression};
use tn_storage::archive::pack_iter::{AsyncPackIter, PackIter};
use tokio::io::{AsyncRead, AsyncReadExt, ReadBuf};

pub const CHECK: Check = Check {
    id: "P21",
    rule: "an evaluation is one seeded stream of records written by the real writer, carried by a transport that fragments, stalls, cuts, damages or resets it, and read by the synchronous or asynchronous reader; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes",
    real: &["tn-storage archive::pack (write_value, Pack, DataHeader), archive::pack_iter (PackIter, AsyncPackIter)", "tn-types codec", "zstd, crc32fast", "tokio io and timers"],
    stub: &["transport: an in-memory byte stream that obeys the scenario", "disk: simulated file system below the libc calls"],
    assumptions: &["damage is at most 32 bits or is detected by CRC32 with probability 1-2^-32", "a stream cut inside a record's length field may end as if there were no further record (documented in the reader)"],
    gen,
    run,
    runs: (30_000, 400_000),
    wall: (18, 500),
    stuck_is_violation: true,
    max_steps: 400_000_000,
};
const MAX: usize = 16 * 1024 * 1024;
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct R {
    n: u64,
    s: Option<String>,
    body: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Big(#[serde(with = "bytes_like")] Vec<u8>);
mod bytes_like {
    // one memcpy instead of an element at a time
    pub fn serialize<S: serde::Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(v)
    }
    pub fn deserialize<'d, D: serde::Deserializer<'d>>(d: D) -> Result<Vec<u8>, D::Error> {
        struct V;
        impl<'d> serde::de::Visitor<'d> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Vec<u8>, E> {
                Ok(v.to_vec())
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
                Ok(v)
            }
        }
        d.deserialize_byte_buf(V)
    }
}
fn gen(seed: u64, _i: u64) -> Scenario {
    let mut sc = Scenario::new("P21", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    sc.set("zstd", r.below(2) as i64);
    // 0 async whole, 1 async partial, 2 sync over any reader, 3 sync from the file
    sc.set("reader", r.below(4) as i64);
    sc.set("version", r.below(40) as i64);
    sc.set("uid", r.below(4) as i64);
    // wrong epoch asked for
    sc.set("other", r.chance(1, 12) as i64);
    sc.set("frag", *r.pick(&[1i64, 2, 7, 64, 1000, 40_000]));
    sc.set("stall", *r.pick(&[0i64, 0, 3, 30]));
    sc.set("stop", if r.chance(1, 2) { r.below(6) as i64 } else { -1 });
    sc.set("big", r.chance(1, 400) as i64 * (1 + r.below(4) as i64));
    for _ in 0..r.below(12) {
        let len = match r.below(8) {
            0 => 0,
            1 => 1,
            2 if r.chance(1, 4) => 8192 - 20 + r.below(40) as i64,
            3 if r.chance(1, 4) => r.below(40_000) as i64,
            _ => r.below(200) as i64,
        };
        sc.ops.push(Op::new("rec", &[len, r.below(1 << 30) as i64]));
    }
    for _ in 0..r.below(3) {
        sc.faults.push(match r.below(6) {
            0 | 1 => Op::new("cut", &[r.below(1 << 40) as i64]),
            2 | 3 => Op::new("flip", &[r.below(1 << 40) as i64, r.below(8) as i64]),
            4 => Op::new("reset", &[r.below(1 << 40) as i64]),
            _ => Op::new("size", &[r.below(1 << 40) as i64, r.below(4) as i64]),
        });
    }
    sc
}
/// The transport.
pub struct Pipe {
    pub data: Vec<u8>,
    pub at: usize,
    pub frag: u64,
    pub stall: u64,
    pub rng: Rng,
    pub reset: Option<usize>,
    pub sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    /// the most a single read was asked for
    pub asked: usize,
}
impl Pipe {
    fn more(&mut self, room: usize) -> io::Result<(usize, usize)> {
        self.asked = self.asked.max(room);
        let mut n = (1 + self.rng.below(self.frag)) as usize;
        n = n.min(room).min(self.data.len() - self.at);
        if let Some(p) = self.reset {
            if self.at >= p {
                simrt::fault("stream_reset");
                return Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset"));
            }
            n = n.min(p - self.at);
        }
        let a = self.at;
        self.at += n;
        Ok((a, n))
    }
}
impl AsyncRead for Pipe {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if let Some(s) = &mut self.sleep {
            if s.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            self.sleep = None;
        } else if self.stall > 0 {
            let st = self.stall;
            if self.rng.below(100) < st {
                let ms = 1 + self.rng.below(400);
                simrt::fault("stream_stall");
                let mut s = Box::pin(tokio::time::sleep(Duration::from_millis(ms)));
                if s.as_mut().poll(cx).is_pending() {
                    self.sleep = Some(s);
                    return Poll::Pending;
                }
            }
        }
        let (a, n) = self.more(b.remaining())?;
        if n < b.remaining() {
            simrt::fault("fragment");
        }
        b.put_slice(&self.data[a..a + n]);
        Poll::Ready(Ok(()))
    }
}
use std::future::Future;
impl Read for Pipe {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.stall > 0 && self.rng.below(100) < self.stall {
            simrt::fault("eintr");
            return Err(io::ErrorKind::Interrupted.into());
        }
        let (a, n) = self.more(b.len())?;
        b[..n].copy_from_slice(&self.data[a..a + n]);
        Ok(n)
    }
}
impl Seek for Pipe {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.at = match p {
            SeekFrom::Start(x) => x as usize,
            SeekFrom::Current(d) => (self.at as i64 + d) as usize,
            SeekFrom::End(d) => (self.data.len() as i64 + d) as usize,
        };
        Ok(self.at as u64)
    }
}
/// A sink that takes little at a time.
struct Sink(Vec<u8>, Rng, Option<usize>);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.1.chance(1, 6) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = (1 + self.1.below(4000) as usize).min(b.len());
        if let Some(lim) = self.2 {
            if self.0.len() >= lim {
                simrt::fault("write_refused");
                return Err(io::Error::new(io::ErrorKind::BrokenPipe, "gone"));
            }
            n = n.min(lim - self.0.len());
        }
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn comp(z: bool) -> PackCompression {
    if z {
        PackCompression::ZStd
    } else {
        PackCompression::None
    }
}
/// What one reading gave.
struct Got {
    open: Result<u16, String>,
    recs: Vec<R>,
    /// positions after each record, where the reader tells
    pos: Vec<u64>,
    err: Option<FetchError>,
    ended: bool,
    rest: Option<Vec<u8>>,
    asked: usize,
}
async fn read_async(pipe: Pipe, partial: bool, uid: u64, z: bool, version: u16, stop: Option<usize>) -> Got {
    let mut g = Got { open: Err(String::new()), recs: vec![], pos: vec![], err: None, ended: false, rest: None, asked: 0 };
    let it = if partial { AsyncPackIter::<R, Pipe>::open_partial(pipe, comp(z), version).await } else { AsyncPackIter::<R, Pipe>::open(pipe, uid).await };
    let mut it = match it {
        Ok(i) => i,
        Err(e) => {
            g.open = Err(e.to_string());
            return g;
        }
    };
    g.open = Ok(it.version());
    while stop.is_none_or(|s| g.recs.len() < s) {
        match it.next().await {
            None => {
                g.ended = true;
                break;
            }
            Some(Ok(v)) => g.recs.push(v),
            Some(Err(e)) => {
                g.err = Some(e);
                break;
            }
        }
    }
    let mut p = it.into_reader();
    g.asked = p.asked;
    if g.err.is_none() && !g.ended {
        let mut v = vec![];
        if AsyncReadExt::read_to_end(&mut p, &mut v).await.is_ok() {
            g.rest = Some(v);
        }
    }
    g
}
fn read_sync<S: Read + Seek>(src: S, uid: u64, stop: Option<usize>, back: bool) -> Got {
    let mut g = Got { open: Err(String::new()), recs: vec![], pos: vec![], err: None, ended: false, rest: None, asked: 0 };
    let mut it = match PackIter::<R, S>::open(src, uid) {
        Ok(i) => i,
        Err(e) => {
            g.open = Err(e.to_string());
            return g;
        }
    };
    g.open = Ok(it.version());
    g.pos.push(it.position().unwrap_or(0));
    while stop.is_none_or(|s| g.recs.len() < s) {
        match it.next() {
            None => {
                g.ended = true;
                break;
            }
            Some(Ok(v)) => {
                g.recs.push(v);
                g.pos.push(it.position().unwrap_or(0));
            }
            Some(Err(e)) => {
                g.err = Some(e);
                break;
            }
        }
    }
    if back && g.err.is_none() {
        // any record can be reached again at the position it started
        for i in (0..g.recs.len()).rev() {
            if it.set_position(g.pos[i]).is_ok() {
                if let Some(Ok(v)) = it.next() {
                    check!(v == g.recs[i], "seek", "record {i} read again at {} is record {}", g.pos[i], v.n);
                } else {
                    simrt::note(|| "reading again failed".into());
                }
            }
        }
    }
    g
}
fn scenario(sc: &Scenario) {
    let z = sc.p("zstd") == 1;
    let (uid, version) = (sc.p("uid") as u64, sc.p("version") as u16);
    let kind = sc.p("reader");
    let mut rng = Rng::new(simrt::mix(sc.seed, "transport"));
    let recs: Vec<R> = sc.ops.iter().enumerate().map(|(i, o)| R { n: i as u64, s: (o.u(1) % 3 == 0).then(|| "é".repeat((o.u(1) % 50) as usize)), body: body(o.u(1), o.u(0) as usize) }).collect();
    // The file form, and the bare form next to it: the same bytes after the header.
    let path = "/sim/a/data";
    let mut p: Pack<R> = Pack::open(path, uid, false, comp(z), version).expect("create");
    let mut ends = vec![28u64];
    for r in &recs {
        check!(p.append(r).ok() == ends.last().copied(), "position", "append reports another position than the file's end");
        ends.push(p.file_len());
    }
    p.commit().expect("commit");
    check!((p.version(), p.appnum()) == (version, 1), "header", "version {} appnum {}", p.version(), p.appnum());
    drop(p);
    let file = disk().peek(path).unwrap();
    let mut s = Sink(vec![], Rng::new(Rng::next(&mut rng)), None);
    let (mut b1, mut b2) = (vec![], vec![]);
    for r in &recs {
        check!(write_value(r, &mut s, &mut b1, &mut b2, comp(z)).is_ok(), "write", "write_value fails on a writer that takes everything");
    }
    check!(s.0 == file[28..], "write", "the bytes of the records depend on how the writer takes them");
    let lim = rng.below(file.len() as u64 + 1) as usize;
    let mut s = Sink(vec![], Rng::new(rng.next()), Some(lim));
    let all = recs.iter().all(|r| write_value(r, &mut s, &mut b1, &mut b2, comp(z)).is_ok());
    check!(all == (lim >= file.len() - 28), "write", "writing {} bytes to a peer that takes {lim}: reported {all}", file.len() - 28);
    let base = if kind == 1 { 28 } else { 0 };
    let clean: Vec<u8> = file[base..].to_vec();
    let mut data = clean.clone();
    let mut reset = None;
    for f in &sc.faults {
        if data.is_empty() {
            continue;
        }
        let at = (f.u(0) % data.len() as u64) as usize;
        match f.k.as_str() {
            "cut" => data.truncate(at),
            "flip" => data[at] ^= 1 << f.u(1),
            "reset" if kind == 3 => {}
            "reset" => reset = Some(at),
            _ => {
                // a record that claims to be larger than it is
                let i = (f.u(0) % recs.len().max(1) as u64) as usize;
                let a = ends[i] as usize - base;
                if a + 4 <= data.len() {
                    let v = [MAX as u32 + 1, u32::MAX, MAX as u32, 1 << 20][f.u(1) as usize % 4];
                    data[a..a + 4].copy_from_slice(&v.to_le_bytes());
                }
            }
        }
        simrt::fault(&format!("stream_{}", f.k));
    }
    let reset = reset.filter(|r| *r <= data.len());
    // the first byte at which the stream is not what was written
    let bad = data.iter().zip(&clean).position(|(a, b)| a != b).unwrap_or(data.len().min(clean.len()));
    let bad = reset.map_or(bad, |r| r.min(bad));
    let damaged = data != clean || reset.is_some();
    let whole = ends[1..].iter().filter(|e| **e as usize - base <= bad).count();
    let other = sc.p("other") == 1 && kind != 1;
    let ask = uid + other as u64;
    let stop = (sc.p("stop") >= 0).then(|| sc.p("stop") as usize);
    simrt::event(9, hash_str(&format!("{data:?}{reset:?}")));
    let pipe = Pipe { data: data.clone(), at: 0, frag: sc.p("frag") as u64, stall: sc.p("stall") as u64, rng: rng.clone(), reset, sleep: None, asked: 0 };
    let g = match kind {
        0 | 1 => {
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
            rt.block_on(read_async(pipe, kind == 1, ask, z, version, stop))
        }
        2 => read_sync(pipe, ask, stop, reset.is_none()),
        _ => {
            disk().poke(path, |f| *f = data.clone());
            read_sync(std::fs::File::open(path).expect("open"), ask, stop, true)
        }
    };
    simrt::note(|| format!("open {:?} recs {} err {:?} ended {} whole {whole} damaged {damaged}", g.open, g.recs.len(), g.err, g.ended));
    // The header.
    match &g.open {
        Ok(v) => {
            check!(kind == 1 || bad >= 28, "header-accepted", "a damaged header was accepted");
            check!(!other, "header-accepted", "the file of another epoch was accepted");
            check!(*v == version, "version", "version {v}, written {version}");
        }
        Err(e) => {
            check!(other || (kind != 1 && bad < 28), "refused", "an intact stream was refused: {e}");
            check!(g.recs.is_empty(), "refused", "records from a refused stream");
            return;
        }
    }
    // The records: exactly those before the damage, and then no other.
    check!(g.recs.len() <= whole, "phantom", "{} records read, only {whole} arrived intact", g.recs.len());
    check!(g.recs[..] == recs[..g.recs.len()], "changed", "records differ from what was written");
    let want = stop.unwrap_or(usize::MAX).min(whole);
    check!(g.recs.len() == want, "missing", "{} records read, {want} were there: {:?}", g.recs.len(), g.err);
    if g.ended {
        let left = data.len() as i64 - (ends[whole] as i64 - base as i64);
        check!(!damaged || (reset.is_none() && left < 4), "silent-end", "the stream ends cleanly although {left} bytes follow the last record (reset {reset:?})");
    } else if g.err.is_some() {
        check!(damaged, "spurious-error", "an intact stream fails: {:?}", g.err);
    }
    for (i, p) in g.pos.iter().enumerate() {
        check!(*p == ends[i], "position", "after {i} records the reader is at {p}, not {}", ends[i]);
    }
    if let Some(rest) = &g.rest {
        let at = ends[g.recs.len()] as usize - base;
        check!(rest[..] == data[at..], "overread", "the reader handed back gives {} bytes, {} follow the last record read", rest.len(), data.len() - at);
        simrt::probe("handed_back");
    }
    check!(g.asked <= MAX, "allocation", "a single read asked for {} bytes", g.asked);
    state(hash_str(&format!("{:?}", (kind, g.recs.len(), g.ended, g.err.as_ref().map(|e| std::mem::discriminant(e))))));
}
/// Records around the size limit, and ones that grow when unpacked.
fn big(which: i64) {
    let body = |n: usize| Big(vec![3; n]);
    // bcs puts a length of four bytes in front
    let (n, z, fits) = match which {
        1 => (MAX - 4, true, true),
        2 => (MAX - 3, true, false),
        3 => (MAX - 4, false, true),
        _ => (MAX - 3, false, false),
    };
    let mut out = vec![];
    let ok = write_value(&body(n), &mut out, &mut vec![], &mut vec![], comp(z));
    check!(ok.is_ok() || !fits, "write", "a record of the largest size is refused");
    if ok.is_err() {
        return;
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let r = rt.block_on(async {
        let mut it = AsyncPackIter::<Big, _>::open_partial(&out[..], comp(z), 0).await.expect("partial");
        it.next().await
    });
    match r {
        Some(Ok(v)) => check!(fits && v == body(n), "limit", "a record of {} encoded bytes was accepted", n + 4),
        Some(Err(e)) => check!(!fits && matches!(e, FetchError::RequestedSizeTooLarge(..) | FetchError::RequestedDecompressSizeTooLarge(..)), "limit", "a record of {} encoded bytes: {e}", n + 4),
        None => violate("limit", "a large record reads as the end of the stream".to_string()),
    }
    simrt::probe("size_limit");
}
fn run(sc: &Scenario) {
    disk().mkvol("a");
    let s2 = sc.clone();
    process("node", FOREVER, move || {
        if s2.p("big") > 0 {
            big(s2.p("big"));
        }
        scenario(&s2)
    });
}
