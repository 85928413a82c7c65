//! What travelled on the wires of a run, decoded after it.
use crate::fabric::{fab, Tapped};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Read as _;
use tn_primary::network::{PrimaryRequest, PrimaryResponse};
use tn_types::{Certificate, ConsensusResult, EpochVote};
use tn_worker::{WorkerRequest, WorkerResponse};

/// The gossip of the primaries, as it is encoded.
#[derive(Serialize, Deserialize, Debug)]
pub enum Gossip {
    Certificate(Box<Certificate>),
    Consensus(Box<ConsensusResult>),
    EpochVote(Box<EpochVote>),
}
pub enum Msg {
    PReq(PrimaryRequest),
    /// with the request it answers
    PRes(Option<PrimaryRequest>, PrimaryResponse),
    WReq(WorkerRequest),
    WRes(Option<WorkerRequest>, WorkerResponse),
    Gossip { source: Vec<u8>, topic: String, msg: Gossip },
}
pub struct Sent {
    pub at: u64,
    pub from: usize,
    pub to: usize,
    pub msg: Msg,
}
fn varint(b: &[u8], at: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for s in 0..10 {
        let c = *b.get(*at)?;
        *at += 1;
        v |= ((c & 127) as u64) << (7 * s);
        if c < 128 {
            return Some(v);
        }
    }
    None
}
/// The protocol a substream settled on, and where its payload starts.
fn negotiated(b: &[u8]) -> Option<(String, usize)> {
    let mut at = 0;
    let mut last = None;
    while last.is_none() {
        let n = varint(b, &mut at)? as usize;
        let s = b.get(at..at + n)?;
        at += n;
        let s = std::str::from_utf8(s).ok()?.trim_end();
        if s.starts_with("/multistream/") {
            continue;
        }
        last = Some(s.to_string());
    }
    Some((last?, at))
}
fn time_of(t: &Tapped, end: usize) -> u64 {
    t.marks.iter().rev().find(|m| m.0 < end).map(|m| m.1).unwrap_or(t.at)
}
fn message<M: serde::de::DeserializeOwned>(b: &[u8], at: usize) -> Option<(M, usize)> {
    let n = u32::from_le_bytes(b.get(at..at + 4)?.try_into().ok()?) as usize;
    let c = u32::from_le_bytes(b.get(at + 4..at + 8)?.try_into().ok()?) as usize;
    let body = b.get(at + 8..at + 8 + c)?;
    let mut out = Vec::new();
    snap::read::FrameDecoder::new(body).take(n as u64).read_to_end(&mut out).ok()?;
    Some((bcs::from_bytes(&out).ok()?, at + 8 + c))
}
fn rpc(b: &[u8], out: &mut Vec<(Vec<u8>, String, Vec<u8>)>) -> Option<()> {
    let mut at = 0;
    while at < b.len() {
        let tag = varint(b, &mut at)?;
        if tag & 7 == 0 {
            varint(b, &mut at)?;
            continue;
        }
        let n = varint(b, &mut at)? as usize;
        let f = b.get(at..at + n)?;
        at += n;
        if tag >> 3 == 2 {
            let (mut source, mut topic, mut data) = (vec![], String::new(), vec![]);
            let mut p = 0;
            while p < f.len() {
                let t = varint(f, &mut p)?;
                if t & 7 == 0 {
                    varint(f, &mut p)?;
                    continue;
                }
                let n = varint(f, &mut p)? as usize;
                let v = f.get(p..p + n)?;
                p += n;
                match t >> 3 {
                    1 => source = v.to_vec(),
                    2 => data = v.to_vec(),
                    4 => topic = String::from_utf8_lossy(v).into_owned(),
                    _ => {}
                }
            }
            out.push((source, topic, data));
        }
    }
    Some(())
}
/// Everything the nodes' own processes sent, in the order it was sent.
pub fn decode() -> Vec<Sent> {
    let taps = fab(|f| std::mem::take(&mut f.tap));
    let mut out = vec![];
    let mut streams: BTreeMap<(usize, u64), [Option<&Tapped>; 2]> = BTreeMap::new();
    for ((c, _, s), t) in &taps {
        streams.entry((*c, *s)).or_default()[usize::from(!t.opener)] = Some(t);
    }
    for pair in streams.values() {
        let Some(a) = pair[0] else { continue };
        let Some((proto, at)) = negotiated(&a.bytes) else { continue };
        if proto.starts_with("/tn-meshsub") || proto.starts_with("/meshsub") {
            let mut p = at;
            while p < a.bytes.len() {
                let Some(n) = varint(&a.bytes, &mut p) else { break };
                let Some(frame) = a.bytes.get(p..p + n as usize) else { break };
                p += n as usize;
                let mut msgs = vec![];
                rpc(frame, &mut msgs);
                let at = time_of(a, p);
                for (source, topic, data) in msgs {
                    if let Ok(msg) = bcs::from_bytes::<Gossip>(&data) {
                        if topic.contains("worker") {
                            continue;
                        }
                        out.push(Sent { at, from: a.from, to: a.to, msg: Msg::Gossip { source, topic, msg } });
                    }
                }
            }
            continue;
        }
        let primary = proto.starts_with("/tn-primary-") && proto.ends_with("/0.0.2");
        let worker = proto.starts_with("/tn-worker-") && proto.ends_with("/0.0.2");
        let back = pair[1].and_then(|t| negotiated(&t.bytes).map(|(_, at)| (t, at)));
        if primary {
            let req = message::<PrimaryRequest>(&a.bytes, at);
            if let Some((m, e)) = &req {
                out.push(Sent { at: time_of(a, *e), from: a.from, to: a.to, msg: Msg::PReq(m.clone()) });
            }
            if let Some((t, at)) = back {
                if let Some((m, e)) = message::<PrimaryResponse>(&t.bytes, at) {
                    let msg = Msg::PRes(req.map(|r| r.0), m);
                    out.push(Sent { at: time_of(t, e), from: t.from, to: t.to, msg });
                }
            }
        } else if worker {
            let req = message::<WorkerRequest>(&a.bytes, at);
            if let Some((m, e)) = &req {
                out.push(Sent { at: time_of(a, *e), from: a.from, to: a.to, msg: Msg::WReq(m.clone()) });
            }
            if let Some((t, at)) = back {
                if let Some((m, e)) = message::<WorkerResponse>(&t.bytes, at) {
                    let msg = Msg::WRes(req.map(|r| r.0), m);
                    out.push(Sent { at: time_of(t, e), from: t.from, to: t.to, msg });
                }
            }
        }
    }
    out.sort_by_key(|s| s.at);
    out
}
