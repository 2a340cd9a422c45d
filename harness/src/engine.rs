//! Executes a `Case` against the real implementation and the model, and
//! compares everything the clients observe, window by window.

use crate::gen;
use crate::model::*;
use crate::ops::*;
use crate::sim::{self, Client, Sim};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cat {
    /// the event loop ended (panic)
    LoopDead,
    Framing,
    /// missing, unexpected or out of order answer, or wrong GID/OID
    RspShape,
    RspContent,
    SessionNtf,
    DeviceNtf,
    MulticastNtf,
    InfoCount,
    InfoTime,
    InfoSeq,
    InfoContent,
    Data,
    Event,
    Anchor,
    Dropped,
    Order,
    Pcap,
    Unexpected,
}

/// Reruns of a failing case without the messages that should not matter.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Omit {
    Nothing,
    /// other devices and, if given, other sessions of the device
    Others(usize, Option<u32>),
    /// messages of the device before its n-th reset
    Before(usize, u32),
    /// the disconnections
    Losses,
    /// every message in as few packets as possible
    Segmentation,
}

#[derive(Clone, Debug)]
pub struct Mismatch {
    pub cat: Cat,
    /// command (or cause) concerned
    pub cmd: &'static str,
    pub slot: Option<usize>,
    pub sid: Option<u32>,
    /// the window's operations do not target this session / device
    pub foreign: bool,
    /// a device was disconnected before
    pub after_loss: bool,
    /// concerns a message over 200 bytes
    pub large: bool,
    /// resets of the device, multicast list updates of the session so far
    pub resets: u32,
    pub updates: u32,
    pub detail: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub c: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.c.entry(k).or_default() += n;
        }
    }
    pub fn get(&self, k: &str) -> u64 {
        self.c.get(k).copied().unwrap_or(0)
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.c {
            *self.c.entry(k).or_default() += v;
        }
    }
}

pub struct Slot {
    pub client: Client,
    /// engine considers the connection alive (accepts operations)
    pub alive: bool,
    /// the output half is not observed any more
    pub deaf: bool,
    pub stalled: bool,
    was_stalled: bool,
    partial: Option<Vec<u8>>,
    pub msgs: Vec<(u64, Vec<u8>)>,
    expected: Vec<Out>,
    pub sent: Vec<Vec<u8>>,
    pub received: Vec<Vec<u8>>,
}

pub struct Engine {
    pub sim: Sim,
    pub model: Model,
    pub slots: Vec<Slot>,
    pub stats: Stats,
    pub mismatches: Vec<Mismatch>,
    pub n_sids: u8,
    /// targets of the operations of the current window
    targets: Vec<(usize, Option<u32>)>,
    /// handles returned for the devices added directly
    returned: std::collections::VecDeque<Option<usize>>,
    gated: bool,
    loose_time: bool,
    anchor_rx: Vec<(
        usize,
        tokio::sync::oneshot::Receiver<Result<usize, pica::PicaCommandError>>,
    )>,
    next_id: usize,
    handles: BTreeSet<usize>,
    pub inconclusive: bool,
    /// part of the messages to leave out
    pub omit: Omit,
    omit_resets: u32,
    pub pcap_dir: Option<std::path::PathBuf>,
    /// device, packets exchanged before, real milliseconds
    pub pauses: Vec<(usize, usize, u64)>,
}

const SETTLE: u64 = 12;
pub const MIN_DURATION: u64 = 8;

fn hex(b: &[u8]) -> String {
    if b.len() > 60 {
        format!("{}..({} bytes)", hex(&b[..60]), b.len())
    } else {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }
}

fn normalise(m: &[u8]) -> Vec<u8> {
    let mut v = m.to_vec();
    v[0] &= !0x10;
    v[1] &= 0x3f;
    v[2] = 0;
    v[3] = 0;
    v
}

/// Classification of an observed control message.
fn classify(m: &[u8]) -> Option<Class> {
    let sid = || {
        if m.len() >= 8 {
            u32le(&m[4..])
        } else {
            0
        }
    };
    Some(match (m[0] >> 5, m[0] & 0xf, m[1] & 0x3f) {
        (2, _, _) => Class::Immediate,
        (3, 0, 1) if m.get(4) == Some(&DEV_ERROR) => Class::Immediate,
        (3, 0, 1) => Class::DeviceStatus,
        (3, 2, 4) | (3, 2, 5) => Class::Immediate,
        (3, 1, 2) => Class::SessionStatus { sid: sid() },
        (3, 1, 7) => Class::MulticastNtf { sid: sid() },
        (3, 2, 0) if m.len() >= 12 => Class::Info {
            sid: u32le(&m[8..]),
        },
        _ => return None,
    })
}

impl Engine {
    pub fn new(n_sids: u8, pcap_dir: Option<std::path::PathBuf>, shared: bool) -> Engine {
        Engine {
            sim: Sim::with(pcap_dir.clone(), shared),
            returned: Default::default(),
            model: Model::default(),
            slots: vec![],
            stats: Stats::default(),
            mismatches: vec![],
            n_sids: n_sids.max(1),
            targets: vec![],
            gated: false,
            loose_time: false,
            anchor_rx: vec![],
            next_id: 0,
            handles: BTreeSet::new(),
            inconclusive: false,
            omit: Omit::Nothing,
            omit_resets: 0,
            pcap_dir,
            pauses: vec![],
        }
    }

    pub fn sid(&self, s: u8) -> u32 {
        // selectors >= 128 name sessions created by Many
        if s >= 128 {
            1000 + (s - 128) as u32
        } else {
            SIDS[s as usize % self.n_sids as usize % SIDS.len()]
        }
    }

    pub fn live(&self) -> Vec<usize> {
        (0..self.slots.len())
            .filter(|i| self.slots[*i].alive)
            .collect()
    }

    pub fn pick(&self, c: u8) -> Option<usize> {
        let l = self.live();
        if l.is_empty() {
            None
        } else {
            Some(l[c as usize % l.len()])
        }
    }

    pub fn dev(&self, slot: usize) -> Option<&Dev> {
        self.model
            .slots
            .get(&slot)
            .and_then(|h| self.model.devs.get(h))
    }

    fn fail(&mut self, cat: Cat, cmd: &'static str, slot: Option<usize>, sid: Option<u32>, detail: String) {
        self.fail2(cat, cmd, slot, sid, false, detail)
    }

    fn fail2(
        &mut self,
        cat: Cat,
        cmd: &'static str,
        slot: Option<usize>,
        sid: Option<u32>,
        large: bool,
        detail: String,
    ) {
        // A device level output (no sid) is foreign to the operations of
        // other devices; a session level one to those that do not name it.
        let foreign = !self.targets.is_empty()
            && match (slot, sid) {
                (None, _) => false,
                (Some(s), None) => !self.targets.iter().any(|t| t.0 == s),
                (Some(s), Some(sid)) => !self
                    .targets
                    .iter()
                    .any(|t| t.1 == Some(sid) || (t.0 == s && t.1.is_none())),
            };
        let dev = slot.and_then(|s| self.dev(s));
        let resets = dev.map_or(0, |d| d.resets);
        let updates = dev
            .and_then(|d| d.sessions.get(&sid?))
            .map_or(0, |s| s.updates);
        self.mismatches.push(Mismatch {
            cat,
            cmd,
            slot,
            sid,
            foreign,
            after_loss: self.stats.get("disconnects") > 0,
            large,
            resets,
            updates,
            detail: format!("t={} {}", self.model.now, detail),
        })
    }

    /// Move to the next instant without modelled tick, at least `ms` later,
    /// and compare everything observed on the way.
    pub async fn step(&mut self, ms: u64) {
        if !self.mismatches.is_empty() || self.inconclusive {
            return;
        }
        let mut t = self.model.now + ms;
        let mut tries = 0;
        while self.model.tick_near(t) {
            t += 1;
            tries += 1;
            if tries > 200 {
                // no gap between the ticks
                self.inconclusive = true;
                return;
            }
        }
        // never queue too many ticks behind a closed gate
        self.sim.sleep_until(t).await;
        self.sim.drain().await;
        let drift = self.sim.now();
        if drift != t {
            self.inconclusive = true;
            return;
        }
        self.model.advance_to(t);
        if self.model.ambiguous {
            self.inconclusive = true;
            return;
        }
        if !self.gated {
            self.compare();
        }
    }

    fn pull(&mut self, slot: usize) {
        let packets = self.slots[slot].client.take();
        for (t, p) in packets {
            self.slots[slot].received.push(p.clone());
            if p.len() < 4 {
                self.fail(
                    Cat::Framing,
                    "",
                    Some(slot),
                    None,
                    format!("short packet {}", hex(&p)),
                );
                continue;
            }
            let mt = p[0] >> 5;
            let (len, max) = if mt == 0 {
                (u16::from_le_bytes([p[2], p[3]]) as usize, 1024)
            } else {
                (p[3] as usize, 255)
            };
            let large = self.slots[slot].partial.is_some() || p[0] & 0x10 != 0;
            if len != p.len() - 4 || len > max || (len == 0 && large) {
                self.fail2(
                    Cat::Framing,
                    "",
                    Some(slot),
                    None,
                    true,
                    format!("bad packet length {} (payload {}): {}", len, p.len() - 4, hex(&p)),
                );
            }
            if mt > 3 {
                self.fail(Cat::Framing, "", Some(slot), None, format!("bad mt {}", hex(&p)));
            }
            if large {
                self.stats.add("segments", 1)
            }
            let s = &mut self.slots[slot];
            let mut bad = None;
            match &mut s.partial {
                None => s.partial = Some(p.clone()),
                Some(m) => {
                    if (m[0] & !0x10) != (p[0] & !0x10) || (mt != 0 && m[1] != p[1]) {
                        bad = Some(format!(
                            "interleaved segments {} after {}",
                            hex(&p),
                            hex(m)
                        ));
                    }
                    m.extend_from_slice(&p[4..])
                }
            }
            if p[0] & 0x10 == 0 {
                let m = s.partial.take().unwrap();
                s.msgs.push((t, m));
            }
            if let Some(d) = bad {
                self.fail2(Cat::Framing, "", Some(slot), None, true, d);
            }
        }
    }

    pub fn compare(&mut self) {
        if !self.sim.alive() {
            self.fail(
                Cat::LoopDead,
                "",
                None,
                None,
                "the pica event loop terminated (panic)".into(),
            );
            return;
        }
        // Events and anchors first: handles.
        let got = self.sim.take_events();
        let want = std::mem::take(&mut self.model.events);
        self.compare_events(got, want);
        for (id, mut rx) in std::mem::take(&mut self.anchor_rx) {
            let want = self.model.anchor_results.remove(&id);
            let got = rx.try_recv();
            self.compare_anchor(want, got);
        }
        if !self.mismatches.is_empty() || self.inconclusive {
            return;
        }
        // Distribute the expected outputs.
        for o in std::mem::take(&mut self.model.outs) {
            let slot = self
                .model
                .slots
                .iter()
                .find(|(_, h)| **h == o.dev)
                .map(|(s, _)| *s);
            if let Some(slot) = slot {
                if !self.slots[slot].deaf {
                    self.slots[slot].expected.push(o)
                }
            }
        }
        for slot in 0..self.slots.len() {
            if self.slots[slot].deaf {
                self.slots[slot].client.take();
                continue;
            }
            let gone = self.model.slots.contains_key(&slot) && self.dev(slot).is_none();
            if gone {
                self.slots[slot].deaf = true;
                self.slots[slot].alive = false;
                continue;
            }
            if self.slots[slot].stalled {
                continue;
            }
            if self.slots[slot].client.server_dropped() {
                self.fail(
                    Cat::Dropped,
                    "",
                    Some(slot),
                    None,
                    format!("the server dropped the connection of client {}", slot),
                );
                continue;
            }
            self.pull(slot);
            if self.slots[slot].partial.is_some() {
                self.fail2(
                    Cat::Framing,
                    "",
                    Some(slot),
                    None,
                    true,
                    "message without final segment".into(),
                );
            }
            self.compare_slot(slot);
            self.slots[slot].was_stalled = false;
        }
        self.targets.clear();
    }

    fn compare_events(&mut self, got: Vec<sim::Event>, want: Vec<MEvent>) {
        let mut w = want.into_iter();
        for g in got {
            self.stats.add("events", 1);
            if let sim::Event::Connected(h, m) = &g {
                // identity rules hold whatever the allocation policy is
                let returned = self.returned.pop_front().flatten();
                if returned.is_some_and(|r| r != *h) {
                    self.fail(
                        Cat::Anchor,
                        "handle",
                        None,
                        None,
                        format!("handle {h} announced for the device added as {returned:?}"),
                    );
                }
                if !self.handles.insert(*h) {
                    self.fail(
                        Cat::Anchor,
                        "handle",
                        None,
                        None,
                        format!("handle {} reused by a new device", h),
                    );
                }
                let clash = self.model.anchors.contains_key(m)
                    || self.model.devs.values().any(|d| d.mac == *m && d.handle != *h);
                if clash {
                    self.fail(
                        Cat::Anchor,
                        "address",
                        None,
                        None,
                        format!("address {} of the new device is already used", hex(m)),
                    );
                }
            }
            let e = w.next();
            let same = match (&g, &e) {
                (sim::Event::Connected(h, m), Some(MEvent::Connected(h2, m2))) => {
                    if h != h2 || m != m2 {
                        // another allocation policy
                        self.inconclusive = self.mismatches.is_empty();
                        return;
                    }
                    true
                }
                (sim::Event::Disconnected(h, m), Some(MEvent::Disconnected(h2, m2))) => {
                    h == h2 && m == m2
                }
                _ => false,
            };
            if !same {
                self.fail(
                    Cat::Event,
                    "event",
                    None,
                    None,
                    format!("event {:?}, expected {:?}", g, e),
                );
                return;
            }
        }
        if let Some(e) = w.next() {
            self.fail(
                Cat::Event,
                "event",
                None,
                None,
                format!("missing event {:?}", e),
            )
        }
    }

    fn compare_anchor(
        &mut self,
        want: Option<Result<usize, bool>>,
        got: Result<
            Result<usize, pica::PicaCommandError>,
            tokio::sync::oneshot::error::TryRecvError,
        >,
    ) {
        self.stats.add("anchor_requests", 1);
        let detail = format!("anchor request result {:?}, expected {:?}", got, want);
        let ok = match (&want, &got) {
            (Some(Ok(h)), Ok(Ok(g))) => {
                if h != g {
                    if self.model.anchors.values().any(|x| x == h) {
                        // creation: any new handle is fine
                        if self.handles.contains(g) {
                            false
                        } else {
                            self.inconclusive = true;
                            true
                        }
                    } else {
                        // destruction must return the handle given before
                        false
                    }
                } else {
                    true
                }
            }
            (Some(Err(true)), Ok(Err(pica::PicaCommandError::DeviceAlreadyExists(_)))) => true,
            (Some(Err(false)), Ok(Err(pica::PicaCommandError::DeviceNotFound(_)))) => true,
            _ => false,
        };
        if let Ok(Ok(g)) = got {
            if self.model.anchors.values().any(|x| *x == g) {
                self.handles.insert(g);
            }
        }
        match want {
            Some(Err(_)) => self.stats.add("anchor_refused", 1),
            _ => self.stats.add("anchor_ok", 1),
        }
        if !ok {
            self.fail(Cat::Anchor, "anchor", None, None, detail)
        }
    }

    fn compare_slot(&mut self, slot: usize) {
        let loose = self.slots[slot].was_stalled || self.loose_time;
        let expected = std::mem::take(&mut self.slots[slot].expected);
        let got = std::mem::take(&mut self.slots[slot].msgs);
        let handle = self.model.slots[&slot];
        let _ = handle;

        let mut imm: Vec<&Vec<u8>> = vec![];
        let mut info: BTreeMap<u32, Vec<(u64, &Vec<u8>)>> = BTreeMap::new();
        let mut delayed: Vec<(usize, &Vec<u8>)> = vec![];
        let mut data: BTreeMap<(u32, Vec<u8>), Vec<u8>> = BTreeMap::new();
        let mut reset_rsp_at: Option<usize> = None;
        for (i, (t, m)) in got.iter().enumerate() {
            if m[0] >> 5 == 0 {
                // DataMessageRcv
                let p = &m[4..];
                let n = if p.len() >= 17 {
                    u16::from_le_bytes([p[15], p[16]]) as usize
                } else {
                    usize::MAX
                };
                if m[0] & 0xf != 2 || p.len() < 17 || p.len() - 17 != n || p[4] != 0 {
                    self.fail2(
                        Cat::Data,
                        "data",
                        Some(slot),
                        None,
                        true,
                        format!("bad data message {}", hex(m)),
                    );
                    continue;
                }
                self.stats.add("data_msgs", 1);
                if n > 1007 {
                    self.stats.add("data_large", 1)
                }
                let sid = u32le(p);
                let e = data.entry((sid, p[5..13].to_vec())).or_default();
                e.extend_from_slice(&p[17..]);
                continue;
            }
            match classify(m) {
                Some(Class::Immediate) => {
                    if m[0] & 0xef == 0x40 && m[1] & 0x3f == 0 {
                        reset_rsp_at = Some(i)
                    }
                    imm.push(m)
                }
                Some(Class::Info { sid }) => info.entry(sid).or_default().push((*t, m)),
                Some(_) => delayed.push((i, m)),
                None => self.fail(
                    Cat::Unexpected,
                    "",
                    Some(slot),
                    None,
                    format!("unexpected message {}", hex(m)),
                ),
            }
        }

        // Answers, in order.
        let wimm: Vec<&Out> = expected
            .iter()
            .filter(|o| o.class == Class::Immediate)
            .collect();
        for (i, w) in wimm.iter().enumerate() {
            self.stats.add("responses", 1);
            self.stats.add(w.cause.cmd, 1);
            let wn = normalise(&w.msg);
            if wn.len() - 4 > 255 {
                self.stats.add("large_responses", 1)
            }
            let large = wn.len() > 204;
            match imm.get(i) {
                None => {
                    self.fail2(
                        Cat::RspShape,
                        w.cause.cmd,
                        Some(slot),
                        w.cause.sid,
                        large,
                        format!("missing answer to {:?}: {}", w.cause.cmd, hex(&wn)),
                    );
                    break;
                }
                Some(g) => {
                    let gn = normalise(g);
                    if gn != wn {
                        let cat = if gn[..2] != wn[..2] || gn.len() == 4 {
                            Cat::RspShape
                        } else {
                            Cat::RspContent
                        };
                        self.fail2(
                            cat,
                            w.cause.cmd,
                            Some(slot),
                            w.cause.sid,
                            large,
                            format!(
                                "answer to {} session {:x?}: got {} expected {}",
                                w.cause.cmd,
                                w.cause.sid,
                                hex(&gn),
                                hex(&wn)
                            ),
                        );
                        break;
                    }
                }
            }
        }
        if imm.len() > wimm.len() && self.mismatches.is_empty() {
            self.fail(
                Cat::RspShape,
                "extra",
                Some(slot),
                None,
                format!("unexpected answer {}", hex(imm[wimm.len()])),
            );
        }

        // Delayed notifications as multisets.
        let mut left: Vec<(usize, Vec<u8>)> =
            delayed.iter().map(|(i, m)| (*i, normalise(m))).collect();
        for w in expected.iter().filter(|o| {
            matches!(
                o.class,
                Class::SessionStatus { .. } | Class::DeviceStatus | Class::MulticastNtf { .. }
            )
        }) {
            let cat = match w.class {
                Class::SessionStatus { .. } => Cat::SessionNtf,
                Class::DeviceStatus => Cat::DeviceNtf,
                _ => Cat::MulticastNtf,
            };
            match cat {
                Cat::SessionNtf => self.stats.add("session_ntf", 1),
                Cat::DeviceNtf => self.stats.add("device_ntf", 1),
                _ => self.stats.add("multicast_ntf", 1),
            }
            if w.cause.cmd == "inband" {
                self.stats.add("inband_ntf", 1)
            }
            let wn = normalise(&w.msg);
            match left.iter().position(|(_, g)| *g == wn) {
                Some(k) => {
                    let (i, _) = left.remove(k);
                    if w.cause.cmd == "reset" && !loose && reset_rsp_at.map_or(false, |r| i < r) {
                        self.fail(
                            Cat::Order,
                            "reset",
                            Some(slot),
                            None,
                            "notification of a reset before its response".into(),
                        )
                    }
                }
                None => self.fail(
                    cat,
                    w.cause.cmd,
                    Some(slot),
                    w.cause.sid,
                    format!(
                        "missing notification {} (cause {}); others: {:?}",
                        hex(&wn),
                        w.cause.cmd,
                        left.iter().map(|x| hex(&x.1)).collect::<Vec<_>>()
                    ),
                ),
            }
        }
        for (_, g) in left {
            let (cat, sid) = match classify(&g) {
                Some(Class::SessionStatus { sid }) => (Cat::SessionNtf, Some(sid)),
                Some(Class::MulticastNtf { sid }) => (Cat::MulticastNtf, Some(sid)),
                _ => (Cat::DeviceNtf, None),
            };
            let cmd = expected.iter().map(|e| e.cause.cmd).next().unwrap_or("");
            self.fail(
                cat,
                cmd,
                Some(slot),
                sid,
                format!("unexpected notification {}", hex(&g)),
            )
        }

        // Ranging notifications.
        let mut winfo: BTreeMap<u32, Vec<&Out>> = BTreeMap::new();
        for o in &expected {
            if let Class::Info { sid } = o.class {
                winfo.entry(sid).or_default().push(o)
            }
        }
        let sids: BTreeSet<u32> = winfo.keys().chain(info.keys()).copied().collect();
        for sid in sids {
            let w = winfo.remove(&sid).unwrap_or_default();
            let g = info.remove(&sid).unwrap_or_default();
            self.stats.add("info_ntf", w.len() as u64);
            if w.len() != g.len() {
                self.fail(
                    Cat::InfoCount,
                    "ranging",
                    Some(slot),
                    Some(sid),
                    format!(
                        "session {:x}: {} ranging notifications at {:?}, expected {} at {:?}",
                        sid,
                        g.len(),
                        g.iter().map(|x| x.0).take(8).collect::<Vec<_>>(),
                        w.len(),
                        w.iter().map(|x| x.time).take(8).collect::<Vec<_>>(),
                    ),
                );
            }
            for ((t, g), w) in g.iter().zip(&w) {
                if !loose && (*t as i64 - w.time as i64).abs() > 2 {
                    self.fail(
                        Cat::InfoTime,
                        "ranging",
                        Some(slot),
                        Some(sid),
                        format!("ranging notification at {} expected at {}", t, w.time),
                    );
                }
                self.compare_info(slot, sid, g, &w.msg);
            }
        }

        // Data.
        let mut wdata: BTreeMap<(u32, Vec<u8>), Vec<u8>> = BTreeMap::new();
        let mut senders: BTreeMap<(u32, Vec<u8>), BTreeMap<usize, Vec<&[u8]>>> = BTreeMap::new();
        for o in &expected {
            if let Class::DataRcv { sid, src } = &o.class {
                if !o.msg.is_empty() {
                    senders
                        .entry((*sid, src.clone()))
                        .or_default()
                        .entry(o.cause.dev)
                        .or_default()
                        .push(&o.msg);
                }
                wdata
                    .entry((*sid, src.clone()))
                    .or_default()
                    .extend_from_slice(&o.msg)
            }
        }
        wdata.retain(|_, v| !v.is_empty());
        data.retain(|_, v| !v.is_empty());
        for v in wdata.values() {
            self.stats.add("data_bytes", v.len() as u64);
            self.stats.add("data_deliveries", 1);
        }
        if wdata != data {
            let keys: BTreeSet<_> = wdata.keys().chain(data.keys()).cloned().collect();
            for k in keys {
                let (w, g) = (wdata.get(&k), data.get(&k));
                // Devices with the same address may transfer their data at
                // the same instant, in any order.
                if let (Some(s), Some(g)) = (senders.get(&k), g) {
                    if s.len() > 1 && interleaving(&s.values().collect::<Vec<_>>(), g) {
                        continue;
                    }
                }
                if w != g {
                    self.fail2(
                        Cat::Data,
                        "data",
                        Some(slot),
                        Some(k.0),
                        w.or(g).map_or(false, |v| v.len() > 200),
                        format!(
                            "data delivered to client {} on session {:x} from {}: {} expected {}",
                            slot,
                            k.0,
                            hex(&k.1),
                            g.map_or("none".into(), |v| hex(v)),
                            w.map_or("none".into(), |v| hex(v))
                        ),
                    )
                }
            }
        }
    }

    fn compare_info(&mut self, slot: usize, sid: u32, g: &[u8], w: &[u8]) {
        let large = w.len() > 204;
        let (g, w) = (&g[4..], &w[4..]);
        if g.len() < 25 {
            return self.fail(
                Cat::InfoContent,
                "ranging",
                Some(slot),
                Some(sid),
                format!("short ranging notification {}", hex(g)),
            );
        }
        if g[..4] != w[..4] {
            self.fail(
                Cat::InfoSeq,
                "ranging",
                Some(slot),
                Some(sid),
                format!("sequence number {} expected {}", u32le(g), u32le(w)),
            );
        }
        // short and extended measurements have the same size
        let size = 31;
        let split = |b: &[u8]| -> Option<Vec<Vec<u8>>> {
            if b.len() != 25 + b[24] as usize * size {
                return None;
            }
            let mut v: Vec<Vec<u8>> = b[25..].chunks(size).map(|c| c.to_vec()).collect();
            v.sort();
            Some(v)
        };
        let ws = split(w).unwrap();
        self.stats.add("measurements", ws.len() as u64);
        if g[13..24] != w[13..24] || split(g) != Some(ws.clone()) {
            self.fail2(
                Cat::InfoContent,
                "ranging",
                Some(slot),
                Some(sid),
                large,
                format!(
                    "client {} session {:x} measurements: got {} {} expected {} {}",
                    slot,
                    sid,
                    hex(&g[13..16]),
                    split(g).map_or(hex(g), |v| v
                        .iter()
                        .map(|m| hex(m))
                        .collect::<Vec<_>>()
                        .join(" ")),
                    hex(&w[13..16]),
                    ws.iter().map(|m| hex(m)).collect::<Vec<_>>().join(" ")
                ),
            );
        }
    }

    // ------------------------------------------------------------------

    pub async fn connect(&mut self) {
        let slot = self.slots.len();
        let client = if self.sim.is_shared() && !self.gated {
            self.sim.drain().await;
            self.stats.add("added", 1);
            let (client, handle) = self.sim.add_device();
            self.returned.push_back(handle);
            client
        } else {
            self.returned.push_back(None);
            self.sim.connect()
        };
        self.slots.push(Slot {
            client,
            alive: true,
            deaf: false,
            stalled: false,
            was_stalled: false,
            partial: None,
            msgs: vec![],
            expected: vec![],
            sent: vec![],
            received: vec![],
        });
        self.targets.push((slot, None));
        self.model.push(Ev::Connect(slot));
    }

    /// Would the message start a session with a too short duration?
    fn forbidden(&self, slot: usize, full: &[u8]) -> bool {
        if full[0] >> 5 != 1 || full[0] & 0xf != 2 || full[1] & 0x3f != 0 || full.len() != 8 {
            return false;
        }
        let sid = u32le(&full[4..]);
        self.dev(slot)
            .and_then(|d| d.sessions.get(&sid))
            .map_or(false, |s| s.cfg.duration() < MIN_DURATION)
    }

    pub fn send(&mut self, slot: usize, msg: &Msg) {
        let n = self.n_sids;
        let sidf = |s: u8| {
            if s >= 128 {
                1000 + (s - 128) as u32
            } else {
                SIDS[s as usize % n as usize % SIDS.len()]
            }
        };
        let dev = self.dev(slot).cloned();
        let all = |sid: u32| {
            dev.as_ref()
                .and_then(|d| d.sessions.get(&sid))
                .map_or(vec![0x11], |s| s.cfg.set_ids())
        };
        let unsegmented;
        let msg = if self.omit == Omit::Segmentation {
            unsegmented = Msg {
                frags: vec![],
                ..msg.clone()
            };
            &unsegmented
        } else {
            msg
        };
        let (full, packets) = msg.build(&sidf, &all);
        // a command that can only be sent in segments
        if self.omit == Omit::Segmentation && packets.len() > 1 {
            return;
        }
        if self.forbidden(slot, &full) {
            self.stats.add("skipped_start", 1);
            return;
        }
        if self.gated && full[0] >> 5 == 1 && full[0] & 0xf == 2 && full[1] & 0x3f == 0 {
            return;
        }
        self.stats.add("commands", 1);
        if packets.len() > 1 {
            self.stats.add("fragmented", 1)
        }
        if msg.mutation != Mutation::None {
            self.stats.add("mutated", 1)
        }
        let sid = if full.len() >= 8 && full[0] >> 5 <= 1 && matches!(full[0] & 0xf, 1 | 2) {
            let reset = full[0] & 0xf == 0;
            if reset {
                None
            } else {
                Some(u32le(&full[4..]))
            }
        } else {
            None
        };
        match self.omit {
            Omit::Nothing | Omit::Segmentation | Omit::Losses => (),
            Omit::Others(s, id) => {
                if slot != s || (id.is_some() && sid.is_some() && id != sid) {
                    return;
                }
            }
            Omit::Before(s, n) => {
                if slot == s {
                    self.omit_resets += (full[..2] == [0x20, 0] && full[4..] == [0]) as u32;
                    if self.omit_resets < n {
                        return;
                    }
                }
            }
        }
        self.targets.push((slot, sid));
        for p in packets {
            self.slots[slot].sent.push(p.clone());
            self.slots[slot].client.send(p)
        }
        self.model.push(Ev::Message(slot, full));
    }

    fn usable(&self, slot: usize) -> bool {
        self.slots[slot].alive && self.dev(slot).is_some()
    }

    pub async fn apply(&mut self, op: &Op) {
        if !self.mismatches.is_empty() || self.inconclusive {
            return;
        }
        match op {
            Op::Connect => {
                if self.live().len() < 6 {
                    self.connect().await;
                    self.stats.add("connects", 1);
                }
            }
            Op::Disconnect(c, how) => {
                let Some(slot) = self.pick(*c) else { return };
                if !self.usable(slot) {
                    return;
                }
                if self.omit == Omit::Losses {
                    return;
                }
                let how = if self.gated { 0 } else { how % 6 };
                match how {
                    1 => self.slots[slot].sent.push(vec![0x21, 5, 0, 0]),
                    3 => self.slots[slot].sent.push(vec![0x31, 1, 0, 2, 1, 0]),
                    5 => self.slots[slot].sent.push(vec![0x80, 0, 0, 0]),
                    _ => (),
                }
                self.stats.add("disconnects", 1);
                if self.dev(slot).unwrap().state == DEV_ACTIVE {
                    self.stats.add("disconnect_active", 1)
                }
                if self.slots[slot].stalled && how == 1 {
                    self.slots[slot].client.stall(false);
                }
                self.targets.push((slot, None));
                self.slots[slot].alive = false;
                match how {
                    1 => {
                        self.slots[slot].client.fail_output();
                        self.slots[slot].client.send(vec![0x21, 5, 0, 0]);
                    }
                    2 => {
                        self.slots[slot].client.fail_output();
                        self.slots[slot].client.close_input();
                    }
                    3 => {
                        self.slots[slot]
                            .client
                            .send(vec![0x31, 1, 0, 2, 1, 0]);
                        self.slots[slot].client.close_input();
                    }
                    4 => {
                        // the output breaks but nothing is sent
                        let h = self.model.slots[&slot];
                        if self.slots[slot].stalled {
                            self.slots[slot].client.close_input();
                        } else {
                            self.slots[slot].client.fail_output();
                            self.slots[slot].deaf = true;
                            self.model.doomed.insert(h);
                            self.stats.add("doomed", 1);
                            return;
                        }
                    }
                    5 => {
                        self.slots[slot].client.send(vec![0x80, 0, 0, 0]);
                        self.slots[slot].client.close_input();
                    }
                    _ => self.slots[slot].client.close_input(),
                }
                self.slots[slot].deaf = true;
                self.model.push(Ev::Disconnect(slot));
            }
            Op::Msg(c, m) => {
                let Some(slot) = self.pick(*c) else { return };
                if self.usable(slot) {
                    self.send(slot, m)
                }
            }
            Op::Burst(c, ms) => {
                let Some(slot) = self.pick(*c) else { return };
                if !self.usable(slot) {
                    return;
                }
                self.stats.add("bursts", 1);
                for m in ms {
                    if matches!(m.cmd, Cmd::Multi(_, 1, _))
                        || matches!(m.cmd, Cmd::Raw(..))
                        || (m.mutation != Mutation::None && matches!(m.cmd, Cmd::Multi(..)))
                    {
                        // the in-band stop of a removed controlee is asynchronous
                        continue;
                    }
                    self.send(slot, m)
                }
            }
            Op::Setup(c, p) => {
                let Some(slot) = self.pick(*c) else { return };
                if !self.usable(slot) {
                    return;
                }
                for m in setup_msgs(p) {
                    if self.gated && matches!(m.cmd, Cmd::Start(_)) {
                        continue;
                    }
                    self.send(slot, &m);
                }
            }
            Op::Wait(ms) => Box::pin(self.step(*ms as u64)).await,
            Op::Pause(ms) => {
                Box::pin(self.step(SETTLE)).await;
                for (i, s) in self.slots.iter().enumerate() {
                    self.pauses
                        .push((i, s.sent.len() + s.received.len(), *ms as u64));
                }
                self.stats.add("paused_ms", *ms as u64);
                std::thread::sleep(std::time::Duration::from_millis(*ms as u64))
            }
            Op::Rounds(n) => {
                let max = self
                    .model
                    .devs
                    .values()
                    .flat_map(|d| d.sessions.values())
                    .filter_map(|s| s.task.as_ref().map(|t| t.interval))
                    .max()
                    .unwrap_or(10);
                let ticks = |iv: u64| max * *n as u64 / iv.max(1);
                let total: u64 = self
                    .model
                    .devs
                    .values()
                    .flat_map(|d| d.sessions.values())
                    .filter_map(|s| s.task.as_ref().map(|t| ticks(t.interval)))
                    .sum();
                // the timers of tokio fail after about 2^36 ms
                if total < 3000 && self.model.now + max * (*n as u64) < 1 << 34 {
                    Box::pin(self.step(max * *n as u64 + 5)).await
                }
            }
            Op::Anchor(create, a) => {
                let m = addr(*a);
                let id = self.next_id;
                self.next_id += 1;
                let rx = self.sim.anchor(*create, sim::mac(&m));
                self.anchor_rx.push((id, rx));
                self.model.push(if *create {
                    Ev::CreateAnchor(m, id)
                } else {
                    Ev::DestroyAnchor(m, id)
                });
            }
            Op::Epoch(e) => {
                self.sim
                    .epoch
                    .store(*e, std::sync::atomic::Ordering::SeqCst);
                self.model.epoch = *e;
            }
            Op::Gated(ops) => {
                if self.gated || self.slots.iter().any(|s| s.stalled) {
                    return;
                }
                self.stats.add("gated", 1);
                self.gated = true;
                self.sim.gate(true);
                self.model.set_gate(true);
                for op in ops.iter().take(12) {
                    if matches!(op, Op::Gated(_) | Op::Stall(..) | Op::Rounds(_) | Op::Many(..) | Op::ManyActive(..))
                    {
                        continue;
                    }
                    if let Op::Wait(ms) = op {
                        Box::pin(self.step((*ms as u64).min(60))).await;
                        continue;
                    }
                    Box::pin(self.apply(op)).await;
                    Box::pin(self.step(2)).await;
                }
                self.gated = false;
                self.loose_time = true;
                self.sim.gate(false);
                let stale = self
                    .model
                    .queue
                    .iter()
                    .filter(|e| matches!(e, Ev::Ranging(..)))
                    .count();
                self.stats.add("gated_ticks", stale as u64);
                self.model.set_gate(false);
                if self.model.ambiguous {
                    self.inconclusive = true
                }
                Box::pin(self.step(SETTLE)).await;
                self.loose_time = false;
            }
            Op::Stall(c, on) => {
                let Some(slot) = self.pick(*c) else { return };
                if !self.usable(slot) {
                    return;
                }
                self.slots[slot].client.stall(*on);
                if self.slots[slot].stalled && !*on {
                    self.slots[slot].was_stalled = true;
                }
                self.slots[slot].stalled = *on;
                if *on {
                    self.stats.add("stalls", 1)
                }
            }
            Op::Probe(c) => {
                let Some(slot) = self.pick(*c) else { return };
                self.probe(slot)
            }
            Op::ProbeAll => {
                for slot in self.live() {
                    self.probe(slot)
                }
            }
            Op::Many(c, base, n) => {
                let Some(slot) = self.pick(*c) else { return };
                if !self.usable(slot) {
                    return;
                }
                for i in 0..*n as u32 {
                    let sid = base.wrapping_add(i);
                    let mut m = vec![0x21, 0, 0, 5];
                    m.extend_from_slice(&sid.to_le_bytes());
                    m.push(0);
                    self.targets.push((slot, Some(sid)));
                    self.slots[slot].sent.push(m.clone());
                    self.slots[slot].client.send(m.clone());
                    self.model.push(Ev::Message(slot, m));
                }
            }
            Op::ManyActive(c, base, n, period) => {
                let Some(slot) = self.pick(*c) else { return };
                if !self.usable(slot) {
                    return;
                }
                self.stats.add("many_active", 1);
                let mut tlvs = gen::mandatory();
                tlvs.push((0x09, period.to_le_bytes().to_vec()));
                let mut cfg = vec![tlvs.len() as u8];
                for (t, v) in tlvs {
                    cfg.extend([t, v.len() as u8]);
                    cfg.extend(v);
                }
                for i in 0..*n as u32 {
                    let sid = base.wrapping_add(i).to_le_bytes().to_vec();
                    for (gid, oid, more) in [(1u8, 0u8, vec![0]), (1, 3, cfg.clone()), (2, 0, vec![])] {
                        let p = [sid.clone(), more].concat();
                        let m = [vec![0x20 | gid, oid, 0, p.len() as u8], p].concat();
                        self.targets.push((slot, Some(base.wrapping_add(i))));
                        self.slots[slot].sent.push(m.clone());
                        self.slots[slot].client.send(m.clone());
                        self.model.push(Ev::Message(slot, m));
                    }
                }
            }
        }
    }

    /// Read back the whole observable state of a device.
    pub fn probe(&mut self, slot: usize) {
        if !self.usable(slot) || !self.dev(slot).unwrap().reset {
            return;
        }
        self.stats.add("probes", 1);
        let keep = self.targets.clone();
        let sids: Vec<u32> = {
            let d = self.dev(slot).unwrap();
            let mut v: Vec<u32> = d.sessions.keys().copied().collect();
            // bound the cost with many sessions
            if v.len() > 12 {
                v = v[..6]
                    .iter()
                    .chain(&v[v.len() - 6..])
                    .copied()
                    .collect();
            }
            v.push(0x7777_7777);
            v
        };
        let push = |e: &mut Engine, gid: u8, oid: u8, p: Vec<u8>| {
            let m = [header(1, gid, oid, p.len()), p].concat();
            e.slots[slot].sent.push(m.clone());
            e.slots[slot].client.send(m.clone());
            e.model.push(Ev::Message(slot, m));
        };
        push(self, 1, 5, vec![]);
        push(self, 0, 5, vec![2, 0, 1]);
        for sid in sids {
            let s4 = sid.to_le_bytes().to_vec();
            push(self, 1, 6, s4.clone());
            push(self, 2, 3, s4.clone());
            let ids = self
                .dev(slot)
                .and_then(|d| d.sessions.get(&sid))
                .map_or(vec![0x11], |s| s.cfg.set_ids());
            // a command payload of at most 255 bytes
            push(self, 1, 4, [s4, vec![ids.len() as u8], ids].concat());
        }
        self.targets = keep;
    }

    pub fn set_target_none(&mut self) {
        self.targets.clear()
    }

    pub async fn run(&mut self, case: &Case, settle_probe: bool) {
        for _ in 0..case.clients {
            self.connect().await;
            self.step(SETTLE).await;
        }
        self.step(SETTLE).await;
        for i in 0..case.clients as usize {
            if case.resets >> (i % 8) & 1 == 1 && self.usable(i) {
                self.send(i, &Msg::plain(Cmd::Reset));
            }
        }
        self.step(SETTLE).await;
        for op in &case.ops {
            self.apply(op).await;
            self.step(SETTLE).await;
            if settle_probe && !matches!(op, Op::Wait(_) | Op::Probe(_) | Op::ProbeAll) {
                // the probes belong to the window of the operation
                let t = self.op_targets(op);
                self.targets = t;
                for slot in self.live() {
                    self.probe(slot)
                }
                self.step(SETTLE).await;
            }
            if !self.mismatches.is_empty() || self.inconclusive {
                break;
            }
        }
        // final read back and a last few rounds
        for i in 0..self.slots.len() {
            if self.slots[i].stalled && self.slots[i].alive {
                self.slots[i].client.stall(false);
                self.slots[i].stalled = false;
                self.slots[i].was_stalled = true;
            }
        }
        self.step(SETTLE).await;
        for slot in self.live() {
            self.probe(slot)
        }
        self.step(SETTLE).await;
        self.step(250).await;
        self.stats.add("ticks", self.model.ticks);
        self.stats.add("inband_stops", self.model.inband_stops);
        self.stats.add("data_rounds", self.model.data_rounds);
        if self.inconclusive {
            self.stats.add("inconclusive_cases", 1)
        }
    }

    fn op_targets(&self, op: &Op) -> Vec<(usize, Option<u32>)> {
        let one = |c: &u8, m: &Msg| -> Vec<(usize, Option<u32>)> {
            let Some(slot) = self.pick(*c) else {
                return vec![];
            };
            let sid = match &m.cmd {
                Cmd::Init(s, _)
                | Cmd::Deinit(s)
                | Cmd::Start(s)
                | Cmd::Stop(s)
                | Cmd::State(s)
                | Cmd::RCount(s)
                | Cmd::SetApp(s, _)
                | Cmd::GetApp(s, _)
                | Cmd::GetAll(s)
                | Cmd::Multi(s, _, _)
                | Cmd::Data(s, ..)
                    if m.mutation == Mutation::None =>
                {
                    Some(self.sid(*s))
                }
                _ => None,
            };
            vec![(slot, sid)]
        };
        match op {
            Op::Msg(c, m) => one(c, m),
            Op::Burst(c, ms) => ms.iter().flat_map(|m| one(c, m)).collect(),
            Op::Setup(c, p) => match self.pick(*c) {
                Some(slot) => vec![(slot, Some(self.sid(p.s)))],
                None => vec![],
            },
            Op::Disconnect(..) | Op::Connect | Op::Anchor(..) => vec![(usize::MAX, None)],
            _ => vec![],
        }
    }
}

pub fn setup_msgs(p: &SetupP) -> Vec<Msg> {
    let mac = |i: u8| -> Vec<u8> {
        if p.extended {
            XADDRS[i as usize % XADDRS.len()].to_vec()
        } else {
            ADDRS[i as usize % ADDRS.len()].to_vec()
        }
    };
    let mut seen = vec![];
    for d in &p.dst {
        let m = mac(*d);
        if !seen.contains(&m) {
            seen.push(m)
        }
    }
    let mut t: Vec<(u8, Vec<u8>)> = vec![];
    if p.extended {
        t.push((0x26, vec![2]));
    }
    t.push((0x00, vec![p.controller as u8]));
    t.push((0x01, vec![2]));
    t.push((0x03, vec![p.o2m as u8]));
    t.push((0x11, vec![p.initiator as u8]));
    t.push((0x22, vec![1]));
    t.push((0x06, mac(p.mac)));
    t.push((0x05, vec![seen.len() as u8]));
    if !seen.is_empty() {
        t.push((0x07, seen.concat()));
    }
    t.push((0x09, p.duration.to_le_bytes().to_vec()));
    t.extend(p.extra.iter().cloned());
    let mut v = vec![
        Msg::plain(Cmd::Init(p.s, p.typ)),
        Msg::plain(Cmd::SetApp(p.s, t)),
    ];
    if p.start {
        v.push(Msg::plain(Cmd::Start(p.s)));
    }
    v
}

/// Whether the data consists of the messages of all lists, each in order.
fn interleaving(lists: &[&Vec<&[u8]>], data: &[u8]) -> bool {
    let mut states = BTreeSet::from([vec![0; lists.len()]]);
    loop {
        let mut next = BTreeSet::new();
        for at in &states {
            let n: usize = lists
                .iter()
                .zip(at)
                .flat_map(|(l, n)| &l[..*n])
                .map(|m| m.len())
                .sum();
            if lists.iter().zip(at).all(|(l, n)| *n == l.len()) {
                if n == data.len() {
                    return true;
                }
                continue;
            }
            for (i, l) in lists.iter().enumerate() {
                if at[i] < l.len() && data[n..].starts_with(l[at[i]]) {
                    let mut at = at.clone();
                    at[i] += 1;
                    next.insert(at);
                }
            }
        }
        if next.is_empty() {
            return false;
        }
        states = next;
    }
}
