//! Independent reference model of the pica environment, on raw UCI bytes.
//!
//! The model is a discrete event simulation: `advance_to` fires the modelled
//! ranging ticks, `message` processes one complete (reassembled) message of a
//! client, and both append the expected outputs to `outs`.

use crate::sim::est;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::OnceLock;

pub const OK: u8 = 0x00;
pub const REJECTED: u8 = 0x01;
pub const FAILED: u8 = 0x02;
pub const SYNTAX: u8 = 0x03;
pub const INVALID_PARAM: u8 = 0x04;
pub const UNKNOWN_GID: u8 = 0x07;
pub const UNKNOWN_OID: u8 = 0x08;
pub const READ_ONLY: u8 = 0x09;
pub const NOT_EXIST: u8 = 0x11;
pub const DUPLICATE: u8 = 0x12;
pub const SES_ACTIVE: u8 = 0x13;
pub const MAX_SESSIONS: u8 = 0x14;
pub const NOT_CONFIGURED: u8 = 0x15;
pub const MULTICAST_FULL: u8 = 0x17;

pub const ST_INIT: u8 = 0;
pub const ST_DEINIT: u8 = 1;
pub const ST_ACTIVE: u8 = 2;
pub const ST_IDLE: u8 = 3;
pub const DEV_READY: u8 = 1;
pub const DEV_ACTIVE: u8 = 2;
pub const DEV_ERROR: u8 = 0xff;

pub const REASON_CMD: u8 = 0x00;
pub const REASON_INBAND: u8 = 0x05;
pub const REASON_NUM_CONTROLEES: u8 = 0x33;

/// Commands that must answer with a constant content; the content itself is
/// calibrated once per process on a fresh device (`calibrate`).
pub static INFO_RSP: OnceLock<Vec<u8>> = OnceLock::new();
pub static CAPS_RSP: OnceLock<Vec<u8>> = OnceLock::new();
pub static POWER_RSP: OnceLock<Vec<u8>> = OnceLock::new();

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Enum(&'static [u8]),
    Len(usize),
    InitTime,
    Any,
    SubKey,
    Mac,
    Dst,
}

/// Application configuration parameters: identifier, format, default.
pub const PARAMS: &[(u8, Kind, Option<&[u8]>)] = &[
    (0x00, Kind::Enum(&[0, 1]), None),
    (0x01, Kind::Enum(&[1, 2, 3, 4, 5, 6, 7, 8]), None),
    (0x02, Kind::Enum(&[0, 1, 2, 3, 4]), Some(&[0])),
    (0x03, Kind::Enum(&[0, 1]), None),
    (0x04, Kind::Enum(&[5, 6, 8, 9, 10, 12, 13, 14]), Some(&[9])),
    (0x05, Kind::Len(1), Some(&[1])),
    (0x06, Kind::Mac, None),
    (0x07, Kind::Dst, Some(&[])),
    (0x08, Kind::Len(2), Some(&[0x60, 0x09])),
    (0x09, Kind::Len(4), Some(&[200, 0, 0, 0])),
    (0x0a, Kind::Len(4), Some(&[0, 0, 0, 0])),
    (0x0b, Kind::Enum(&[0, 1]), Some(&[0])),
    (0x0c, Kind::Len(1), Some(&[6])),
    (0x0d, Kind::Enum(&[0, 1, 2, 3]), Some(&[1])),
    (0x0e, Kind::Enum(&[0, 1, 2, 3, 4, 5, 6, 7]), Some(&[1])),
    (0x0f, Kind::Len(2), Some(&[0, 0])),
    (0x10, Kind::Len(2), Some(&[0x20, 0x4e])),
    (0x11, Kind::Enum(&[0, 1, 5, 6, 7, 8]), None),
    (0x12, Kind::Enum(&[0, 1, 3]), Some(&[3])),
    (0x13, Kind::Enum(&[0, 1]), Some(&[0])),
    (0x14, Kind::Len(1), Some(&[10])),
    (0x15, Kind::Len(1), Some(&[2])),
    (0x16, Kind::Enum(&[0, 1, 2, 3]), Some(&[0])),
    (0x17, Kind::Enum(&[0, 1]), Some(&[1])),
    (0x18, Kind::Enum(&[0]), Some(&[0])),
    (0x19, Kind::Len(1), Some(&[0])),
    (0x1a, Kind::Enum(&[1]), Some(&[1])),
    (0x1b, Kind::Len(1), Some(&[25])),
    (0x1d, Kind::Len(8), Some(&[0; 8])),
    (0x1f, Kind::Enum(&[0, 1, 2]), Some(&[0])),
    (0x20, Kind::Len(2), Some(&[24, 5])),
    (0x21, Kind::Len(1), Some(&[0])),
    (0x22, Kind::Enum(&[0, 1]), None),
    (0x23, Kind::Enum(&[0, 1]), Some(&[0])),
    (0x24, Kind::Len(1), Some(&[0])),
    (0x25, Kind::Len(1), Some(&[50])),
    (0x26, Kind::Enum(&[0, 1, 2]), Some(&[0])),
    (0x27, Kind::Len(2), Some(&[0, 0])),
    (0x28, Kind::Len(6), Some(&[0; 6])),
    (0x29, Kind::Len(1), Some(&[1])),
    (0x2a, Kind::Len(2), Some(&[0, 0])),
    (0x2b, Kind::InitTime, Some(&[0; 8])),
    (0x2c, Kind::Enum(&[0, 1]), Some(&[0])),
    (0x2d, Kind::Len(1), Some(&[0])),
    (0x2e, Kind::Len(1), Some(&[1])),
    (0x2f, Kind::Len(1), Some(&[1])),
    (0x30, Kind::Len(4), Some(&[0; 4])),
    (0x31, Kind::Enum(&[0, 1]), Some(&[0])),
    (0x32, Kind::Len(2), Some(&[0, 0])),
    (0x35, Kind::Enum(&[0, 1, 2]), Some(&[1])),
    (0x3a, Kind::Len(1), Some(&[4])),
    (0x3b, Kind::Len(2), Some(&[0, 0])),
    (0x3c, Kind::Len(1), Some(&[1])),
    (0x45, Kind::Any, Some(&[])),
    (0x46, Kind::SubKey, Some(&[])),
    (0x47, Kind::Enum(&[0, 1]), Some(&[0])),
    (0x48, Kind::Len(9), Some(&[0; 9])),
    (0x4c, Kind::Len(1), Some(&[0])),
];

/// Identifiers that are not part of the UCI parameter space at all: a command
/// naming one of them is malformed.
pub fn app_id_known(id: u8) -> bool {
    !matches!(id, 0x1c | 0x1e | 0x33 | 0x34 | 0x36..=0x39)
}
pub fn app_param(id: u8) -> Option<&'static (u8, Kind, Option<&'static [u8]>)> {
    PARAMS.iter().find(|p| p.0 == id)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cfg {
    pub vals: BTreeMap<u8, Vec<u8>>,
    pub dst: Vec<Vec<u8>>,
}

impl Default for Cfg {
    fn default() -> Self {
        let mut vals = BTreeMap::new();
        for (id, kind, def) in PARAMS {
            if let (Some(d), false) = (def, *kind == Kind::Dst) {
                vals.insert(*id, d.to_vec());
            }
        }
        Cfg { vals, dst: vec![] }
    }
}

impl Cfg {
    pub fn u8(&self, id: u8) -> Option<u8> {
        self.vals.get(&id).map(|v| v[0])
    }
    pub fn mac(&self) -> Option<&Vec<u8>> {
        self.vals.get(&0x06)
    }
    pub fn duration(&self) -> u64 {
        let v = &self.vals[&0x09];
        u32::from_le_bytes([v[0], v[1], v[2], v[3]]) as u64
    }
    pub fn set(&mut self, id: u8, v: &[u8]) -> bool {
        let Some((_, kind, _)) = app_param(id) else {
            return false;
        };
        let mode = self.vals[&0x26][0];
        let size = match mode {
            0 => Some(2),
            2 => Some(8),
            _ => None,
        };
        let value = match kind {
            Kind::Enum(vals) => {
                if v.len() != 1 || !vals.contains(&v[0]) {
                    return false;
                }
                v.to_vec()
            }
            Kind::Len(n) => {
                if v.len() != *n {
                    return false;
                }
                v.to_vec()
            }
            Kind::InitTime => match v.len() {
                4 => [v, &[0; 4]].concat(),
                8 => v.to_vec(),
                _ => return false,
            },
            Kind::Any => v.to_vec(),
            Kind::SubKey => {
                if v.len() != 16 && v.len() != 32 {
                    return false;
                }
                v.to_vec()
            }
            Kind::Mac => {
                if Some(v.len()) != size {
                    return false;
                }
                v.to_vec()
            }
            Kind::Dst => {
                let Some(size) = size else { return false };
                if v.len() != self.vals[&0x05][0] as usize * size {
                    return false;
                }
                self.dst = v.chunks(size).map(|c| c.to_vec()).collect();
                return true;
            }
        };
        self.vals.insert(id, value);
        true
    }
    pub fn get(&self, id: u8) -> Option<Vec<u8>> {
        if id == 0x07 {
            return Some(self.dst.concat());
        }
        self.vals.get(&id).cloned()
    }
    /// All parameters that can be read back.
    pub fn set_ids(&self) -> Vec<u8> {
        PARAMS
            .iter()
            .map(|p| p.0)
            .filter(|id| *id == 0x07 || self.vals.contains_key(id))
            .collect()
    }
}

#[derive(Clone, Debug)]
pub struct Task {
    pub next: u64,
    pub interval: u64,
}

#[derive(Clone, Debug)]
pub struct Sess {
    pub typ: u8,
    pub state: u8,
    pub seq: u32,
    pub cfg: Cfg,
    pub task: Option<Task>,
    pub data: Vec<u8>,
    /// number of multicast list updates so far
    pub updates: u32,
}

#[derive(Clone, Debug)]
pub struct Dev {
    pub handle: usize,
    pub mac: Vec<u8>,
    pub reset: bool,
    pub low_power: u8,
    /// number of CORE_DEVICE_RESET so far
    pub resets: u32,
    pub state: u8,
    pub sessions: BTreeMap<u32, Sess>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Class {
    /// Answers sent while processing the message, in order.
    Immediate,
    SessionStatus { sid: u32 },
    DeviceStatus,
    MulticastNtf { sid: u32 },
    Info { sid: u32 },
    DataRcv { sid: u32, src: Vec<u8> },
}

/// What caused an output (used to attribute a mismatch to properties).
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Cause {
    pub cmd: &'static str,
    pub sid: Option<u32>,
    pub dev: usize,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub dev: usize,
    pub time: u64,
    pub class: Class,
    pub msg: Vec<u8>,
    pub cause: Cause,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Ranging(usize, u32),
    Message(usize, Vec<u8>),
    Disconnect(usize),
    /// slot of the client in the engine
    Connect(usize),
    CreateAnchor(Vec<u8>, usize),
    DestroyAnchor(Vec<u8>, usize),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MEvent {
    Connected(usize, Vec<u8>),
    Disconnected(usize, Vec<u8>),
}

#[derive(Default, Clone)]
pub struct Model {
    pub now: u64,
    pub counter: usize,
    pub devs: BTreeMap<usize, Dev>,
    pub anchors: BTreeMap<Vec<u8>, usize>,
    pub queue: VecDeque<Ev>,
    pub gate_closed: bool,
    pub epoch: u32,
    pub outs: Vec<Out>,
    pub events: Vec<MEvent>,
    /// slot -> handle of the connections accepted.
    pub slots: BTreeMap<usize, usize>,
    /// results of the anchor requests: id -> Result<handle, exists/not found>
    pub anchor_results: BTreeMap<usize, Result<usize, bool>>,
    pub ticks: u64,
    pub inband_stops: u64,
    pub data_rounds: u64,
    pub measurements: u64,
    /// devices whose output is broken: they disconnect at the next output.
    pub doomed: BTreeSet<usize>,
    /// when the last of them left
    pub doom: Option<u64>,
    /// the expected behaviour is not determined (simultaneous events).
    pub ambiguous: bool,
}

pub fn u32le(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}

fn rsp(gid: u8, oid: u8, payload: Vec<u8>) -> Vec<u8> {
    [vec![0x40 | gid, oid & 0x3f, 0, 0], payload].concat()
}
fn ntf(gid: u8, oid: u8, payload: Vec<u8>) -> Vec<u8> {
    [vec![0x60 | gid, oid & 0x3f, 0, 0], payload].concat()
}

fn known_gid(gid: u8) -> bool {
    !(4..=8).contains(&gid)
}

impl Model {
    pub fn is_used(&self, mac: &[u8]) -> bool {
        self.anchors.contains_key(mac) || self.devs.values().any(|d| d.mac == mac)
    }

    pub fn next_tick(&self) -> Option<u64> {
        self.devs
            .values()
            .flat_map(|d| d.sessions.values())
            .filter_map(|s| s.task.as_ref().map(|t| t.next))
            .min()
    }

    pub fn tick_near(&self, t: u64) -> bool {
        self.devs
            .values()
            .flat_map(|d| d.sessions.values())
            .filter_map(|s| s.task.as_ref())
            .any(|k| {
                // a tick in [t-1, t+1]
                let lo = t.saturating_sub(1);
                if k.next > t + 1 {
                    return false;
                }
                if k.next >= lo {
                    return true;
                }
                let r = (lo - k.next) % k.interval;
                r == 0 || k.interval - r <= 2
            })
    }

    pub fn advance_to(&mut self, t: u64) {
        loop {
            let mut best: Option<(u64, usize, u32)> = None;
            for (h, d) in &self.devs {
                for (sid, s) in &d.sessions {
                    if let Some(k) = &s.task {
                        if k.next <= t && best.map_or(true, |b| k.next < b.0) {
                            best = Some((k.next, *h, *sid));
                        }
                    }
                }
            }
            let Some((when, h, sid)) = best else { break };
            self.now = when;
            let k = self
                .devs
                .get_mut(&h)
                .unwrap()
                .sessions
                .get_mut(&sid)
                .unwrap()
                .task
                .as_mut()
                .unwrap();
            k.next += k.interval;
            self.push(Ev::Ranging(h, sid));
        }
        self.now = t;
    }

    pub fn push(&mut self, ev: Ev) {
        self.queue.push_back(ev);
        if !self.gate_closed {
            self.process()
        }
    }

    pub fn set_gate(&mut self, closed: bool) {
        self.gate_closed = closed;
        if !closed {
            self.process()
        }
    }

    fn process(&mut self) {
        while let Some(ev) = self.queue.pop_front() {
            match ev {
                Ev::Ranging(h, sid) => self.ranging(h, sid),
                Ev::Message(h, msg) => {
                    // the queue refers to slots for messages
                    if let Some(h) = self.slots.get(&h).copied() {
                        if self.devs.contains_key(&h) {
                            self.message(h, &msg)
                        }
                    }
                }
                Ev::Disconnect(slot) => {
                    if let Some(h) = self.slots.get(&slot).copied() {
                        if let Some(d) = self.devs.remove(&h) {
                            self.events.push(MEvent::Disconnected(h, d.mac));
                        }
                    }
                }
                Ev::Connect(slot) => self.connect(slot),
                Ev::CreateAnchor(mac, id) => {
                    let r = if self.is_used(&mac) {
                        Err(true)
                    } else {
                        let h = self.counter;
                        self.counter += 1;
                        self.anchors.insert(mac, h);
                        Ok(h)
                    };
                    self.anchor_results.insert(id, r);
                }
                Ev::DestroyAnchor(mac, id) => {
                    let r = self.anchors.remove(&mac).ok_or(false);
                    self.anchor_results.insert(id, r);
                }
            }
        }
    }

    /// The handle and address are assigned by the implementation: the engine
    /// learns them from the Connected event (see `Engine`), the model only
    /// predicts the present policy to order the rest; `fix_handle` overrides.
    fn connect(&mut self, slot: usize) {
        let mut h = self.counter;
        let mut mac = (h as u16).to_be_bytes().to_vec();
        while self.is_used(&mac) {
            h += 1;
            mac = (h as u16).to_be_bytes().to_vec();
        }
        self.counter = h + 1;
        let dev = Dev {
            handle: h,
            mac: mac.clone(),
            reset: false,
            low_power: 1,
            resets: 0,
            state: DEV_READY,
            sessions: BTreeMap::new(),
        };
        self.devs.insert(h, dev);
        self.slots.insert(slot, h);
        self.events.push(MEvent::Connected(h, mac));
        self.out(
            h,
            Class::DeviceStatus,
            ntf(0, 1, vec![DEV_READY]),
            "connect",
            None,
            h,
        );
    }

    fn out(
        &mut self,
        dev: usize,
        class: Class,
        msg: Vec<u8>,
        cmd: &'static str,
        sid: Option<u32>,
        by: usize,
    ) {
        if self.doomed.remove(&dev) {
            // several receivers of the same data leave in any order
            if self.doom == Some(self.now) {
                self.ambiguous = true
            }
            self.doom = Some(self.now);
            match class {
                Class::Immediate | Class::Info { .. } | Class::DataRcv { .. } => {
                    let slot = self.slots.iter().find(|s| *s.1 == dev).map(|s| *s.0);
                    self.queue.push_back(Ev::Disconnect(slot.unwrap()));
                    // another tick at the same instant may come before or after
                    if self
                        .devs
                        .values()
                        .flat_map(|d| d.sessions.values())
                        .filter_map(|s| s.task.as_ref())
                        .filter(|t| t.next == self.now || t.next == self.now + t.interval)
                        .count()
                        > 1
                    {
                        self.ambiguous = true
                    }
                }
                _ => self.ambiguous = true,
            }
        }
        self.outs.push(Out {
            dev,
            time: self.now,
            class,
            msg,
            cause: Cause { cmd, sid, dev: by },
        })
    }

    fn set_session_state(
        &mut self,
        h: usize,
        sid: u32,
        state: u8,
        reason: u8,
        cmd: &'static str,
        by: usize,
    ) {
        let s = self
            .devs
            .get_mut(&h)
            .unwrap()
            .sessions
            .get_mut(&sid)
            .unwrap();
        if s.state == state {
            return;
        }
        s.state = state;
        let p = [&sid.to_le_bytes()[..], &[state, reason]].concat();
        self.out(
            h,
            Class::SessionStatus { sid },
            ntf(1, 2, p),
            cmd,
            Some(sid),
            by,
        );
    }

    fn update_device_state(&mut self, h: usize, cmd: &'static str, sid: Option<u32>, by: usize) {
        let d = self.devs.get_mut(&h).unwrap();
        let state = if d.sessions.values().any(|s| s.state == ST_ACTIVE) {
            DEV_ACTIVE
        } else {
            DEV_READY
        };
        if state != d.state {
            d.state = state;
            self.out(
                h,
                Class::DeviceStatus,
                ntf(0, 1, vec![state]),
                cmd,
                sid,
                by,
            );
        }
    }

    fn compatible(a: &Sess, b: &Sess) -> bool {
        let (Some(am), Some(bm)) = (a.cfg.mac(), b.cfg.mac()) else {
            return false;
        };
        a.cfg.u8(0x11) != b.cfg.u8(0x11)
            && a.cfg.u8(0x00) != b.cfg.u8(0x00)
            && a.cfg.dst.contains(bm)
            && b.cfg.dst.contains(am)
    }

    fn ranging(&mut self, h: usize, sid: u32) {
        let Some(dev) = self.devs.get(&h) else { return };
        let Some(sess) = dev.sessions.get(&sid) else {
            return;
        };
        if sess.state != ST_ACTIVE {
            return;
        }
        self.ticks += 1;
        let mut meas: Vec<(Vec<u8>, (u16, i16, i8), (u16, i16, i8))> = vec![];
        let mut receivers = vec![];
        for mac in &sess.cfg.dst {
            if let Some(a) = self.anchors.get(mac) {
                if let (Some(l), Some(r)) = (est(h, *a, self.epoch), est(*a, h, self.epoch)) {
                    meas.push((mac.clone(), l, r));
                }
            }
        }
        for (ph, peer) in &self.devs {
            if *ph == h {
                continue;
            }
            let Some(ps) = peer.sessions.get(&sid) else {
                continue;
            };
            if ps.state != ST_ACTIVE {
                continue;
            }
            if Self::compatible(sess, ps) {
                match (est(h, *ph, self.epoch), est(*ph, h, self.epoch)) {
                    (Some(l), Some(r)) => meas.push((ps.cfg.mac().unwrap().clone(), l, r)),
                    _ => continue,
                }
            }
            if sess.typ == 1
                && sess.cfg.u8(0x11) == Some(1)
                && ps.typ == 1
                && ps.cfg.u8(0x11) == Some(0)
            {
                receivers.push(*ph);
            }
        }
        let extended = sess.cfg.u8(0x26) == Some(2);
        let len = sess.data.len().min(65535);
        let data = sess.data[..len].to_vec();
        let src = sess.cfg.mac().unwrap().clone();
        let seq = sess.seq;
        let enabled = sess.cfg.u8(0x0e) != Some(0);
        self.measurements += meas.len() as u64;
        for r in receivers {
            if len > 0 {
                self.data_rounds += 1;
            }
            self.out(
                r,
                Class::DataRcv {
                    sid,
                    src: {
                        let mut s = src.clone();
                        s.resize(8, 0);
                        s
                    },
                },
                data.clone(),
                "data",
                Some(sid),
                h,
            );
        }
        if enabled {
            let mut p = vec![];
            p.extend_from_slice(&seq.to_le_bytes());
            p.extend_from_slice(&sid.to_le_bytes());
            p.push(0);
            p.extend_from_slice(&[0; 4]);
            p.extend_from_slice(&[1, 0, extended as u8]);
            p.extend_from_slice(&[0; 8]);
            let list: Vec<_> = meas
                .into_iter()
                .filter(|m| extended || m.0.len() == 2)
                .collect();
            p.push(list.len() as u8);
            for (mac, l, r) in list {
                p.extend(measurement(&mac, l, r, extended));
            }
            self.out(
                h,
                Class::Info { sid },
                ntf(2, 0, p),
                "ranging",
                Some(sid),
                h,
            );
        }
        let s = self
            .devs
            .get_mut(&h)
            .unwrap()
            .sessions
            .get_mut(&sid)
            .unwrap();
        if enabled {
            s.seq = s.seq.wrapping_add(1);
        }
        s.data.drain(..len);
    }

    /// Process one complete message of a device; `msg` is the header of the
    /// first segment followed by the whole payload.
    pub fn message(&mut self, h: usize, msg: &[u8]) {
        match msg[0] >> 5 {
            0 => self.data(h, msg),
            1 => self.command(h, msg),
            _ => (),
        }
    }

    fn imm(&mut self, h: usize, m: Vec<u8>, cmd: &'static str, sid: Option<u32>) {
        self.out(h, Class::Immediate, m, cmd, sid, h);
    }

    fn data(&mut self, h: usize, msg: &[u8]) {
        let p = &msg[4..];
        let status = |sid: u32, seq: u8, st: u8| {
            let v = [&sid.to_le_bytes()[..], &[seq, st, 1]].concat();
            ntf(2, 5, v)
        };
        match msg[0] & 0xf {
            1 => {
                if p.len() < 16 {
                    return;
                }
                let sid = u32le(p);
                let seq = p[12];
                let n = u16::from_le_bytes([p[14], p[15]]) as usize;
                if p.len() != 16 + n {
                    return;
                }
                match self.devs.get_mut(&h).unwrap().sessions.get_mut(&sid) {
                    None => self.imm(h, status(sid, 0, 4), "data", Some(sid)),
                    Some(s) if s.typ != 1 => self.imm(h, status(sid, seq, 5), "data", Some(sid)),
                    Some(s) => {
                        s.data.extend_from_slice(&p[16..]);
                        let v = [&sid.to_le_bytes()[..], &[1]].concat();
                        self.imm(h, ntf(2, 4, v), "data", Some(sid))
                    }
                }
            }
            2 => {
                if p.len() < 17 {
                    return;
                }
                let sid = u32le(p);
                let n = u16::from_le_bytes([p[15], p[16]]) as usize;
                if p.len() != 17 + n {
                    return;
                }
                self.imm(h, status(sid, 0, 7), "data", Some(sid));
            }
            _ => (),
        }
    }

    fn command(&mut self, h: usize, msg: &[u8]) {
        let gid = msg[0] & 0xf;
        let oid = msg[1] & 0x3f;
        let p = &msg[4..];
        let by = h;
        let is_reset = gid == 0 && oid == 0;
        if !known_gid(gid) {
            return self.imm(h, rsp(gid, oid, vec![UNKNOWN_GID]), "unknown", None);
        }
        if !self.devs[&h].reset && !is_reset {
            return self.imm(h, ntf(0, 1, vec![DEV_ERROR]), "prereset", None);
        }
        if !matches!(gid, 0 | 1 | 2 | 0xc) {
            return self.imm(h, rsp(gid, oid, vec![UNKNOWN_GID]), "unknown", None);
        }
        let sid = if p.len() >= 4 && (gid == 1 || gid == 2) {
            u32le(p)
        } else {
            0
        };
        let exists = self.devs[&h].sessions.contains_key(&sid);
        let r: Option<(&'static str, Option<u32>, Vec<u8>)> = match (gid, oid) {
            (0, 0) if p == [0] => {
                let d = self.devs.get_mut(&h).unwrap();
                let sids: Vec<u32> = d.sessions.keys().copied().collect();
                for sid in sids {
                    self.set_session_state(h, sid, ST_DEINIT, REASON_CMD, "reset", by);
                }
                let d = self.devs.get_mut(&h).unwrap();
                d.sessions.clear();
                d.reset = true;
                d.low_power = 1;
                d.resets += 1;
                d.state = DEV_READY;
                self.out(
                    h,
                    Class::DeviceStatus,
                    ntf(0, 1, vec![DEV_READY]),
                    "reset",
                    None,
                    by,
                );
                Some(("reset", None, vec![OK]))
            }
            (0, 2) if p.is_empty() => Some(("info", None, INFO_RSP.get().unwrap().clone())),
            (0, 3) if p.is_empty() => Some(("info", None, CAPS_RSP.get().unwrap().clone())),
            (0, 4) => parse_tlvs(p).map(|tlvs| ("setcfg", None, self.set_config(h, tlvs))),
            (0, 5) => parse_ids(p).map(|ids| ("getcfg", None, self.get_config(h, ids))),
            (1, 0) if p.len() == 5 && matches!(p[4], 0..=5 | 0xa0 | 0xd0) => {
                let d = self.devs.get_mut(&h).unwrap();
                let st = if d.sessions.len() >= 255 {
                    MAX_SESSIONS
                } else if exists {
                    DUPLICATE
                } else {
                    d.sessions.insert(
                        sid,
                        Sess {
                            typ: p[4],
                            state: ST_DEINIT,
                            seq: 0,
                            cfg: Cfg::default(),
                            task: None,
                            data: vec![],
                            updates: 0,
                        },
                    );
                    self.set_session_state(h, sid, ST_INIT, REASON_CMD, "init", by);
                    OK
                };
                Some(("init", Some(sid), vec![st]))
            }
            (1, 1) if p.len() == 4 => {
                let st = if exists {
                    self.set_session_state(h, sid, ST_DEINIT, REASON_CMD, "deinit", by);
                    self.devs.get_mut(&h).unwrap().sessions.remove(&sid);
                    self.update_device_state(h, "deinit", Some(sid), by);
                    OK
                } else {
                    NOT_EXIST
                };
                Some(("deinit", Some(sid), vec![st]))
            }
            (1, 3) if p.len() >= 4 => parse_tlvs(&p[4..])
                .filter(|t| t.iter().all(|(id, _)| app_id_known(*id)))
                .map(|tlvs| ("setapp", Some(sid), self.set_app(h, sid, tlvs))),
            (1, 4) if p.len() >= 4 => parse_ids(&p[4..])
                .filter(|t| t.iter().all(|id| app_id_known(*id)))
                .map(|ids| ("getapp", Some(sid), self.get_app(h, sid, ids))),
            (1, 5) if p.is_empty() => Some((
                "count",
                None,
                vec![OK, self.devs[&h].sessions.len() as u8],
            )),
            (1, 6) if p.len() == 4 => Some((
                "state",
                Some(sid),
                match self.devs[&h].sessions.get(&sid) {
                    None => vec![NOT_EXIST, ST_INIT],
                    Some(s) => vec![OK, s.state],
                },
            )),
            (1, 7) if p.len() >= 5 && p[4] <= 3 => {
                Some(("multicast", Some(sid), self.multicast(h, sid, p[4], &p[5..])))
            }
            (2, 0) if p.len() == 4 => {
                let now = self.now;
                let st = match self.devs.get_mut(&h).unwrap().sessions.get_mut(&sid) {
                    None => NOT_EXIST,
                    Some(s) if s.state != ST_IDLE => NOT_CONFIGURED,
                    Some(s) => {
                        let interval = s.cfg.duration();
                        s.task = Some(Task {
                            next: now + interval,
                            interval: interval.max(1),
                        });
                        self.set_session_state(h, sid, ST_ACTIVE, REASON_CMD, "start", by);
                        self.update_device_state(h, "start", Some(sid), by);
                        OK
                    }
                };
                Some(("start", Some(sid), vec![st]))
            }
            (2, 1) if p.len() == 4 => {
                let st = match self.devs.get_mut(&h).unwrap().sessions.get_mut(&sid) {
                    None => NOT_EXIST,
                    Some(s) if s.state != ST_ACTIVE => SES_ACTIVE,
                    Some(s) => {
                        s.task = None;
                        self.set_session_state(h, sid, ST_IDLE, REASON_CMD, "stop", by);
                        self.update_device_state(h, "stop", Some(sid), by);
                        OK
                    }
                };
                Some(("stop", Some(sid), vec![st]))
            }
            (2, 3) if p.len() == 4 => Some((
                "rcount",
                Some(sid),
                match self.devs[&h].sessions.get(&sid) {
                    None => vec![NOT_EXIST, 0, 0, 0, 0],
                    Some(s) => [&[OK][..], &s.seq.to_le_bytes()].concat(),
                },
            )),
            (0xc, 0) if p.is_empty() => Some(("info", None, POWER_RSP.get().unwrap().clone())),
            (0xc, 1) if p.len() == 2 => Some(("info", None, vec![OK])),
            _ => None,
        };
        match r {
            Some((cmd, sid, payload)) => self.imm(h, rsp(gid, oid, payload), cmd, sid),
            None => self.imm(h, rsp(gid, oid, vec![UNKNOWN_OID]), "malformed", None),
        }
    }

    fn set_config(&mut self, h: usize, tlvs: Vec<(u8, Vec<u8>)>) -> Vec<u8> {
        let d = self.devs.get_mut(&h).unwrap();
        if d.state != DEV_READY {
            return vec![REJECTED, 0];
        }
        let mut bad = vec![];
        let n0 = tlvs.len();
        let _ = n0;
        for (id, v) in tlvs {
            match id {
                0 => bad.extend([id, READ_ONLY]),
                1 => d.low_power = (v.first().copied().unwrap_or(1) != 0) as u8,
                _ => bad.extend([id, INVALID_PARAM]),
            }
        }
        let st = if bad.is_empty() { OK } else { INVALID_PARAM };
        [vec![st, (bad.len() / 2) as u8], bad].concat()
    }

    fn get_config(&self, h: usize, ids: Vec<u8>) -> Vec<u8> {
        let d = &self.devs[&h];
        let bad: Vec<u8> = ids.iter().copied().filter(|i| *i > 1).collect();
        if !bad.is_empty() {
            let mut v = vec![INVALID_PARAM, bad.len() as u8];
            for b in bad {
                v.extend([b, 0]);
            }
            return v;
        }
        let mut v = vec![OK, ids.len() as u8];
        for i in ids {
            v.extend([i, 1, if i == 0 { d.state } else { d.low_power }]);
        }
        v
    }

    fn set_app(&mut self, h: usize, sid: u32, tlvs: Vec<(u8, Vec<u8>)>) -> Vec<u8> {
        let Some(s) = self.devs.get_mut(&h).unwrap().sessions.get_mut(&sid) else {
            return vec![NOT_EXIST, 0];
        };
        if s.typ > 1 {
            return vec![REJECTED, 0];
        }
        if s.state == ST_ACTIVE && tlvs.iter().any(|t| t.0 == 0x0d) {
            return vec![SES_ACTIVE, 0];
        }
        if s.state != ST_INIT && s.state != ST_ACTIVE {
            return vec![REJECTED, 0];
        }
        let mut cfg = s.cfg.clone();
        let mut bad = vec![];
        for (id, v) in &tlvs {
            if !cfg.set(*id, v) {
                bad.extend([*id, INVALID_PARAM]);
            }
        }
        if [0x11u8, 0x03, 0x01, 0x06, 0x22]
            .iter()
            .any(|id| cfg.get(*id).is_none())
        {
            return vec![REJECTED, 0];
        }
        if !bad.is_empty() {
            return [vec![INVALID_PARAM, (bad.len() / 2) as u8], bad].concat();
        }
        s.cfg = cfg;
        if s.state == ST_INIT {
            self.set_session_state(h, sid, ST_IDLE, REASON_CMD, "setapp", h);
        }
        vec![OK, 0]
    }

    fn get_app(&self, h: usize, sid: u32, ids: Vec<u8>) -> Vec<u8> {
        let Some(s) = self.devs[&h].sessions.get(&sid) else {
            return vec![NOT_EXIST, 0];
        };
        let mut v = vec![OK, ids.len() as u8];
        for id in ids {
            match s.cfg.get(id) {
                None => return vec![FAILED, 0],
                Some(val) => {
                    // the length of a parameter is coded on one byte
                    v.push(id);
                    v.push(val.len() as u8);
                    v.extend(val);
                }
            }
        }
        v
    }

    fn multicast(&mut self, h: usize, sid: u32, action: u8, p: &[u8]) -> Vec<u8> {
        let Some(s) = self.devs.get_mut(&h).unwrap().sessions.get_mut(&sid) else {
            return vec![NOT_EXIST, 0];
        };
        if !matches!(s.state, ST_IDLE | ST_ACTIVE)
            || s.cfg.u8(0x00) != Some(1)
            || s.cfg.u8(0x03) != Some(1)
        {
            return vec![REJECTED, 0];
        }
        let size = match action {
            2 => 22,
            3 => 38,
            _ => 6,
        };
        if p.is_empty() || p.len() != 1 + p[0] as usize * size {
            return vec![SYNTAX, 0];
        }
        let list: Vec<Vec<u8>> = p[1..].chunks(size).map(|c| c[..2].to_vec()).collect();
        let mut status = OK;
        let mut rsp = vec![];
        let mut removed = vec![];
        for a in list {
            let present = s.cfg.dst.contains(&a);
            if action == 1 {
                if present {
                    s.cfg.dst.retain(|x| *x != a);
                    removed.push(a.clone());
                    rsp.push((a, 0));
                } else {
                    status = FAILED;
                    rsp.push((a, 7));
                }
            } else if action >= 2 && s.cfg.u8(0x02) != Some(4) {
                status = FAILED;
            } else if present {
                status = FAILED;
                rsp.push((a, 8));
            } else if s.cfg.dst.len() >= 8 {
                status = MULTICAST_FULL;
                rsp.push((a, 1));
            } else {
                s.cfg.dst.push(a.clone());
                rsp.push((a, 0));
            }
        }
        s.updates += 1;
        let n = s.cfg.dst.len() as u8;
        s.cfg.vals.insert(0x05, vec![n]);
        let active = s.state == ST_ACTIVE;
        let attempts = s.cfg.u8(0x2f).unwrap();
        if action == 1 && active {
            let mut q = sid.to_le_bytes().to_vec();
            q.push(removed.len() as u8);
            for a in &removed {
                q.extend_from_slice(a);
                q.push(0);
            }
            self.out(
                h,
                Class::MulticastNtf { sid },
                ntf(1, 7, q),
                "multicast",
                Some(sid),
                h,
            );
        }
        if n == 0 && active {
            let s = self
                .devs
                .get_mut(&h)
                .unwrap()
                .sessions
                .get_mut(&sid)
                .unwrap();
            s.task = None;
            self.set_session_state(h, sid, ST_IDLE, REASON_NUM_CONTROLEES, "multicast", h);
            self.update_device_state(h, "multicast", Some(sid), h);
        }
        if attempts != 0 {
            for a in removed {
                self.inband_stop(h, &a, sid);
            }
        }
        let mut v = vec![status, rsp.len() as u8];
        for (a, st) in rsp {
            v.extend(a);
            v.push(st);
        }
        v
    }

    fn inband_stop(&mut self, by: usize, addr: &[u8], sid: u32) {
        // the signal is asynchronous: the sessions it finds may depend on the
        // messages that are queued
        if self
            .queue
            .iter()
            .any(|e| matches!(e, Ev::Message(_, m) if m.first().is_some_and(|b| b & 0xe0 == 0x20)))
        {
            self.ambiguous = true;
        }
        let hs: Vec<usize> = self.devs.keys().copied().collect();
        for h in hs {
            let hit = match self.devs.get_mut(&h).unwrap().sessions.get_mut(&sid) {
                Some(s) if s.state == ST_ACTIVE && s.cfg.mac().map(|m| &m[..]) == Some(addr) => {
                    s.task = None;
                    true
                }
                _ => false,
            };
            if hit {
                self.inband_stops += 1;
                // the signal is asynchronous: what was queued before it is
                // processed may come first
                if !self.queue.is_empty() {
                    self.ambiguous = true;
                }
                self.set_session_state(h, sid, ST_IDLE, REASON_INBAND, "inband", by);
                self.update_device_state(h, "inband", Some(sid), by);
            }
        }
    }
}

pub fn measurement(
    mac: &[u8],
    l: (u16, i16, i8),
    r: (u16, i16, i8),
    extended: bool,
) -> Vec<u8> {
    let mut v = mac.to_vec();
    v.resize(if extended { 8 } else { 2 }, 0);
    v.extend_from_slice(&[0, 0]);
    v.extend_from_slice(&l.0.to_le_bytes());
    v.extend_from_slice(&l.1.to_le_bytes());
    v.push(100);
    v.extend_from_slice(&(l.2 as i16).to_le_bytes());
    v.push(100);
    v.extend_from_slice(&r.1.to_le_bytes());
    v.push(100);
    v.extend_from_slice(&(r.2 as i16).to_le_bytes());
    v.push(100);
    v.extend_from_slice(&[0, 255]);
    v.resize(v.len() + if extended { 5 } else { 11 }, 0);
    v
}

fn parse_tlvs(p: &[u8]) -> Option<Vec<(u8, Vec<u8>)>> {
    let n = *p.first()? as usize;
    let mut i = 1;
    let mut v = vec![];
    for _ in 0..n {
        let id = *p.get(i)?;
        let len = *p.get(i + 1)? as usize;
        v.push((id, p.get(i + 2..i + 2 + len)?.to_vec()));
        i += 2 + len;
    }
    (i == p.len()).then_some(v)
}

fn parse_ids(p: &[u8]) -> Option<Vec<u8>> {
    let n = *p.first()? as usize;
    (p.len() == n + 1).then(|| p[1..].to_vec())
}
