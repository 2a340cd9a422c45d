//! Abstract operations: generated by proptest, executed by the engine,
//! serialised into replay files.

use serde::{Deserialize, Serialize};

/// Session identifiers: small ones, and ones that differ in a single byte.
pub const SIDS: &[u32] = &[
    1,
    0x0100_0001,
    2,
    0x0000_0101,
    0xffff_ffff,
    0x8000_0000,
    0,
    0x0001_0000,
];

/// Addresses: byte-swapped pairs, addresses of devices ([0, handle]), extended.
pub const ADDRS: &[&[u8]] = &[
    &[0x0a, 0x01],
    &[0x01, 0x0a],
    &[0x0b, 0x02],
    &[0xff, 0xff],
    &[0x00, 0x01],
    &[0x00, 0x02],
    &[0x00, 0x00],
    &[0x0c, 0x03],
    &[0x0c, 0x04],
    &[0x0c, 0x05],
    &[0x0c, 0x06],
    &[0x0c, 0x07],
    &[0x0c, 0x08],
    &[0x0c, 0x09],
    &[0x00, 0x03],
    &[0x00, 0x05],
];
pub const XADDRS: &[&[u8]] = &[
    &[1, 2, 3, 4, 5, 6, 7, 8],
    &[8, 7, 6, 5, 4, 3, 2, 1],
    &[0x0a, 0x01, 0, 0, 0, 0, 0, 0],
    &[0xff; 8],
    &[0, 0, 0, 0, 0, 0, 0x0a, 0x01],
    // padded addresses of devices
    &[0, 1, 0, 0, 0, 0, 0, 0],
    &[0; 8],
    &[0, 0, 0, 0, 0, 0, 0, 1],
];

pub fn addr(i: u8) -> Vec<u8> {
    let n = ADDRS.len() + XADDRS.len();
    let i = i as usize % n;
    if i < ADDRS.len() {
        ADDRS[i].to_vec()
    } else {
        XADDRS[i - ADDRS.len()].to_vec()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Cmd {
    Reset,
    Info,
    Caps,
    Power,
    Country(u8, u8),
    SetCfg(Vec<(u8, Vec<u8>)>),
    GetCfg(Vec<u8>),
    Init(u8, u8),
    Deinit(u8),
    Start(u8),
    Stop(u8),
    State(u8),
    Count,
    RCount(u8),
    SetApp(u8, Vec<(u8, Vec<u8>)>),
    GetApp(u8, Vec<u8>),
    /// All the parameters set, according to the model.
    GetAll(u8),
    /// session, action, controlees (address index)
    Multi(u8, u8, Vec<u8>),
    /// session, length, fill, sequence number
    Data(u8, u32, u8, u16),
    Raw(u8, Vec<u8>, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Mutation {
    None,
    Truncate(u8),
    Extend(Vec<u8>),
    Flip(u8, u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Msg {
    pub cmd: Cmd,
    pub mutation: Mutation,
    /// sizes of the first fragments (control messages).
    pub frags: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct SetupP {
    pub s: u8,
    pub typ: u8,
    pub controller: bool,
    pub initiator: bool,
    pub o2m: bool,
    pub mac: u8,
    pub dst: Vec<u8>,
    pub extended: bool,
    pub duration: u32,
    pub extra: Vec<(u8, Vec<u8>)>,
    pub start: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Connect,
    /// 0 close input, 1 output fails at next response, 2 both at once,
    /// 3 close input inside a segmented message, 4 output fails at the next
    /// notification or response, 5 packet with an unknown message type
    Disconnect(u8, u8),
    Msg(u8, Msg),
    Burst(u8, Vec<Msg>),
    Setup(u8, SetupP),
    /// init + configure (+ start) with as few parameters as possible
    Wait(u32),
    /// milliseconds of real time
    Pause(u16),
    Anchor(bool, u8),
    Epoch(u32),
    Gated(Vec<Op>),
    Stall(u8, bool),
    Probe(u8),
    ProbeAll,
    /// create `n` sessions with consecutive identifiers from a base
    Many(u8, u32, u16),
    /// the same, and configure and start them (client, base, number, period)
    ManyActive(u8, u32, u16, u32),
    /// raw PicaCommand::StopRanging-free stale ranging events are produced by Gated
    Rounds(u32),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    pub n_sids: u8,
    pub clients: u8,
    /// bit i: client i is reset at the beginning
    pub resets: u8,
    pub pcap: bool,
    /// the environment is run by `pica::run`, devices are added directly
    #[serde(default)]
    pub shared: bool,
    pub ops: Vec<Op>,
}

pub fn header(mt: u8, gid: u8, oid: u8, len: usize) -> Vec<u8> {
    vec![mt << 5 | gid, oid, 0, len as u8]
}

impl Cmd {
    /// Header (length not filled in) and payload.
    pub fn encode(&self, sid: &dyn Fn(u8) -> u32, all: &dyn Fn(u32) -> Vec<u8>) -> Vec<u8> {
        let c = |gid: u8, oid: u8, p: Vec<u8>| [header(1, gid, oid, 0), p].concat();
        let s4 = |s: &u8| sid(*s).to_le_bytes().to_vec();
        let tlvs = |t: &Vec<(u8, Vec<u8>)>| {
            let mut v = vec![t.len() as u8];
            for (id, val) in t {
                v.push(*id);
                v.push(val.len() as u8);
                v.extend(val);
            }
            v
        };
        match self {
            Cmd::Reset => c(0, 0, vec![0]),
            Cmd::Info => c(0, 2, vec![]),
            Cmd::Caps => c(0, 3, vec![]),
            Cmd::Power => c(0xc, 0, vec![]),
            Cmd::Country(a, b) => c(0xc, 1, vec![*a, *b]),
            Cmd::SetCfg(t) => c(0, 4, tlvs(t)),
            Cmd::GetCfg(ids) => c(0, 5, [vec![ids.len() as u8], ids.clone()].concat()),
            Cmd::Init(s, t) => c(1, 0, [s4(s), vec![*t]].concat()),
            Cmd::Deinit(s) => c(1, 1, s4(s)),
            Cmd::Start(s) => c(2, 0, s4(s)),
            Cmd::Stop(s) => c(2, 1, s4(s)),
            Cmd::State(s) => c(1, 6, s4(s)),
            Cmd::Count => c(1, 5, vec![]),
            Cmd::RCount(s) => c(2, 3, s4(s)),
            Cmd::SetApp(s, t) => c(1, 3, [s4(s), tlvs(t)].concat()),
            Cmd::GetApp(s, ids) => c(1, 4, [s4(s), vec![ids.len() as u8], ids.clone()].concat()),
            Cmd::GetAll(s) => {
                let ids = all(sid(*s));
                c(1, 4, [s4(s), vec![ids.len() as u8], ids].concat())
            }
            Cmd::Multi(s, action, list) => {
                let mut v = s4(s);
                v.push(*action);
                v.push(list.len() as u8);
                for (i, a) in list.iter().enumerate() {
                    v.extend_from_slice(ADDRS[*a as usize % ADDRS.len()]);
                    v.extend_from_slice(&(i as u32 * 0x01010101).to_le_bytes());
                    let key = match action {
                        2 => 16,
                        3 => 32,
                        _ => 0,
                    };
                    v.extend((0..key).map(|k| (k as u8).wrapping_mul(7)));
                }
                c(1, 7, v)
            }
            Cmd::Data(s, len, fill, seq) => {
                let len = (*len).min(65535) as usize;
                let mut v = vec![0x01, 0, 0, 0];
                v.extend(s4(s));
                v.extend_from_slice(&[9, 8, 7, 6, 5, 4, 3, 2]);
                v.extend_from_slice(&seq.to_le_bytes());
                v.extend_from_slice(&(len as u16).to_le_bytes());
                v.extend((0..len).map(|i| data_byte(*fill, i)));
                v
            }
            Cmd::Raw(_, h, p) => {
                let mut v = h.clone();
                v.resize(4, 0);
                [v, p.clone()].concat()
            }
        }
    }
}

pub fn data_byte(fill: u8, i: usize) -> u8 {
    (fill as usize)
        .wrapping_add(i)
        .wrapping_add(i >> 8)
        .wrapping_mul(31) as u8
}

impl Msg {
    pub fn plain(cmd: Cmd) -> Msg {
        Msg {
            cmd,
            mutation: Mutation::None,
            frags: vec![],
        }
    }

    /// Complete message and the packets that carry it.
    pub fn build(
        &self,
        sid: &dyn Fn(u8) -> u32,
        all: &dyn Fn(u32) -> Vec<u8>,
    ) -> (Vec<u8>, Vec<Vec<u8>>) {
        let mut m = self.cmd.encode(sid, all);
        match &self.mutation {
            Mutation::None => (),
            Mutation::Truncate(n) => {
                let keep = m.len().saturating_sub(*n as usize).max(4);
                m.truncate(keep)
            }
            Mutation::Extend(v) => m.extend(v),
            Mutation::Flip(pos, x) => {
                // never the message type nor the length
                let body = m.len() - 4;
                let i = *pos as usize % (body + 2);
                let i = if i < 2 { i } else { i + 2 };
                if i == 0 {
                    m[0] ^= x & 0x0f
                } else {
                    m[i] ^= x
                }
            }
        }
        let is_data = m[0] >> 5 == 0;
        if is_data {
            // one packet: the framing of data packets has a 16 bit length
            m.truncate(4 + 65535);
            let n = m.len() - 4;
            m[2] = n as u8;
            m[3] = (n >> 8) as u8;
            return (m.clone(), vec![m]);
        }
        m[0] &= !0x10;
        let body = m[4..].to_vec();
        let mut packets = vec![];
        let mut off = 0;
        for f in &self.frags {
            let n = (*f as usize).min(body.len() - off);
            packets.push(body[off..off + n].to_vec());
            off += n;
        }
        loop {
            let n = (body.len() - off).min(255);
            packets.push(body[off..off + n].to_vec());
            off += n;
            if off == body.len() {
                break;
            }
        }
        let last = packets.len() - 1;
        let packets = packets
            .into_iter()
            .enumerate()
            .map(|(i, p)| {
                let mut h = m[..4].to_vec();
                if i != last {
                    h[0] |= 0x10
                }
                h[3] = p.len() as u8;
                [h, p].concat()
            })
            .collect();
        (m, packets)
    }
}
