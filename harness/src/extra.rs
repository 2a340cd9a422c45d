//! Additional parts of some checks, with oracles of their own.
use crate::engine::Stats;
use crate::runner::*;
use crate::sim;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, VecDeque};

pub fn run(id: &'static str, opts: &Opts, report: &mut Report) {
    match id {
        "C11" => race_part().execute(opts, report),
        "C01" | "C12" | "C14" => mass_part(id).execute(opts, report),
        "C15" => framing_part().execute(opts, report),
        "C19" => {
            parse_part().execute(opts, report);
            print_part().execute(opts, report);
        }
        _ => (),
    }
}

fn outcome(r: Result<bool, String>, stats: Stats) -> Outcome {
    Outcome {
        nontrivial: matches!(r, Ok(true)),
        verdict: match r {
            Ok(_) => Verdict::Ok,
            Err(d) => Verdict::Violation(d),
        },
        stats,
    }
}

// ------------------------------------------------ C01, C12, C14: many devices

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum MassOp {
    Rounds(u8),
    /// the peers of this position, counted from an end, leave
    Leave(bool, u16),
    /// their sessions stop
    Stop(bool, u16),
    Epoch(u32),
    Anchor(bool, u16),
    Join(u16),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct MassCase {
    extended: bool,
    anchors: u16,
    before: u16,
    after: u16,
    /// the peers use that many different addresses
    addresses: u8,
    ops: Vec<MassOp>,
}

fn mass_part(id: &'static str) -> Part<MassCase> {
    Part {
        name: "mass",
        rule: "one session ranging with up to 127 anchors and 300 devices, coming and leaving; \
               non-trivial: a notification with at least 100 measurements",
        cases: (400, 10_000),
        limit: (60, 900),
        strategy: Box::new(|| {
            let op = prop_oneof![
                4 => (1u8..3).prop_map(MassOp::Rounds),
                1 => (any::<bool>(), 0u16..60).prop_map(|(e, n)| MassOp::Leave(e, n)),
                1 => (any::<bool>(), 0u16..60).prop_map(|(e, n)| MassOp::Stop(e, n)),
                1 => any::<u32>().prop_map(MassOp::Epoch),
                1 => (any::<bool>(), 0u16..140).prop_map(|(e, n)| MassOp::Anchor(e, n)),
                1 => (1u16..40).prop_map(MassOp::Join),
            ];
            (
                any::<bool>(),
                prop_oneof![Just(127u16), 0u16..128],
                // the total lies often around 255
                prop_oneof![4 => 240i32..275, 1 => 100i32..300, 1 => 120i32..136],
                any::<u16>(),
                1u8..=6,
                prop::collection::vec(op, 1..8),
            )
                .prop_map(|(extended, anchors, total, split, addresses, mut ops)| {
                    // a value holds 255 bytes: 127 short addresses, 31 extended ones
                    let list = if extended { 31 } else { 127 };
                    let addresses = addresses.min(if anchors == 127 { 1 } else { 6 });
                    let anchors = anchors.min(list - addresses as u16);
                    let peers = (total - anchors as i32).clamp(1, 300) as u16;
                    let before = split % (peers + 1);
                    ops.insert(0, MassOp::Rounds(1));
                    MassCase { extended, anchors, before, after: peers - before, addresses, ops }
                })
                .boxed()
        }),
        run: Box::new(move |c| {
            let mut stats = Stats::default();
            let r = sim::block_on(mass(id, c, &mut stats));
            match r {
                // another property
                Err((who, d)) if !who.contains(&id) => Outcome {
                    nontrivial: false,
                    verdict: Verdict::Irrelevant(d),
                    stats,
                },
                r => outcome(r.map_err(|e| e.1), stats),
            }
        }),
    }
}

type MassError = (&'static [&'static str], String);

/// The messages of a client; the rules of the segments are checked.
fn messages(c: &sim::Client) -> Result<Vec<Vec<u8>>, MassError> {
    let seg = |d: String| Err((&["C14"] as &'static [_], d));
    let mut v: Vec<Vec<u8>> = vec![];
    let mut open = false;
    for (_, p) in c.take() {
        if p.len() < 4 || p[3] as usize != p.len() - 4 || (open && p.len() == 4) {
            return seg(format!("bad packet {:x?}", &p[..p.len().min(8)]));
        }
        if open {
            let m = v.last_mut().unwrap();
            if m[0] & 0xef != p[0] & 0xef || m[1] != p[1] {
                return seg("segments of different messages".into());
            }
            m.extend_from_slice(&p[4..]);
        } else {
            v.push(p.clone());
            v.last_mut().unwrap()[0] &= 0xef;
        }
        open = p[0] & 0x10 != 0;
    }
    if open {
        return seg("message without a last segment".into());
    }
    Ok(v)
}

async fn mass(id: &str, case: &MassCase, stats: &mut Stats) -> Result<bool, MassError> {
    const DEAD: MassError = (&["C01", "C12", "C14"], String::new());
    let dead = |d: &str| Err((DEAD.0, d.to_string()));
    const PERIOD: u32 = 100;
    let s = sim::Sim::new(None);
    let pad = |a: [u8; 2]| {
        let mut v = a.to_vec();
        if case.extended {
            v.splice(0..0, [7u8; 6]);
        }
        v
    };
    let anchor_addr = |i: u16| pad([0xa0 + (i >> 8) as u8, i as u8]);
    let main_addr = pad([0xb0, 1]);
    let peer_addr = |i: usize| pad([0xc0, (i % case.addresses as usize) as u8]);
    let pk = |gid: u8, oid: u8, p: Vec<u8>| [vec![0x20 | gid, oid, 0, p.len() as u8], p].concat();
    let setup = |c: &sim::Client, main: bool, mac: Vec<u8>, list: Vec<Vec<u8>>| {
        let n = if main { 0u8 } else { 1 };
        let bytes = list.concat();
        let tlvs: Vec<(u8, Vec<u8>)> = vec![
            (0x00, vec![n]),
            (0x11, vec![n]),
            (0x01, vec![2]),
            (0x03, vec![1]),
            (0x22, vec![1]),
            (0x26, vec![if case.extended { 2 } else { 0 }]),
            (0x06, mac),
            (0x05, vec![list.len() as u8]),
            (0x07, bytes),
            // the peers do not notify
            (0x0e, vec![main as u8]),
            (0x09, if main { PERIOD } else { 100_000_000 }.to_le_bytes().to_vec()),
        ];
        let mut q = [vec![9, 0, 0, 0], vec![tlvs.len() as u8]].concat();
        for (t, v) in tlvs {
            q.push(t);
            q.push(v.len() as u8);
            q.extend(v);
        }
        c.send(pk(0, 0, vec![0]));
        c.send(pk(1, 0, vec![9, 0, 0, 0, 0]));
        // in segments when it is long
        let n = q.len().div_ceil(255);
        for (i, part) in q.chunks(255).enumerate() {
            let more = if i + 1 < n { 0x10 } else { 0 };
            c.send([vec![0x21 | more, 3, 0, part.len() as u8], part.to_vec()].concat());
        }
        c.send(pk(2, 0, vec![9, 0, 0, 0]));
    };
    let mut next = 0usize;
    let mut anchors: BTreeMap<u16, usize> = BTreeMap::new();
    // position, client, handle, does it range
    let mut peers: Vec<(usize, sim::Client, usize, bool)> = vec![];
    let mut epoch = 0;
    let mut named: Vec<Vec<u8>> = (0..case.anchors).map(anchor_addr).collect();
    for i in 0..case.addresses {
        named.insert((i as usize * 7) % (named.len() + 1), pad([0xc0, i]));
    }
    macro_rules! join {
        ($i:expr) => {{
            let c = s.connect();
            s.drain().await;
            setup(&c, false, peer_addr($i), vec![main_addr.clone()]);
            s.drain().await;
            peers.push(($i, c, next, true));
            next += 1;
        }};
    }
    for i in 0..case.before as usize {
        join!(i)
    }
    for i in 0..case.anchors {
        let rx = s.anchor(true, sim::mac(&anchor_addr(i)));
        s.drain().await;
        drop(rx);
        anchors.insert(i, next);
        next += 1;
    }
    let main = s.connect();
    s.drain().await;
    let main_handle = next;
    next += 1;
    for i in 0..case.after as usize {
        join!(case.before as usize + i)
    }
    setup(&main, true, main_addr.clone(), named);
    s.drain().await;
    let started = s.now();
    s.sleep_until(started + 20).await;
    if !s.alive() {
        return dead("the event loop stopped during the configuration");
    }
    // the answers of all the clients
    for (k, c) in peers.iter().map(|p| &p.1).chain([&main]).enumerate() {
        let m = messages(c)?;
        let bad = m.iter().filter(|m| m[0] >> 5 == 2).count() != 4
            || m.iter().any(|m| m[0] >> 5 == 2 && m.get(4) != Some(&0));
        if bad {
            return Err((&["C01"], format!("client {k} of {}: answers {:x?}", peers.len(), m)));
        }
    }
    let mut count = 0u32;
    let mut large = false;
    // the instant between two rounds
    let mut now = started + 50;
    s.sleep_until(now).await;
    for op in case.ops.iter().chain([&MassOp::Rounds(1)]) {
        match op {
            MassOp::Epoch(e) => {
                epoch = *e;
                s.epoch.store(*e, std::sync::atomic::Ordering::SeqCst);
            }
            MassOp::Leave(end, n) => {
                for _ in 0..*n {
                    if peers.is_empty() {
                        break;
                    }
                    let k = if *end { peers.len() - 1 } else { 0 };
                    peers.remove(k).1.close_input();
                }
                s.drain().await;
            }
            MassOp::Stop(end, n) => {
                let total = peers.len();
                for k in 0..(*n as usize).min(total) {
                    let p = &mut peers[if *end { total - 1 - k } else { k }];
                    p.1.send(pk(2, 1, vec![9, 0, 0, 0]));
                    p.3 = false;
                }
                s.drain().await;
            }
            MassOp::Anchor(create, i) => {
                if *i >= case.anchors || *create == anchors.contains_key(i) {
                    continue;
                }
                let rx = s.anchor(*create, sim::mac(&anchor_addr(*i)));
                s.drain().await;
                drop(rx);
                if *create {
                    anchors.insert(*i, next);
                    next += 1;
                } else {
                    anchors.remove(i);
                }
            }
            MassOp::Join(n) => {
                for _ in 0..*n {
                    let i = next;
                    join!(i)
                }
            }
            MassOp::Rounds(n) => {
                for p in &peers {
                    p.1.take();
                }
                main.take();
                now += *n as u64 * PERIOD as u64;
                s.sleep_until(now).await;
                if !s.alive() {
                    return dead("the event loop stopped while ranging");
                }
                let mut want = vec![];
                let both = |h: usize| {
                    Some((sim::est(main_handle, h, epoch)?, sim::est(h, main_handle, epoch)?))
                };
                let all = anchors.iter().map(|(i, h)| (anchor_addr(*i), *h));
                let all = all.chain(peers.iter().filter(|p| p.3).map(|p| (peer_addr(p.0), p.2)));
                for (a, h) in all {
                    if let Some((l, r)) = both(h) {
                        want.push(crate::model::measurement(&a, l, r, case.extended))
                    }
                }
                let got = messages(&main)?;
                if got.len() != *n as usize || got.iter().any(|m| m[0] != 0x62 || m[1] != 0) {
                    return Err((
                        &["C01", "C12"],
                        format!("{} messages during {n} rounds with {} peers", got.len(), want.len()),
                    ));
                }
                for m in got {
                    let p = &m[4..];
                    let k = p.get(24).copied().unwrap_or(0) as usize;
                    stats.add("notifications", 1);
                    stats.add("measurements", k as u64);
                    large |= k >= 100;
                    if want.len() > 255 {
                        stats.add("beyond the limit", 1)
                    }
                    if p.len() != 25 + k * 31 || p[..4] != count.to_le_bytes() {
                        return Err((
                            &["C12", "C14"],
                            format!("notification of {} bytes, {k} measurements, expected number {count}", p.len()),
                        ));
                    }
                    count += 1;
                    let mut left = want.clone();
                    left.sort();
                    for g in p[25..].chunks(31) {
                        match left.binary_search_by(|x| x[..].cmp(g)) {
                            Ok(i) => left.remove(i),
                            Err(_) => {
                                return Err((&["C12"], format!("unexpected measurement {g:x?}")))
                            }
                        };
                    }
                    if k != want.len().min(255) {
                        return Err((&["C12"], format!("{k} measurements, expected {}", want.len())));
                    }
                }
            }
        }
    }
    if id == "C01" {
        // everybody is still served, and new clients too
        for p in &peers {
            p.1.take();
            p.1.send(pk(1, 5, vec![]));
        }
        let c = s.connect();
        s.drain().await;
        c.send(pk(0, 0, vec![0]));
        c.send(pk(1, 5, vec![]));
        s.sleep_until(now + 10).await;
        let m = messages(&c)?;
        if m.iter().filter(|m| m[0] >> 5 == 2).count() != 2 {
            return Err((&["C01"], format!("a new client is answered {m:x?}")));
        }
        for p in &peers {
            let m = messages(&p.1)?;
            if m != [vec![0x41, 5, 0, 2, 0, 1]] {
                return Err((&["C01"], format!("a peer is answered {m:x?}")));
            }
        }
    }
    Ok(large)
}

// ---------------------------------------------------------------- C11 races

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum RaceCmd {
    Setup(u8, u32),
    Start(u8),
    Stop(u8),
    Deinit(u8),
    Reset,
    Duration(u8, u32),
    Notify(u8, bool),
    Count(u8),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum RaceOp {
    Cmd(u8, RaceCmd),
    Wait(u32),
    /// the event loop is busy for some time; commands sent meanwhile queue up
    Busy(Vec<(u8, RaceCmd, u32)>, u32),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct RaceCase {
    clients: u8,
    ops: Vec<RaceOp>,
}

fn race_part() -> Part<RaceCase> {
    Part {
        name: "race",
        rule: "random starts, stops and reconfigurations at any instant relative to a tick, \
               including while the event loop is busy; non-trivial: at least 5 notifications and 2 spans",
        cases: (12_000, 400_000),
        limit: (60, 900),
        strategy: Box::new(|| {
            let dur = || prop_oneof![6 => 1u32..=8, 1 => 9u32..=100];
            let cmd = move || {
                prop_oneof![
                    3 => (0u8..2, dur()).prop_map(|(s, d)| RaceCmd::Setup(s, d)),
                    6 => (0u8..2).prop_map(RaceCmd::Start),
                    5 => (0u8..2).prop_map(RaceCmd::Stop),
                    1 => (0u8..2).prop_map(RaceCmd::Deinit),
                    1 => Just(RaceCmd::Reset),
                    1 => (0u8..2, dur()).prop_map(|(s, d)| RaceCmd::Duration(s, d)),
                    1 => (0u8..2, any::<bool>()).prop_map(|(s, b)| RaceCmd::Notify(s, b)),
                    3 => (0u8..2).prop_map(RaceCmd::Count),
                ]
            };
            let op = prop_oneof![
                10 => (0u8..4, cmd()).prop_map(|(c, m)| RaceOp::Cmd(c, m)),
                8 => (0u32..=24).prop_map(RaceOp::Wait),
                1 => (200u32..=600).prop_map(RaceOp::Wait),
                2 => (prop::collection::vec((0u8..2, cmd(), 0u32..6), 1..6), 0u32..10)
                    .prop_map(|(v, n)| RaceOp::Busy(v, n)),
            ];
            (
                1u8..=2,
                prop::collection::vec(op, 2..30),
                prop::option::weighted(0.002, Just(66_000u32)),
                dur(),
            )
                .prop_map(|(clients, mut ops, long, d)| {
                    let mut pre = vec![];
                    for c in 0..clients {
                        pre.push(RaceOp::Cmd(c, RaceCmd::Setup(0, d)));
                        pre.push(RaceOp::Cmd(c, RaceCmd::Start(0)));
                        pre.push(RaceOp::Wait(d / 2))
                    }
                    if let Some(n) = long {
                        let i = ops.len() / 2;
                        ops.insert(i, RaceOp::Wait(n))
                    }
                    pre.extend(ops);
                    RaceCase { clients, ops: pre }
                })
                .boxed()
        }),
        run: Box::new(|c| {
            let mut stats = Stats::default();
            let r = sim::block_on(race(c, &mut stats));
            outcome(r, stats)
        }),
    }
}

fn race_msgs(c: u8, cmd: &RaceCmd) -> Vec<(RaceCmd, Vec<u8>)> {
    let pk = |gid: u8, oid: u8, p: Vec<u8>| [vec![0x20 | gid, oid, 0, p.len() as u8], p].concat();
    let sid = |s: &u8| (1u32 + *s as u32).to_le_bytes().to_vec();
    let one = |p| vec![(cmd.clone(), p)];
    match cmd {
        RaceCmd::Setup(s, d) => {
            let mut q = sid(s);
            let peer = 1 - c;
            let tlvs: Vec<(u8, Vec<u8>)> = vec![
                (0x00, vec![1 - c]),
                (0x11, vec![1 - c]),
                (0x01, vec![2]),
                (0x03, vec![1]),
                (0x22, vec![1]),
                (0x06, vec![0xa0 + c, 0]),
                (0x05, vec![1]),
                (0x07, vec![0xa0 + peer, 0]),
                (0x09, d.to_le_bytes().to_vec()),
            ];
            q.push(tlvs.len() as u8);
            for (t, v) in tlvs {
                q.push(t);
                q.push(v.len() as u8);
                q.extend(v);
            }
            vec![
                (cmd.clone(), pk(1, 0, [sid(s), vec![0]].concat())),
                (RaceCmd::Duration(*s, *d), pk(1, 3, q)),
            ]
        }
        RaceCmd::Start(s) => one(pk(2, 0, sid(s))),
        RaceCmd::Stop(s) => one(pk(2, 1, sid(s))),
        RaceCmd::Deinit(s) => one(pk(1, 1, sid(s))),
        RaceCmd::Reset => one(pk(0, 0, vec![0])),
        RaceCmd::Duration(s, d) => one(pk(
            1,
            3,
            [sid(s), vec![1, 0x09, 4], d.to_le_bytes().to_vec()].concat(),
        )),
        RaceCmd::Notify(s, b) => one(pk(1, 3, [sid(s), vec![1, 0x0e, 1, *b as u8]].concat())),
        RaceCmd::Count(s) => one(pk(2, 3, sid(s))),
    }
}

#[derive(Default, Clone)]
struct RaceSession {
    sent: u32,
    notify: bool,
    duration: u32,
    /// time of the start, notifications since, is the period known and constant
    active: Option<(u64, u64, bool)>,
}

struct RaceClient {
    client: sim::Client,
    pending: VecDeque<(RaceCmd, u64)>,
    sessions: BTreeMap<u32, RaceSession>,
    /// when a session of this identifier last stopped: its last ticks may
    /// still be pending when it is started again at the same instant
    last_stop: BTreeMap<u32, u64>,
}

impl RaceClient {
    fn send(&mut self, c: u8, cmd: &RaceCmd, now: u64) {
        for (m, p) in race_msgs(c, cmd) {
            self.pending.push_back((m, now));
            self.client.send(p)
        }
    }

    fn check(&mut self, stats: &mut Stats) -> Result<(), String> {
        for (t, p) in self.client.take() {
            if p.len() < 4 {
                continue;
            }
            if p[0] >> 5 == 2 {
                let Some((cmd, sent)) = self.pending.pop_front() else {
                    return Err(format!("t={t}: unexpected response {:x?}", p));
                };
                let ok = p.get(4) == Some(&0);
                match cmd {
                    RaceCmd::Setup(s, _) if ok => {
                        self.sessions.insert(
                            1 + s as u32,
                            RaceSession {
                                notify: true,
                                duration: 0,
                                ..Default::default()
                            },
                        );
                    }
                    RaceCmd::Reset if ok => {
                        for s in self.sessions.keys() {
                            self.last_stop.insert(*s, t);
                        }
                        self.sessions.clear()
                    }
                    RaceCmd::Deinit(s) if ok => {
                        self.last_stop.insert(1 + s as u32, t);
                        self.sessions.remove(&(1 + s as u32));
                    }
                    _ => (),
                }
                let s = match cmd {
                    RaceCmd::Start(s)
                    | RaceCmd::Stop(s)
                    | RaceCmd::Duration(s, _)
                    | RaceCmd::Notify(s, _)
                    | RaceCmd::Count(s) => s,
                    _ => continue,
                };
                let Some(x) = self.sessions.get_mut(&(1 + s as u32)) else {
                    continue;
                };
                if !ok {
                    continue;
                }
                match cmd {
                    RaceCmd::Start(_) => {
                        stats.add("spans", 1);
                        x.active = Some((t, 0, x.notify))
                    }
                    RaceCmd::Stop(_) => {
                        if let Some((t0, n, true)) = x.active {
                            let d = x.duration.max(1) as u64;
                            let restarted = self.last_stop.get(&(1 + s as u32)) == Some(&t0);
                            let min = (sent.saturating_sub(t0)).div_ceil(d).saturating_sub(1);
                            let max = (t - t0) / d;
                            if n < min || (n > max && !restarted) {
                                return Err(format!(
                                    "{n} notifications from t={t0} to t={t} with a period of {d} ms, expected {min} to {max}"
                                ));
                            }
                        }
                        x.active = None;
                        self.last_stop.insert(1 + s as u32, t);
                    }
                    RaceCmd::Duration(_, d) => {
                        x.duration = d;
                        if let Some(a) = &mut x.active {
                            a.2 = false
                        }
                    }
                    RaceCmd::Notify(_, b) => {
                        x.notify = b;
                        if let Some(a) = &mut x.active {
                            a.2 = false
                        }
                    }
                    RaceCmd::Count(_) => {
                        if p.len() != 9 || p[5..9] != x.sent.to_le_bytes() {
                            return Err(format!(
                                "t={t}: ranging count {:x?} after {} notifications",
                                &p[5..],
                                x.sent
                            ));
                        }
                    }
                    _ => (),
                }
            } else if p[0] & 0xef == 0x62 && p[1] == 0 && p.len() >= 12 {
                let seq = u32::from_le_bytes(p[4..8].try_into().unwrap());
                let sid = u32::from_le_bytes(p[8..12].try_into().unwrap());
                stats.add("notifications", 1);
                let Some(x) = self.sessions.get_mut(&sid) else {
                    return Err(format!("t={t}: ranging notification of a deleted session"));
                };
                let Some(a) = &mut x.active else {
                    return Err(format!(
                        "t={t}: ranging notification of a session which is not active"
                    ));
                };
                if !x.notify {
                    return Err(format!("t={t}: ranging notification although disabled"));
                }
                if seq != x.sent {
                    return Err(format!(
                        "t={t}: sequence number {seq} after {} notifications",
                        x.sent
                    ));
                }
                x.sent += 1;
                a.1 += 1;
            }
        }
        Ok(())
    }
}

async fn race(case: &RaceCase, stats: &mut Stats) -> Result<bool, String> {
    let s = sim::Sim::new(None);
    let mut cs = vec![];
    for _ in 0..case.clients {
        let client = s.connect();
        s.drain().await;
        let mut c = RaceClient {
            client,
            pending: VecDeque::new(),
            sessions: BTreeMap::new(),
            last_stop: BTreeMap::new(),
        };
        c.send(0, &RaceCmd::Reset, 0);
        cs.push(c);
    }
    s.sleep_until(20).await;
    for op in &case.ops {
        match op {
            RaceOp::Cmd(c, m) => {
                let i = *c as usize % cs.len();
                cs[i].send(i as u8, m, s.now());
                // processed before or after the tick of this instant
                if *c & 2 == 0 {
                    s.drain().await
                }
            }
            RaceOp::Wait(ms) => {
                // stay below the capacity of memory: look at the output regularly
                let end = s.now() + *ms as u64;
                while s.now() < end {
                    s.sleep_until(end.min(s.now() + 2000)).await;
                    for c in &mut cs {
                        c.check(stats)?
                    }
                }
            }
            RaceOp::Busy(v, n) => {
                stats.add("busy", 1);
                s.gate(true);
                for (c, m, ms) in v {
                    let i = *c as usize % cs.len();
                    cs[i].send(i as u8, m, s.now());
                    s.sleep_until(s.now() + *ms as u64).await;
                }
                s.sleep_until(s.now() + *n as u64).await;
                s.gate(false);
                s.drain().await;
            }
        }
        for c in &mut cs {
            c.check(stats)?
        }
    }
    s.sleep_until(s.now() + 30).await;
    for c in &mut cs {
        c.check(stats)?;
        if let Some((m, t)) = c.pending.front() {
            return Err(format!("no response to {m:?} sent at t={t}"));
        }
    }
    if !s.alive() {
        return Err("the event loop stopped".into());
    }
    let get = |k: &str| stats.c.get(k).copied().unwrap_or(0);
    Ok(get("notifications") >= 5 && get("spans") >= 2)
}

// -------------------------------------------------------------- C15 framing

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Frame {
    /// first header byte (message type up to 3), second header byte, third
    /// header byte of control packets
    b: [u8; 3],
    len: u16,
    fill: u8,
}

impl Frame {
    fn bytes(&self) -> Vec<u8> {
        let data = self.b[0] >> 5 == 0;
        let n = if data {
            self.len as usize
        } else {
            self.len as usize % 256
        };
        let mut v = vec![self.b[0], self.b[1], self.b[2], n as u8];
        if data {
            v[2] = n as u8;
            v[3] = (n >> 8) as u8;
        }
        v.extend((0..n).map(|i| crate::ops::data_byte(self.fill, i)));
        v
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct FramingCase {
    frames: Vec<Frame>,
    /// sizes of the writes; after each, whether to let the reader run
    writes: Vec<(u16, bool)>,
    /// bytes missing at the end of the stream
    cut: u32,
}

fn framing_part() -> Part<FramingCase> {
    Part {
        name: "framing",
        rule: "random packets written to a TCP connection in random chunks, possibly truncated, \
               read with uci::read and written back with uci::write; non-trivial: 2 packets, and a \
               write that does not end at the end of a packet",
        cases: (4_000, 100_000),
        limit: (60, 600),
        strategy: Box::new(|| {
            let len = prop_oneof![
                3 => 0u16..=20,
                3 => prop::sample::select(vec![0u16, 1, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 32767, 32768, 65279, 65280, 65534, 65535]),
                2 => 0u16..=2000,
                1 => any::<u16>(),
            ];
            let frame = (0u8..4, 0u8..32, any::<[u8; 2]>(), len, any::<u8>()).prop_map(
                |(mt, low, b, len, fill)| Frame {
                    b: [mt << 5 | low, b[0], b[1]],
                    len,
                    fill,
                },
            );
            let write = (
                prop_oneof![4 => 1u16..=5, 3 => 1u16..=300, 2 => 1u16..=3000, 1 => 20000u16..=65535],
                any::<bool>(),
            );
            (
                prop::collection::vec(frame, 1..8),
                prop::collection::vec(write, 0..40),
                prop_oneof![2 => Just(0u32), 1 => 1u32..=6, 1 => 1u32..=5000],
            )
                .prop_map(|(frames, writes, cut)| FramingCase {
                    frames,
                    writes,
                    cut,
                })
                .boxed()
        }),
        run: Box::new(|c| {
            let mut stats = Stats::default();
            let rt = tokio::runtime::Builder::new_current_thread()
                .enable_all()
                .build()
                .unwrap();
            let r = rt.block_on(async {
                match tokio::time::timeout(std::time::Duration::from_secs(20), framing(c, &mut stats)).await {
                    Ok(r) => r,
                    Err(_) => Err("reading blocks although all the bytes were sent".into()),
                }
            });
            outcome(r, stats)
        }),
    }
}

async fn framing(case: &FramingCase, stats: &mut Stats) -> Result<bool, String> {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let frames: Vec<Vec<u8>> = case.frames.iter().map(|f| f.bytes()).collect();
    let all: Vec<u8> = frames.concat();
    let keep = all.len().saturating_sub(case.cut as usize);
    let mut complete = 0;
    let mut end = 0;
    for f in &frames {
        end += f.len();
        if end <= keep {
            complete += 1
        }
    }
    fn io<T>(e: std::io::Error) -> T {
        panic!("harness i/o: {e}")
    }
    let listener = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap_or_else(io);
    let addr = listener.local_addr().unwrap();
    let (a, b) = tokio::join!(tokio::net::TcpStream::connect(addr), listener.accept());
    let mut client = a.unwrap_or_else(io);
    let (server, _) = b.unwrap();
    client.set_nodelay(true).unwrap();
    let (mut rd, mut wr) = server.into_split();

    let bytes = all[..keep].to_vec();
    let writes = case.writes.clone();
    let sender = tokio::spawn(async move {
        let mut off = 0;
        for (n, pause) in writes {
            let n = (n as usize).min(bytes.len() - off);
            if n == 0 {
                break;
            }
            client.write_all(&bytes[off..off + n]).await.unwrap();
            off += n;
            if pause {
                for _ in 0..3 {
                    tokio::task::yield_now().await
                }
            }
        }
        client.write_all(&bytes[off..]).await.unwrap();
        client.shutdown().await.unwrap();
        client
    });
    for (i, f) in frames[..complete].iter().enumerate() {
        match pica::packets::uci::read(rd).await {
            None => return Err(format!("packet {i} of {complete} is not read")),
            Some((p, next)) => {
                if p != *f {
                    return Err(format!(
                        "packet {i} is read as {} bytes {:x?}.., sent {} bytes {:x?}..",
                        p.len(),
                        &p[..p.len().min(8)],
                        f.len(),
                        &f[..8.min(f.len())]
                    ));
                }
                rd = next;
            }
        }
    }
    if let Some((p, _)) = pica::packets::uci::read(rd).await {
        return Err(format!("{} bytes read past the end", p.len()));
    }
    let mut client = sender.await.unwrap();
    // and back
    let back = frames.clone();
    let writer = tokio::spawn(async move {
        for p in back {
            wr = pica::packets::uci::write(wr, p)
                .await
                .map_err(|e| e.to_string())?;
        }
        Ok::<_, String>(wr)
    });
    let mut got = vec![0; all.len()];
    let r = client.read_exact(&mut got).await;
    let _ = client.set_linger(Some(std::time::Duration::ZERO));
    writer.await.map_err(|e| format!("writing fails: {e}"))??;
    if r.is_err() || got != all {
        return Err("the bytes written differ from the packets".into());
    }
    stats.add("packets", frames.len() as u64);
    stats.add("large", frames.iter().filter(|f| f.len() > 260).count() as u64);
    stats.add("truncated", (keep < all.len()) as u64);
    let mut ends = vec![];
    let mut e = 0;
    for f in &frames {
        e += f.len();
        ends.push(e)
    }
    let mut off = 0;
    let mut split = false;
    for (n, _) in &case.writes {
        off += *n as usize;
        split |= off < keep && !ends.contains(&off);
    }
    Ok(frames.len() >= 2 && split)
}

// ------------------------------------------------------------ C19 addresses

/// Independent reading of an address string: `None` when the order in which
/// separators are removed matters.
fn read_address(s: &str) -> Option<Result<Vec<u8>, ()>> {
    let a = s.replace(':', "").replace("%3A", "");
    let b = s.replace("%3A", "").replace(':', "");
    if a != b {
        return None;
    }
    let c = a.as_bytes();
    if !matches!(c.len(), 4 | 16) || !c.iter().all(|x| x.is_ascii_hexdigit()) {
        return Some(Err(()));
    }
    let d = |x: u8| (x as char).to_digit(16).unwrap() as u8;
    Some(Ok(c.chunks(2).map(|p| d(p[0]) * 16 + d(p[1])).collect()))
}

fn address_bytes(a: &pica::MacAddress) -> Vec<u8> {
    match a {
        pica::MacAddress::Short(b) => b.to_vec(),
        pica::MacAddress::Extended(b) => b.to_vec(),
    }
}

fn parse_part() -> Part<String> {
    Part {
        name: "parse",
        rule: "random strings around the address syntax; non-trivial: at least 4 hexadecimal digits",
        cases: (200_000, 20_000_000),
        limit: (40, 900),
        strategy: Box::new(|| {
            let hex = "[0-9a-fA-F]";
            let odd = prop_oneof![
                Just("".to_string()), Just(":".to_string()), Just("%3A".to_string()), Just("%3a".to_string()),
                Just("g".to_string()), Just(" ".to_string()), Just("-".to_string()), Just("+".to_string()),
                Just("é".to_string()), Just("\0".to_string()), Just("0x".to_string()), Just("%".to_string()),
                Just("::".to_string()), Just("०".to_string()), Just("\n".to_string()), Just(".".to_string()),
            ];
            let digits = prop_oneof![3 => Just(4usize), 3 => Just(16usize), 1 => 0usize..24, 1 => prop::sample::select(vec![3usize, 5, 12, 15, 17, 32])];
            // digits joined by random separators
            let near = digits.prop_flat_map(move |n| {
                (
                    prop::collection::vec(hex, n),
                    prop::collection::vec(prop_oneof![6 => Just("".to_string()), 3 => Just(":".to_string()), 1 => Just("%3A".to_string())], n + 1),
                    prop::option::weighted(0.3, (0usize..24, odd.clone(), any::<bool>())),
                )
            })
            .prop_map(|(d, sep, x)| {
                let mut v: Vec<String> = d.into_iter().zip(sep).map(|(a, b)| a + &b).collect();
                if let Some((i, s, replace)) = x {
                    let n = v.len();
                    if n > 0 {
                        let i = i % n;
                        if replace { v[i] = s } else { v.insert(i, s) }
                    }
                }
                v.concat()
            });
            prop_oneof![8 => near, 1 => "[0-9a-fA-F:%3A]{0,24}", 1 => ".{0,20}"].boxed()
        }),
        run: Box::new(|s| {
            let mut stats = Stats::default();
            let got = std::panic::catch_unwind(|| pica::MacAddress::new(s.clone()));
            let json = serde_json::to_string(s).unwrap();
            let serde = std::panic::catch_unwind(|| serde_json::from_str::<pica::MacAddress>(&json));
            let r = (|| {
                let (Ok(got), Ok(serde)) = (got, serde) else {
                    return Err(format!("parsing {s:?} panics"));
                };
                let got = got.map(|a| address_bytes(&a)).map_err(|_| ());
                let serde = serde.map(|a| address_bytes(&a)).map_err(|_| ());
                if got != serde {
                    return Err(format!("{s:?} is read as {got:?}, and as {serde:?} by serde"));
                }
                let Some(want) = read_address(s) else {
                    return Ok(false);
                };
                if got != want {
                    return Err(format!("{s:?} is read as {got:?}, expected {want:?}"));
                }
                stats.add(if want.is_ok() { "valid" } else { "invalid" }, 1);
                Ok(s.bytes().filter(u8::is_ascii_hexdigit).count() >= 4)
            })();
            outcome(r, stats)
        }),
    }
}

fn print_part() -> Part<Vec<u8>> {
    Part {
        name: "print",
        rule: "all short addresses and random extended ones, printed and read back; all non-trivial",
        cases: (140_000, 5_000_000),
        limit: (40, 600),
        strategy: Box::new(|| {
            let b = || prop_oneof![Just(0u8), Just(0xff), Just(9), Just(0xa0), Just(0x0a), any::<u8>()];
            prop_oneof![
                4 => prop::collection::vec(any::<u8>(), 2),
                1 => prop::collection::vec(b(), 2),
                2 => prop::collection::vec(any::<u8>(), 8),
                2 => prop::collection::vec(b(), 8),
            ]
            .boxed()
        }),
        run: Box::new(|v| {
            let a = sim::mac(v);
            let r = (|| {
                let want = v.iter().map(|b| format!("{}{}", hexdigit(b >> 4), hexdigit(b & 15))).collect::<Vec<_>>().join(":");
                let shown = a.to_string();
                if shown != want {
                    return Err(format!("{v:x?} is printed as {shown}"));
                }
                if String::from(a) != want || String::from(&a) != want {
                    return Err(format!("{v:x?} is converted to {}", String::from(a)));
                }
                let json = serde_json::to_string(&a).map_err(|e| e.to_string())?;
                if json != format!("\"{want}\"") {
                    return Err(format!("{v:x?} is serialized as {json}"));
                }
                for text in [want.clone(), want.to_lowercase(), want.replace(':', ""), want.replace(':', "%3A")] {
                    match pica::MacAddress::new(text.clone()) {
                        Ok(b) if b == a => (),
                        other => return Err(format!("{text} is read back as {other:?}")),
                    }
                }
                if Vec::<u8>::from(a) != *v || Vec::<u8>::from(&a) != *v {
                    return Err(format!("{v:x?} is converted to {:x?}", Vec::<u8>::from(a)));
                }
                let int = v.iter().rev().fold(0u64, |n, b| n << 8 | *b as u64);
                if u64::from(a) != int || u64::from(&a) != int {
                    return Err(format!("{v:x?} has the integer value {:x}", u64::from(a)));
                }
                Ok(true)
            })();
            outcome(r, Stats::default())
        }),
    }
}

fn hexdigit(n: u8) -> char {
    b"0123456789ABCDEF"[n as usize] as char
}
