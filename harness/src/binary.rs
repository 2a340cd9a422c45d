//! C29: the pica program over real TCP, compared with the library running
//! in-process, and in real time.
use crate::engine::Stats;
use crate::gen;
use crate::ops::*;
use crate::pcap;
use crate::runner::*;
use crate::sim;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

const TIMEOUT: Duration = Duration::from_secs(20);
/// sessions of the compared histories do not tick
const NEVER: [u8; 4] = [0, 0, 0, 0x40];
/// in ms, between the steps of the reference
const HOUR: u64 = 3_600_000;

pub fn run(opts: &Opts, report: &mut Report) {
    protocol_part().execute(opts, report);
    ranging_part().execute(opts, report);
    limit_part().execute(opts, report);
    flood_part().execute(opts, report);
}

// ------------------------------------------------------------- the program

struct Program {
    child: Child,
    port: u16,
    dir: Option<PathBuf>,
}

fn listening(port: u16) -> bool {
    let text = std::fs::read_to_string("/proc/net/tcp").unwrap_or_default();
    text.lines().skip(1).any(|l| {
        let w: Vec<&str> = l.split_whitespace().collect();
        w.len() > 3 && w[3] == "0A" && w[1].ends_with(&format!(":{port:04X}"))
    })
}

impl Program {
    /// `trace`: 0 none, 1 absolute directory, 2 and 3 relative to the current
    /// one; 4 more: pica-http
    fn start(trace: u8) -> Result<Program, String> {
        Self::start_with(trace, None)
    }

    /// `files`: limit of open files
    fn start_with(trace: u8, files: Option<u64>) -> Result<Program, String> {
        static N: AtomicU32 = AtomicU32::new(0);
        let exe = std::env::var("VERIF_PICA").expect("VERIF_PICA") + if trace & 4 != 0 { "-http" } else { "" };
        let http = trace & 4 != 0;
        let trace = trace & 3;
        let name = format!("pica-verif-bin-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed));
        let top = std::env::temp_dir();
        let dir = (trace > 0).then(|| {
            let d = top.join(&name);
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir_all(d.join("deeper")).unwrap();
            d
        });
        for _ in 0..40 {
            let n = N.fetch_add(1, Ordering::Relaxed) + std::process::id() * 61;
            let port = 9000 + (n % 11000) as u16;
            if listening(port) || http && listening(port + 11000) {
                continue;
            }
            let mut c = Command::new(&exe);
            c.arg("--uci-port").arg(port.to_string());
            if http {
                c.arg("--web-port").arg((port + 11000).to_string());
            }
            if let Some(d) = &dir {
                match trace {
                    2 => c.current_dir(&top).arg("--pcapng-dir").arg(&name),
                    3 => c.current_dir(d.join("deeper")).arg("--pcapng-dir").arg(".."),
                    _ => c.arg("--pcapng-dir").arg(d),
                };
            }
            if let Some(n) = files {
                use std::os::unix::process::CommandExt;
                extern "C" {
                    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
                }
                // RLIMIT_NOFILE
                unsafe {
                    c.pre_exec(move || {
                        setrlimit(7, &[n, n]);
                        Ok(())
                    })
                };
            }
            // the default is debug
            match n % 3 {
                0 => c.env("RUST_LOG", "off"),
                1 => c.env("RUST_LOG", "trace"),
                _ => c.env_remove("RUST_LOG"),
            };
            let child = c
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .map_err(|e| format!("{exe}: {e}"))?;
            let mut p = Program { child, port, dir: dir.clone() };
            let end = Instant::now() + TIMEOUT;
            while Instant::now() < end {
                if listening(port) && (!http || listening(port + 11000)) {
                    return Ok(p);
                }
                if p.child.try_wait().unwrap().is_some() {
                    break;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            p.dir = None;
        }
        Err("the program does not listen on the given port".into())
    }

    fn alive(&mut self) -> bool {
        self.child.try_wait().unwrap().is_none()
    }
}

impl Drop for Program {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        if let Some(d) = &self.dir {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}

/// A client; reassembles control messages, keeps packets for the trace.
struct Tcp {
    s: TcpStream,
    buf: Vec<u8>,
    part: Vec<u8>,
    messages: Vec<Vec<u8>>,
    received: Vec<Vec<u8>>,
    sent: Vec<Vec<u8>>,
    eof: bool,
    /// a client of pica-http
    http: bool,
}

impl Tcp {
    fn connect(port: u16) -> Result<Tcp, String> {
        let s = TcpStream::connect(("127.0.0.1", port)).map_err(|e| format!("connect: {e}"))?;
        s.set_nodelay(true).unwrap();
        s.set_write_timeout(Some(TIMEOUT)).unwrap();
        Ok(Tcp {
            s,
            buf: vec![],
            part: vec![],
            messages: vec![],
            received: vec![],
            sent: vec![],
            eof: false,
            http: false,
        })
    }

    fn pump(&mut self, wait: Duration) {
        if self.eof {
            return;
        }
        let mut b = [0u8; 65536];
        self.s.set_read_timeout(Some(wait.max(Duration::from_micros(100)))).unwrap();
        match self.s.read(&mut b) {
            Ok(0) => self.eof = true,
            Ok(n) => self.buf.extend_from_slice(&b[..n]),
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => (),
            Err(_) => self.eof = true,
        }
        while self.buf.len() >= 4 {
            let n = 4 + if self.buf[0] >> 5 == 0 {
                u16::from_le_bytes([self.buf[2], self.buf[3]]) as usize
            } else {
                self.buf[3] as usize
            };
            if self.buf.len() < n {
                break;
            }
            let p: Vec<u8> = self.buf.drain(..n).collect();
            reassemble(&mut self.part, &mut self.messages, &p);
            self.received.push(p);
        }
    }

    /// Write packets, in pieces of the given sizes.
    fn write(&mut self, packets: &[Vec<u8>], pieces: &[u16]) -> Result<(), String> {
        let all = packets.concat();
        let mut off = 0;
        for n in pieces {
            let n = (*n as usize).min(all.len() - off);
            self.s.write_all(&all[off..off + n]).map_err(|e| format!("write: {e}"))?;
            off += n;
            if n > 0 && off < all.len() {
                std::thread::sleep(Duration::from_micros(300));
            }
        }
        self.s.write_all(&all[off..]).map_err(|e| format!("write: {e}"))?;
        self.sent.extend(packets.iter().cloned());
        Ok(())
    }

    fn wait(&mut self, pred: impl Fn(&[u8]) -> bool, what: &str) -> Result<Vec<u8>, String> {
        let end = Instant::now() + TIMEOUT;
        loop {
            if let Some(i) = self.messages.iter().position(|m| pred(m)) {
                return Ok(self.messages.remove(i));
            }
            if self.eof {
                return Err(format!("the connection is closed, waiting for {what}"));
            }
            if Instant::now() > end {
                return Err(format!("{what} does not arrive"));
            }
            self.pump(Duration::from_millis(100));
        }
    }

    fn cmd(&mut self, gid: u8, oid: u8, p: &[u8]) -> Result<Vec<u8>, String> {
        let m = [&[0x20 | gid, oid, 0, p.len() as u8][..], p].concat();
        self.write(&[m], &[])?;
        let r = self.wait(|m| m[0] >> 5 == 2, &format!("the answer to command {gid:x}/{oid:x}"))?;
        if r[0] & 0xf != gid || r[1] & 0x3f != oid {
            return Err(format!("command {gid:x}/{oid:x} is answered by {r:02x?}"));
        }
        Ok(r[4..].to_vec())
    }

    fn reset_connection(self) {
        use std::os::fd::AsRawFd;
        #[repr(C)]
        struct Linger {
            on: i32,
            secs: i32,
        }
        extern "C" {
            fn setsockopt(fd: i32, level: i32, name: i32, val: *const Linger, len: u32) -> i32;
        }
        let l = Linger { on: 1, secs: 0 };
        // SOL_SOCKET, SO_LINGER
        unsafe { setsockopt(self.s.as_raw_fd(), 1, 13, &l, 8) };
    }
}

fn reassemble(part: &mut Vec<u8>, messages: &mut Vec<Vec<u8>>, p: &[u8]) {
    let control = p[0] >> 5 != 0;
    if part.is_empty() {
        part.extend_from_slice(p);
        if control {
            part[0] &= 0xef;
            part[3] = 0
        }
    } else {
        part.extend_from_slice(&p[4..])
    }
    if !control || p[0] & 0x10 == 0 {
        messages.push(std::mem::take(part))
    }
}

// ------------------------------------------------- comparison with the library

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum BinOp {
    Connect,
    /// 0 close, 1 reset, 2 half close, 3 close within a packet,
    /// 4 reset within a packet
    Close(u8, u8, u8),
    Send(u8, Vec<Msg>, Vec<u16>),
    /// configure, so that it never ticks, and start
    Start(u8, u8),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct BinCase {
    trace: u8,
    ops: Vec<BinOp>,
}

fn slow(cmd: Cmd) -> Cmd {
    match cmd {
        Cmd::SetApp(s, t) => Cmd::SetApp(
            s,
            t.into_iter()
                .map(|(id, v)| if id == 9 { (id, NEVER.to_vec()) } else { (id, v) })
                .collect(),
        ),
        c => c,
    }
}

/// See [Program::start].
fn program() -> impl Strategy<Value = u8> {
    (prop_oneof![3 => Just(0u8), 2 => 1u8..4], prop_oneof![2 => Just(0u8), 1 => Just(4)]).prop_map(|(a, b)| a | b)
}

fn bin_case() -> BoxedStrategy<BinCase> {
    let msg = || {
        (
            prop_oneof![8 => gen::any_cmd().prop_map(slow), 1 => gen::raw()],
            prop_oneof![8 => Just(Mutation::None), 1 => gen::mutation()],
            gen::frags(),
        )
            .prop_map(|(cmd, mutation, frags)| Msg { cmd, mutation, frags })
    };
    let pieces = || prop_oneof![3 => Just(vec![]), 1 => vec(1u16..6, 1..6), 1 => vec(1u16..400, 1..4)];
    let op = prop_oneof![
        2 => Just(BinOp::Connect),
        2 => (0u8..4, 0u8..5, any::<u8>()).prop_map(|(c, h, n)| BinOp::Close(c, h, n)),
        12 => (0u8..4, msg(), pieces()).prop_map(|(c, m, p)| BinOp::Send(c, vec![m], p)),
        3 => (0u8..4, vec(msg(), 2..6), pieces()).prop_map(|(c, m, p)| BinOp::Send(c, m, p)),
        3 => (0u8..4, 0u8..3).prop_map(|(c, s)| BinOp::Start(c, s)),
    ];
    (
        program(),
        1usize..=3,
        vec(op, 2..30),
    )
        .prop_map(|(trace, n, ops)| {
            let mut v = vec![];
            for i in 0..n {
                v.push(BinOp::Connect);
                v.push(BinOp::Send(i as u8, vec![Msg::plain(Cmd::Reset)], vec![]));
            }
            v.extend(ops);
            BinCase { trace, ops: v }
        })
        .boxed()
}

/// What a client does next, as bytes.
enum Step {
    Connect,
    Send(usize, Vec<Vec<u8>>, Vec<u16>),
    Close(usize, u8, Vec<u8>),
}

fn steps(case: &BinCase) -> Vec<Step> {
    let sid = |s: u8| SIDS[s as usize % 3];
    let all = |_: u32| vec![0x11, 9, 7, 0, 1];
    let mut v = vec![];
    // open clients, by order of connection
    let mut open: Vec<usize> = vec![];
    let mut n = 0;
    for op in &case.ops {
        match op {
            BinOp::Connect => {
                if open.len() < 4 {
                    open.push(n);
                    n += 1;
                    v.push(Step::Connect)
                }
            }
            _ if open.is_empty() => (),
            BinOp::Close(c, how, k) => {
                let i = open.remove(*c as usize % open.len());
                let whole = [vec![0x21, 0x03, 0, 20], vec![7; 20]].concat();
                let mut b = vec![];
                if *how >= 3 {
                    b = whole[..1 + *k as usize % (whole.len() - 1)].to_vec();
                }
                v.push(Step::Close(i, *how, b))
            }
            BinOp::Send(c, msgs, pieces) => {
                let i = open[*c as usize % open.len()];
                let mut packets = vec![];
                for m in msgs {
                    let (full, p) = m.build(&sid, &all);
                    let start = full[0] & 0x0f == 2 && full[1] & 0x3f == 0 && full[0] >> 5 == 1;
                    let config = full[0] & 0x0f == 1 && full[1] & 0x3f == 3 && full[0] >> 5 == 1;
                    let plain = m.mutation == Mutation::None && !matches!(m.cmd, Cmd::Raw(..));
                    // these could make a session tick
                    if start || config && !plain {
                        continue;
                    }
                    packets.extend(p)
                }
                v.push(Step::Send(i, packets, pieces.clone()))
            }
            BinOp::Start(c, s) => {
                let i = open[*c as usize % open.len()];
                let mut packets = vec![];
                for cmd in [
                    Cmd::Init(*s, 0),
                    Cmd::SetApp(*s, vec![(0, vec![1]), (0x11, vec![1]), (1, vec![2]), (3, vec![1]), (0x22, vec![1]), (6, vec![1, 2]), (9, NEVER.to_vec())]),
                    Cmd::Start(*s),
                ] {
                    packets.extend(Msg::plain(cmd).build(&sid, &all).1)
                }
                v.push(Step::Send(i, packets, vec![]))
            }
        }
    }
    // nothing else arrives
    for _ in 0..2 {
        for i in &open {
            v.push(Step::Send(*i, vec![vec![0x2c, 0, 0, 0]], vec![]))
        }
    }
    v
}

/// What every client receives at each step from the library.
async fn reference(steps: &[Step]) -> Option<Vec<Vec<Vec<Vec<u8>>>>> {
    let s = sim::Sim::new(None);
    let mut clients = vec![];
    let mut parts: Vec<Vec<u8>> = vec![];
    let mut out = vec![];
    for (i, st) in steps.iter().enumerate() {
        match st {
            Step::Connect => {
                clients.push(s.connect());
                parts.push(vec![])
            }
            Step::Send(c, p, _) => {
                for x in p {
                    clients[*c].send(x.clone())
                }
            }
            Step::Close(c, ..) => clients[*c].close_input(),
        }
        s.drain().await;
        s.sleep_until(HOUR * i as u64 + 1000).await;
        s.drain().await;
        let mut got = vec![];
        for (c, part) in clients.iter().zip(&mut parts) {
            let mut messages = vec![];
            for (_, p) in c.take() {
                reassemble(part, &mut messages, &p)
            }
            got.push(messages)
        }
        out.push(got);
        // a session that ticks would do so at another moment in real time
        s.sleep_until(HOUR * (i as u64 + 1)).await;
        if !s.alive() || clients.iter().any(|c| !c.take().is_empty()) {
            return None;
        }
    }
    Some(out)
}

fn compare(case: &BinCase, stats: &mut Stats) -> Result<bool, String> {
    let steps = steps(case);
    let Some(want) = sim::block_on(reference(&steps)) else {
        return Ok(false); // the library itself fails
    };
    let mut prog = Program::start(case.trace)?;
    let mut tcp: Vec<Option<Tcp>> = vec![];
    let mut traces: Vec<(Vec<Vec<u8>>, Vec<Vec<u8>>, bool)> = vec![];
    let r = (|| {
        for (i, st) in steps.iter().enumerate() {
            match st {
                Step::Connect => {
                    tcp.push(Some(Tcp::connect(prog.port)?));
                    traces.push(Default::default())
                }
                Step::Send(c, p, pieces) => tcp[*c].as_mut().unwrap().write(p, pieces)?,
                Step::Close(c, how, b) => {
                    let mut t = tcp[*c].take().unwrap();
                    let _ = t.s.write_all(b);
                    traces[*c] = (t.sent.clone(), t.received.clone(), *how != 1 && *how != 4);
                    match how {
                        1 | 4 => t.reset_connection(),
                        2 => {
                            t.s.shutdown(Shutdown::Write).map_err(|e| e.to_string())?;
                            // the program closes its side too
                            let end = Instant::now() + TIMEOUT;
                            while !t.eof && Instant::now() < end {
                                t.pump(Duration::from_millis(100))
                            }
                            if !t.eof {
                                return Err(format!("client {c}: a half closed connection is kept"));
                            }
                        }
                        _ => (),
                    }
                    stats.add("closed", 1);
                }
            }
            for (c, t) in tcp.iter_mut().enumerate() {
                let Some(t) = t else { continue };
                let w = &want[i][c];
                let end = Instant::now() + TIMEOUT;
                while t.messages.len() < w.len() && !t.eof && Instant::now() < end {
                    t.pump(Duration::from_millis(50))
                }
                let got = std::mem::take(&mut t.messages);
                let (mut a, mut b) = (got.clone(), w.clone());
                a.sort();
                b.sort();
                let responses = |v: &[Vec<u8>]| v.iter().filter(|m| m[0] >> 5 == 2).cloned().collect::<Vec<_>>();
                if a != b || responses(&got) != responses(w) {
                    return Err(format!(
                        "step {i}: client {c} receives {}, from the library {}{}",
                        show(&got),
                        show(w),
                        if t.eof { " (connection closed)" } else { "" }
                    ));
                }
                stats.add("messages", got.len() as u64);
            }
        }
        if !prog.alive() {
            return Err("the program stopped".into());
        }
        if let Some(dir) = &prog.dir {
            for (c, t) in tcp.iter().enumerate() {
                let (sent, received, exact) = match t {
                    Some(t) => (&t.sent, &t.received, true),
                    None => (&traces[c].0, &traces[c].1, traces[c].2),
                };
                check_trace(&dir.join(format!("device-{c}.pcapng")), sent, received, exact)
                    .map_err(|e| format!("trace of client {c}: {e}"))?;
                stats.add("traces", 1);
            }
        }
        Ok(())
    })();
    r?;
    let n = want.iter().flatten().map(|m| m.len()).sum::<usize>();
    Ok(n >= 5 && traces.len() >= 2)
}

/// The file contains the packets of both directions, each in order (only
/// the packets of the client when its connection was reset).
fn check_trace(path: &PathBuf, sent: &[Vec<u8>], received: &[Vec<u8>], exact: bool) -> Result<(), String> {
    let end = Instant::now() + TIMEOUT;
    loop {
        let r = (|| {
            let b = std::fs::read(path).map_err(|e| format!("{e}"))?;
            let t = pcap::parse(&b)?;
            let (mut i, mut o) = (0, 0);
            for (_, _, p) in &t.packets {
                // commands and responses cannot be confused
                if sent.get(i) == Some(p) && (p[0] >> 5 != 2 && p[0] >> 5 != 3 || received.get(o) != Some(p)) {
                    i += 1
                } else if received.get(o) == Some(p) {
                    o += 1
                } else if exact {
                    return Err(format!("unexpected packet {:02x?}", &p[..p.len().min(12)]));
                }
            }
            if exact && (i < sent.len() || o < received.len()) {
                return Err(format!("{i} of {} and {o} of {} packets", sent.len(), received.len()));
            }
            Ok(())
        })();
        match r {
            Err(e) if Instant::now() > end => return Err(e),
            Err(_) => std::thread::sleep(Duration::from_millis(20)),
            Ok(()) => return Ok(()),
        }
    }
}

fn show(v: &[Vec<u8>]) -> String {
    let s: Vec<String> = v
        .iter()
        .map(|m| {
            let h: String = m.iter().take(24).map(|b| format!("{b:02x}")).collect();
            if m.len() > 24 { format!("{h}..({})", m.len()) } else { h }
        })
        .collect();
    format!("[{}]", s.join(", "))
}

/// A failure counts when it happens again.
fn confirmed<C: Serialize>(case: &C, f: impl Fn(&C, &mut Stats) -> Result<bool, String>) -> Outcome {
    let mut stats = Stats::default();
    let mut r = f(case, &mut stats);
    let mut verdict = Verdict::Ok;
    if r.is_err() {
        let first = r.clone();
        for _ in 0..3 {
            r = f(case, &mut Stats::default());
            if r.is_err() {
                break;
            }
        }
        verdict = match &r {
            Err(d) => Verdict::Violation(d.clone()),
            Ok(_) => Verdict::Irrelevant(format!("not repeated: {} in {}", first.unwrap_err(), serde_json::to_string(case).unwrap())),
        };
    }
    Outcome { verdict, nontrivial: r == Ok(true), stats }
}

fn protocol_part() -> Part<BinCase> {
    Part {
        name: "protocol",
        rule: "random histories of several TCP clients, compared message by message with the library running \
               in-process; non-trivial: 2 clients and 5 messages",
        cases: (2_500, 60_000),
        limit: (45, 900),
        strategy: Box::new(bin_case),
        run: Box::new(|c| confirmed(c, compare)),
    }
}

// ------------------------------------------------------ ranging in real time

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct LiveCase {
    trace: u8,
    /// clients that are only connected, and whether the first of them ranges
    /// as fast as it can
    crowd: u16,
    busy: bool,
    /// per client: joins the session, period in ms
    clients: Vec<(bool, u16)>,
    rounds: u8,
    /// who leaves and how; who stops and starts again
    leave: Option<(u8, u8)>,
    restart: Option<u8>,
    second: bool,
}

fn live_case() -> BoxedStrategy<LiveCase> {
    (
        (
            program(),
            prop_oneof![12 => Just(0u16), 4 => 1u16..30, 1 => 30u16..300],
            any::<bool>(),
        ),
        vec((prop_oneof![5 => Just(true), 1 => Just(false)], prop_oneof![3 => 10u16..60, 1 => 60u16..150]), 1..5),
        3u8..12,
        prop::option::weighted(0.6, (0u8..4, 0u8..4)),
        prop::option::weighted(0.4, 0u8..4),
        prop_oneof![3 => Just(false), 1 => Just(true)],
    )
        .prop_map(|((trace, crowd, busy), clients, rounds, leave, restart, second)| LiveCase {
            trace,
            crowd,
            busy,
            clients,
            rounds,
            leave,
            restart,
            second,
        })
        .boxed()
}

fn mac_of(i: usize) -> [u8; 2] {
    [0xd0 + i as u8, i as u8]
}

fn is_info(m: &[u8]) -> bool {
    m[0] & 0xef == 0x62 && m[1] == 0
}

/// Session, sequence number and addresses; all the values must be zero
/// (the directions are not defined with pica-http, where all devices are at
/// the same position).
fn info(m: &[u8], http: bool) -> Result<(u32, u32, Vec<[u8; 2]>), String> {
    let bad = || format!("malformed ranging notification {:02x?}", m);
    if m.len() < 29 || m.len() != 29 + 31 * m[28] as usize || m[17] != 1 || m[19] != 0 {
        return Err(bad());
    }
    let mut v = vec![];
    for e in m[29..].chunks(31) {
        // distance, azimuth, elevation and those at the destination
        let values: &[usize] = if http { &[4, 5] } else { &[4, 5, 6, 7, 9, 10, 12, 13, 15, 16] };
        let zero = e[2] == 0 && values.iter().all(|i| e[*i] == 0);
        if !zero {
            return Err(format!("measurement {:02x?} is not zero", e));
        }
        v.push([e[0], e[1]]);
    }
    let u = |i: usize| u32::from_le_bytes(m[i..i + 4].try_into().unwrap());
    Ok((u(8), u(4), v))
}

fn live(case: &LiveCase, stats: &mut Stats) -> Result<bool, String> {
    let mut prog = Program::start(case.trace)?;
    let n = case.clients.len();
    let sid = 5u32;
    let mut tcp = vec![];
    for _ in 0..n {
        let mut t = Tcp::connect(prog.port)?;
        t.http = case.trace & 4 != 0;
        if t.cmd(0, 0, &[0])? != [0] {
            return Ok(false);
        }
        tcp.push(Some(t))
    }
    let mut crowd = vec![];
    for i in 0..case.crowd {
        let mut t = Tcp::connect(prog.port)?;
        t.cmd(0, 0, &[0]).map_err(|e| format!("client {i} of the crowd: {e}"))?;
        crowd.push(t);
    }
    stats.add("crowd", crowd.len() as u64);
    if let (true, Some(t)) = (case.busy, crowd.first_mut()) {
        // RANGING_DURATION of 0
        let mut p = vec![9, 0, 0, 0, 7];
        for (k, v) in [(0, &[1][..]), (0x11, &[1]), (1, &[2]), (3, &[1]), (0x22, &[1]), (6, &[9, 9]), (9, &[0; 4])] {
            p.extend([k, v.len() as u8]);
            p.extend(v);
        }
        t.cmd(1, 0, &[9, 0, 0, 0, 0])?;
        t.cmd(1, 3, &p)?;
        t.cmd(2, 0, &[9, 0, 0, 0])?;
        stats.add("busy", 1);
    }
    let set_up = |t: &mut Tcp, i: usize, sid: u32| -> Result<bool, String> {
        let dst: Vec<u8> = if i == 0 {
            (1..n.max(2)).flat_map(mac_of).chain([0xee, 0xee]).collect()
        } else {
            mac_of(0).to_vec()
        };
        let tlvs: Vec<(u8, Vec<u8>)> = vec![
            (0, vec![(i == 0) as u8]),
            (0x11, vec![(i == 0) as u8]),
            (1, vec![2]),
            (3, vec![1]),
            (0x22, vec![1]),
            (6, mac_of(i).to_vec()),
            (5, vec![dst.len() as u8 / 2]),
            (7, dst),
            (9, (case.clients[i].1 as u32).to_le_bytes().to_vec()),
        ];
        let mut p = sid.to_le_bytes().to_vec();
        p.push(tlvs.len() as u8);
        for (k, v) in tlvs {
            p.push(k);
            p.push(v.len() as u8);
            p.extend(v);
        }
        let mut ok = t.cmd(1, 0, &[&sid.to_le_bytes()[..], &[0]].concat())? == [0];
        ok &= t.cmd(1, 3, &p)?.first() == Some(&0);
        Ok(ok)
    };
    let mut active = vec![false; n];
    let mut started = vec![Instant::now(); n];
    let mut count = vec![0u32; n];
    for i in 0..n {
        let t = tcp[i].as_mut().unwrap();
        if !set_up(t, i, sid)? {
            return Ok(false); // another property is broken
        }
        if case.clients[i].0 {
            started[i] = Instant::now();
            if t.cmd(2, 0, &sid.to_le_bytes())? != [0] {
                return Ok(false);
            }
            active[i] = true;
        }
    }
    if case.second && active[0] {
        // another session of the first client, whose peers are not in it
        let t = tcp[0].as_mut().unwrap();
        if !set_up(t, 0, 6)? || t.cmd(2, 0, &6u32.to_le_bytes())? != [0] {
            return Ok(false);
        }
    }
    let mut second = 0u32;
    // all the sessions are active now: notifications made from here on
    // report each other's members
    let expect = |i: usize, active: &[bool]| -> Vec<[u8; 2]> {
        let mut v: Vec<[u8; 2]> = (0..n)
            .filter(|j| active[*j] && (*j == 0) != (i == 0))
            .map(mac_of)
            .collect();
        v.sort();
        v
    };
    for i in 0..n {
        let t = tcp[i].as_mut().unwrap();
        t.cmd(1, 5, &[])?;
        for m in std::mem::take(&mut t.messages) {
            if is_info(&m) {
                let (s, q, _) = info(&m, case.trace & 4 != 0)?;
                let c = if s == sid { &mut count[i] } else { &mut second };
                if q != *c {
                    return Err(format!("client {i}: sequence number {q} after {c} notifications"));
                }
                *c += 1;
            }
        }
    }
    // `strict`: the members are known
    fn next(
        t: &mut Tcp,
        i: usize,
        count: &mut u32,
        second: &mut u32,
        want: Option<&[[u8; 2]]>,
        stats: &mut Stats,
    ) -> Result<Vec<[u8; 2]>, String> {
        loop {
            let m = t.wait(is_info, &format!("a ranging notification of client {i}"))?;
            let (s, q, mut a) = info(&m, t.http)?;
            a.sort();
            let c = if s == 5 { &mut *count } else { &mut *second };
            if q != *c {
                return Err(format!("client {i}: sequence number {q} after {c} notifications"));
            }
            *c += 1;
            if s == 6 && i == 0 {
                if !a.is_empty() {
                    return Err(format!("the peers {a:02x?} are not in session 6"));
                }
                continue;
            }
            if s != 5 {
                return Err(format!("notification of session {s}"));
            }
            stats.add("notifications", 1);
            stats.add("measurements", a.len() as u64);
            if let Some(w) = want {
                if a != w {
                    return Err(format!("client {i} measures {a:02x?} instead of {w:02x?}"));
                }
            }
            return Ok(a);
        }
    }
    for _ in 0..case.rounds {
        for i in 0..n {
            if active[i] {
                let w = expect(i, &active);
                next(tcp[i].as_mut().unwrap(), i, &mut count[i], &mut second, Some(&w), stats)?;
            }
        }
    }
    let rate = |i: usize, count: u32, since: Instant| -> Result<(), String> {
        let d = case.clients[i].1 as u128;
        let ms = since.elapsed().as_millis();
        if count as u128 > ms / d + 1 {
            return Err(format!("client {i}: {count} notifications in {ms} ms with a period of {d} ms"));
        }
        Ok(())
    };
    for i in 0..n {
        if !active[i] {
            continue;
        }
        rate(i, count[i], started[i])?;
        // as slow as the period, with a margin for a loaded machine
        let t = tcp[i].as_mut().unwrap();
        let d = case.clients[i].1 as u64;
        let t0 = Instant::now();
        for _ in 0..3 {
            next(t, i, &mut count[i], &mut second, None, stats)?;
        }
        if t0.elapsed() > Duration::from_millis(3 * d * 4 + 1500) {
            return Err(format!("client {i}: 3 notifications take {} ms with a period of {d} ms", t0.elapsed().as_millis()));
        }
    }
    if let Some((c, how)) = case.leave {
        let c = c as usize % n;
        let mut t = tcp[c].take().unwrap();
        match how {
            0 => drop(t),
            1 => t.reset_connection(),
            2 => {
                let _ = t.s.shutdown(Shutdown::Write);
                let end = Instant::now() + TIMEOUT;
                while !t.eof && Instant::now() < end {
                    t.pump(Duration::from_millis(100));
                }
                if !t.eof {
                    return Err(format!("client {c}: a half closed connection is kept"));
                }
            }
            _ => {
                let _ = t.s.write_all(&[0x21, 3, 0, 200, 5, 0]);
                drop(t)
            }
        }
        let was = active[c];
        active[c] = false;
        for i in 0..n {
            if !active[i] {
                continue;
            }
            let w = expect(i, &active);
            let t = tcp[i].as_mut().unwrap();
            let end = Instant::now() + TIMEOUT;
            // reported until the disconnection is noticed, then never again
            while next(t, i, &mut count[i], &mut second, None, stats)? != w {
                if Instant::now() > end {
                    return Err(format!("client {i} still measures client {c}, whose connection is closed"));
                }
            }
            for _ in 0..2 {
                next(t, i, &mut count[i], &mut second, Some(&w), stats)?;
            }
        }
        if was {
            stats.add("left", 1);
        }
    }
    if let Some(c) = case.restart {
        let c = c as usize % n;
        if active[c] {
            let t = tcp[c].as_mut().unwrap();
            if t.cmd(2, 1, &sid.to_le_bytes())? != [0] {
                return Ok(false);
            }
            // what precedes the answer, then silence
            for m in std::mem::take(&mut t.messages) {
                if is_info(&m) {
                    let (s, q, _) = info(&m, case.trace & 4 != 0)?;
                    let k = if s == sid { &mut count[c] } else { &mut second };
                    if q != *k {
                        return Err(format!("client {c}: sequence number {q} after {k} notifications"));
                    }
                    *k += 1;
                }
            }
            std::thread::sleep(Duration::from_millis(2 * case.clients[c].1 as u64 + 5));
            let r = t.cmd(2, 3, &sid.to_le_bytes())?;
            let want = [&[0u8][..], &count[c].to_le_bytes()].concat();
            if r != want {
                return Err(format!("client {c}: ranging count {r:02x?} after {} notifications", count[c]));
            }
            if let Some(m) = t.messages.iter().find(|m| is_info(m) && m[8] == 5) {
                return Err(format!("client {c}: notification {:02x?} after the session stopped", m));
            }
            if t.cmd(2, 0, &sid.to_le_bytes())? != [0] {
                return Ok(false);
            }
            let w = expect(c, &active);
            for _ in 0..2 {
                next(t, c, &mut count[c], &mut second, Some(&w), stats)?;
            }
            stats.add("restarted", 1);
        }
    }
    for (i, t) in crowd.iter_mut().enumerate().skip(case.busy as usize) {
        let r = t.cmd(1, 5, &[]).map_err(|e| format!("client {i} of the crowd: {e}"))?;
        if r != [0, 0] {
            return Err(format!("client {i} of the crowd: session count {r:02x?}"));
        }
    }
    // a new client is served
    let mut t = Tcp::connect(prog.port)?;
    if t.cmd(0, 0, &[0])? != [0] {
        return Ok(false);
    }
    if !prog.alive() {
        return Err("the program stopped".into());
    }
    if let Some(dir) = &prog.dir {
        for i in 0..n {
            let Some(t) = tcp[i].as_mut() else { continue };
            // stop everything, so that the file is complete
            for s in [sid, 6] {
                t.cmd(2, 1, &s.to_le_bytes())?;
            }
            t.cmd(1, 5, &[])?;
            t.pump(Duration::from_millis(60));
            check_trace(&dir.join(format!("device-{i}.pcapng")), &t.sent, &t.received, true)
                .map_err(|e| format!("trace of client {i}: {e}"))?;
            stats.add("traces", 1);
        }
    }
    Ok(active.iter().filter(|a| **a).count() >= 1 && stats.get("measurements") >= 3)
}

fn ranging_part() -> Part<LiveCase> {
    Part {
        name: "ranging",
        rule: "random groups of clients ranging in real time, with departures and restarts; \
               non-trivial: at least 3 measurements",
        cases: (500, 10_000),
        limit: (40, 900),
        strategy: Box::new(live_case),
        run: Box::new(|c| confirmed(c, live)),
    }
}

// ------------------------------------------------------- too many connections

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct LimitCase {
    trace: u8,
    files: u8,
    /// per round: connections, of which so many send commands; abort them
    rounds: Vec<(u8, u8, bool)>,
    ranging: bool,
}

fn limit_part() -> Part<LimitCase> {
    Part {
        name: "limit",
        rule: "more connections than the program can open files; non-trivial: all (the limit is always exceeded)",
        cases: (48, 1_000),
        limit: (60, 600),
        strategy: Box::new(|| {
            (
                program(),
                24u8..60,
                vec((any::<u8>(), any::<u8>(), any::<bool>()), 1..4),
                any::<bool>(),
            )
                .prop_map(|(trace, files, rounds, ranging)| LimitCase {
                    trace,
                    files,
                    rounds: rounds.into_iter().map(|(n, m, a)| (files + n % 40, m % (files + 40), a)).collect(),
                    ranging,
                })
                .boxed()
        }),
        run: Box::new(|c| confirmed(c, beyond)),
    }
}

fn beyond(case: &LimitCase, stats: &mut Stats) -> Result<bool, String> {
    let mut prog = Program::start_with(case.trace, Some(case.files as u64))?;
    let mut first = Tcp::connect(prog.port)?;
    first.cmd(0, 0, &[0])?;
    if case.ranging {
        first.cmd(1, 0, &[5, 0, 0, 0, 0])?;
        let cfg = [
            &[5, 0, 0, 0, 7, 0, 1, 1, 1, 1, 2, 3, 1, 1, 0x11, 1, 1, 0x22, 1, 1, 6, 2, 1, 1, 9, 4][..],
            &20u32.to_le_bytes(),
        ]
        .concat();
        let r = (first.cmd(1, 3, &cfg)?, first.cmd(2, 0, &[5, 0, 0, 0])?);
        if r != (vec![0, 0], vec![0]) {
            return Ok(false);
        }
    }
    let want = [0, case.ranging as u8];
    for (n, active, abort) in &case.rounds {
        let mut others = vec![];
        for i in 0..*n {
            let Ok(mut t) = Tcp::connect(prog.port) else { break };
            stats.add("connections", 1);
            if i < *active {
                // not necessarily accepted yet
                let _ = t.write(&[vec![0x20, 0, 0, 1, 0], vec![0x21, 5, 0, 0]], &[]);
            }
            others.push(t);
        }
        for _ in 0..5 {
            if !prog.alive() {
                return Err("the program ended: too many connections".into());
            }
            let r = first.cmd(1, 5, &[]).map_err(|e| format!("with {n} more connections: {e}"))?;
            if r != want {
                return Err(format!("with {n} more connections: session count {r:02x?}"));
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        if let Some(t) = others.first_mut().filter(|_| *active > 0) {
            // accepted before the limit was reached
            t.wait(|m| m[..2] == [0x41, 5], "the answer for a connection below the limit")?;
        }
        for t in others {
            if *abort {
                t.reset_connection();
            }
        }
        let mut t = Tcp::connect(prog.port)?;
        t.cmd(0, 0, &[0]).map_err(|e| format!("after the other connections were closed: {e}"))?;
        stats.add("served afterwards", 1);
    }
    if case.ranging {
        first.wait(is_info, "a ranging notification")?;
    }
    Ok(true)
}

// --------------------------------------------------------- floods of commands

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct FloodCase {
    trace: u8,
    /// per client: number of commands, first command of the cycle, how it
    /// behaves: 0 reads at once, 1 reads at the end, 2 leaves without reading
    clients: Vec<(u16, u8, u8)>,
    /// clients that connect meanwhile: pause before in units of 0.1 ms,
    /// whether they send a command
    arrivals: Vec<(u8, bool)>,
}

fn flood_part() -> Part<FloodCase> {
    Part {
        name: "flood",
        rule: "clients send thousands of commands each without waiting for the answers, while others connect; \
               non-trivial: at least 2000 commands, an arrival, and an answer read after the first arrival",
        cases: (64, 1_500),
        limit: (60, 600),
        strategy: Box::new(|| {
            (
                program(),
                prop_oneof![
                    1 => vec((1000u16..20_000, any::<u8>(), 0u8..3), 1..4),
                    2 => vec((300u16..3_000, any::<u8>(), 0u8..3), 4..48),
                ],
                vec((any::<u8>(), any::<bool>()), 1..80),
            )
                .prop_map(|(trace, clients, arrivals)| FloodCase { trace, clients, arrivals })
                .boxed()
        }),
        run: Box::new(|c| confirmed(c, flood)),
    }
}

/// The commands of a flood and the beginning of their answers.
fn flood_command(n: usize) -> (Vec<u8>, [u8; 5]) {
    match n % 5 {
        0 => (vec![0x20, 2, 0, 0], [0x40, 2, 0, 0, 0]),
        1 => (vec![0x21, 5, 0, 0], [0x41, 5, 0, 0, 0]),
        2 => (vec![0x21, 6, 0, 4, 9, 0, 0, 0], [0x41, 6, 0, 0, 0x11]),
        3 => (vec![0x20, 3, 0, 0], [0x40, 3, 0, 0, 0]),
        _ => (vec![0x22, 0, 0, 4, 9, 0, 0, 0], [0x42, 0, 0, 0, 0x11]),
    }
}

fn flood(case: &FloodCase, stats: &mut Stats) -> Result<bool, String> {
    let mut prog = Program::start(case.trace)?;
    let mut clients = vec![];
    for _ in &case.clients {
        let mut t = Tcp::connect(prog.port)?;
        t.cmd(0, 0, &[0])?;
        t.messages.clear();
        clients.push(t);
    }
    let arrived = AtomicU32::new(0);
    let total: u32 = case.clients.iter().map(|c| c.0 as u32).sum();
    let late = AtomicU32::new(0);
    let (mut results, mut arrivals) = (vec![], vec![]);
    std::thread::scope(|scope| {
        let threads: Vec<_> = clients
            .into_iter()
            .zip(&case.clients)
            .map(|(t, c)| scope.spawn(|| flooding(t, c, &arrived, &late)))
            .collect();
        for (i, (pause, send)) in case.arrivals.iter().enumerate() {
            std::thread::sleep(Duration::from_micros(*pause as u64 * 100));
            match Tcp::connect(prog.port) {
                Ok(mut t) => {
                    if *send {
                        let _ = t.write(&[vec![0x20, 0, 0, 1, 0]], &[]);
                        arrivals.push((i, t));
                    }
                }
                Err(e) => {
                    results.push(Err(e));
                    break;
                }
            }
            arrived.store(1, Ordering::Relaxed);
        }
        for t in threads {
            results.push(t.join().unwrap());
        }
    });
    if !prog.alive() {
        return Err("the program ended: a client connected while others send many commands".into());
    }
    for r in results {
        r?;
    }
    stats.add("commands", total as u64);
    for (i, mut t) in arrivals {
        t.wait(|m| m[..2] == [0x40, 0], &format!("the answer for client {i} that connected during the flood"))?;
        stats.add("arrivals served", 1);
    }
    Tcp::connect(prog.port)?.cmd(0, 0, &[0]).map_err(|e| format!("after the flood: {e}"))?;
    Ok(total >= 2000 && late.load(Ordering::Relaxed) > 0)
}

fn flooding(mut t: Tcp, (n, first, mode): &(u16, u8, u8), arrived: &AtomicU32, late: &AtomicU32) -> Result<(), String> {
    let (n, first) = (*n as usize, *first as usize);
    let mut next = 0;
    let mut check = |t: &mut Tcp| {
        for m in t.messages.drain(..) {
            if m[0] >> 5 != 2 {
                continue;
            }
            let want = flood_command(first + next).1;
            let mut got = [m[0], m[1], m[2], 0, *m.get(4).unwrap_or(&0xff)];
            if m[1] == 5 {
                got[4] = 0;
            }
            if next >= n || got != want {
                return Err(format!("answer {next} of {n} to a flood of commands is {m:02x?}, not {want:02x?}"));
            }
            late.fetch_add(arrived.load(Ordering::Relaxed), Ordering::Relaxed);
            next += 1;
        }
        Ok(next)
    };
    let mut sent = 0;
    while sent < n {
        let some = (n - sent).min(200);
        let bytes: Vec<Vec<u8>> = (0..some).map(|i| flood_command(first + sent + i).0).collect();
        t.write(&bytes, &[])?;
        t.sent.clear();
        sent += some;
        if *mode == 0 {
            t.pump(Duration::ZERO);
            t.received.clear();
            check(&mut t)?;
        }
    }
    if *mode == 2 {
        if first % 2 == 0 {
            t.reset_connection();
        }
        return Ok(());
    }
    let mut end = Instant::now() + TIMEOUT;
    loop {
        let before = check(&mut t)?;
        if before == n {
            return Ok(());
        }
        if t.eof {
            return Err(format!("the connection is closed after {before} of {n} answers to a flood of commands"));
        }
        t.pump(Duration::from_millis(100));
        t.received.clear();
        if !t.messages.is_empty() {
            end = Instant::now() + TIMEOUT;
        } else if Instant::now() > end {
            return Err(format!("{before} of {n} commands of a flood are answered"));
        }
    }
}
