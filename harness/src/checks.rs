//! The checks: per property, profiles of generated cases, the relevance of a
//! disagreement with the model and the rule that makes a case non-trivial.

use crate::engine::*;
use crate::gen::{self, Profile, W};
use crate::model;
use crate::ops::*;
use crate::runner::*;
use crate::sim;
use std::path::PathBuf;

pub const ASSUMPTIONS: &[&str] = &[
    "the reference model (harness/src/model.rs) states the intended behaviour",
    "in-process runs use tokio's paused clock; task interleavings are those of a single threaded runtime",
    "cases whose expected result depends on the order of simultaneous events are discarded (inconclusive)",
];

/// Property of the command an answer belongs to.
fn cmd_property(cmd: &str) -> &'static [&'static str] {
    match cmd {
        "init" | "deinit" | "start" | "stop" | "state" | "count" => &["C03"],
        "setapp" => &["C07", "C03"],
        "getapp" => &["C07"],
        "info" => &["C08"],
        "setcfg" => &["C08"],
        "getcfg" => &["C08", "C04"],
        "multicast" => &["C09"],
        "rcount" => &["C11"],
        "reset" => &["C05"],
        "data" => &["C13"],
        "malformed" | "unknown" | "prereset" | "extra" => &["C02"],
        _ => &[],
    }
}

/// Does the disagreement show that the property is broken?
pub fn relevant(id: &str, m: &Mismatch) -> bool {
    use Cat::*;
    if m.cat == LoopDead {
        return true;
    }
    if m.large && id == "C14" {
        return true;
    }
    if m.foreign && id == "C06" && !matches!(m.cat, InfoContent | Data) {
        return true;
    }
    if id == "C09" && m.cat == RspContent && m.cmd == "getapp" && m.updates > 0 {
        return true;
    }
    if id == "C10" && matches!(m.cat, DeviceNtf) && matches!(m.cmd, "inband" | "multicast") {
        return true;
    }
    // a session emptied by a list update can be started again
    if id == "C10" && m.cat == RspContent && m.updates > 0 && matches!(m.cmd, "start" | "state") {
        return true;
    }
    let own = cmd_property(m.cmd).contains(&id);
    match m.cat {
        LoopDead => true,
        Framing => id == "C14",
        RspShape => own || id == "C02" || id == "C01",
        RspContent => own,
        SessionNtf => {
            id == "C03"
                || (id == "C10" && matches!(m.cmd, "inband" | "multicast"))
                || (id == "C05" && m.cmd == "reset")
                || (id == "C07" && m.cmd == "setapp")
        }
        DeviceNtf => id == "C04" || (id == "C05" && m.cmd == "reset"),
        MulticastNtf => matches!(id, "C09" | "C10"),
        InfoCount => id == "C11" || (id == "C10" && m.cmd != "") || id == "C05",
        InfoTime | InfoSeq => id == "C11",
        InfoContent => id == "C12",
        Data => id == "C13",
        Event => id == "C17",
        Anchor => id == "C16",
        Dropped => matches!(id, "C17" | "C01"),
        Order => id == "C05",
        Pcap => id == "C18",
        Unexpected => matches!(id, "C02" | "C01"),
    }
}

fn base_weights() -> W {
    W {
        lifecycle: 6,
        setup: 3,
        rounds: 1,
        probe: 1,
        ..W::default()
    }
}

/// The profile(s) of generated cases of a property.
fn profile(id: &str) -> Profile {
    let mut p = Profile {
        clients: (1, 3),
        n_sids: (1, 4),
        all_reset: true,
        len: (1, 16),
        pcap: false,
        w: base_weights(),
    };
    let w = &mut p.w;
    match id {
        "C01" => {
            p.clients = (1, 4);
            p.all_reset = false;
            p.len = (1, 22);
            *w = W {
                many_active: 1,
                connect: 1,
                disconnect: 2,
                reset: 1,
                lifecycle: 5,
                setapp: 2,
                setapp_wild: 3,
                getapp: 2,
                core: 2,
                multi: 3,
                data: 3,
                raw: 5,
                mutated: 6,
                burst: 2,
                setup: 3,
                pair: 3,
                fleet: 1,
                wait: 1,
                rounds: 2,
                anchor: 1,
                epoch: 1,
                gated: 3,
                stall: 1,
                probe: 1,
                many: 1,
                data_fleet: 1, remove_fleet: 1, exact: 1, crowd: 1, segmented: 1, repeated: 1,
                restart: 1,
            };
        }
        "C02" => {
            p.clients = (1, 2);
            p.all_reset = false;
            p.len = (2, 24);
            *w = W {
                lifecycle: 4,
                setapp: 1,
                setapp_wild: 2,
                getapp: 2,
                core: 4,
                multi: 2,
                data: 1,
                raw: 8,
                mutated: 8,
                burst: 4,
                setup: 2,
                reset: 1,
                many: 1,
                ..W::default()
            };
        }
        "C03" => {
            p.clients = (1, 3);
            p.n_sids = (1, 5);
            p.len = (3, 26);
            *w = W {
                many_active: 1,
                lifecycle: 14,
                setapp: 3,
                setapp_wild: 1,
                multi: 2,
                setup: 5,
                pair: 2,
                restart: 2,
                rounds: 2,
                reset: 1,
                many: 1,
                burst: 2,
                gated: 1,
                disconnect: 1,
                connect: 1,
                probe: 2,
                ..W::default()
            };
        }
        "C04" => {
            p.clients = (1, 3);
            p.n_sids = (1, 4);
            p.len = (3, 22);
            *w = W {
                many_active: 1,
                lifecycle: 10,
                setup: 8,
                pair: 3,
                fleet: 1,
                multi: 5,
                restart: 2,
                rounds: 1,
                reset: 1,
                core: 3,
                burst: 2,
                gated: 1,
                setapp: 1,
                probe: 2,
                disconnect: 1,
                connect: 1,
                remove_fleet: 4,
                ..W::default()
            };
        }
        "C05" => {
            p.clients = (1, 3);
            p.len = (4, 22);
            *w = W {
                many_active: 1,
                reset: 6,
                lifecycle: 6,
                setup: 6,
                pair: 3,
                setapp: 3,
                core: 3,
                data: 3,
                rounds: 3,
                multi: 2,
                getapp: 1,
                gated: 3,
                many: 1,
                probe: 3,
                burst: 1,
                data_fleet: 2,
                ..W::default()
            };
        }
        "C06" => {
            p.clients = (2, 4);
            p.n_sids = (2, 6);
            p.len = (3, 14);
            *w = W {
                many_active: 1,
                lifecycle: 6,
                setapp: 3,
                setapp_wild: 1,
                core: 3,
                setup: 6,
                pair: 4,
                fleet: 1,
                multi: 3,
                data: 2,
                reset: 2,
                raw: 2,
                mutated: 1,
                rounds: 2,
                connect: 1,
                disconnect: 1,
                anchor: 1,
                data_fleet: 2, remove_fleet: 2,
                ..W::default()
            };
        }
        "C07" => {
            p.clients = (1, 2);
            p.n_sids = (1, 3);
            p.len = (3, 22);
            *w = W {
                setapp: 9,
                setapp_wild: 9,
                getapp: 5,
                lifecycle: 5,
                setup: 4,
                multi: 2,
                rounds: 1,
                reset: 1,
                mutated: 1,
                burst: 1,
                probe: 4,
                repeated: 1,
                ..W::default()
            };
        }
        "C08" => {
            p.clients = (1, 2);
            p.len = (3, 22);
            *w = W {
                core: 14,
                lifecycle: 4,
                setup: 4,
                reset: 2,
                burst: 2,
                multi: 1,
                pair: 1,
                probe: 2,
                ..W::default()
            };
        }
        "C09" => {
            p.clients = (1, 2);
            p.n_sids = (1, 2);
            p.len = (3, 22);
            *w = W {
                multi: 16,
                setup: 6,
                lifecycle: 4,
                setapp: 3,
                setapp_wild: 1,
                mutated: 2,
                getapp: 1,
                rounds: 1,
                probe: 4,
                remove_fleet: 3,
                repeated: 4,
                ..W::default()
            };
        }
        "C10" => {
            p.clients = (2, 4);
            p.n_sids = (1, 3);
            p.len = (2, 16);
            *w = W {
                multi: 12,
                pair: 8,
                fleet: 4,
                setup: 3,
                lifecycle: 4,
                setapp: 1,
                rounds: 3,
                connect: 1,
                disconnect: 1,
                probe: 2,
                remove_fleet: 14,
                ..W::default()
            };
        }
        "C11" => {
            p.clients = (1, 3);
            p.n_sids = (1, 3);
            p.len = (2, 18);
            *w = W {
                many_active: 1,
                setup: 8,
                lifecycle: 7,
                setapp: 3,
                restart: 5,
                rounds: 8,
                wait: 3,
                multi: 2,
                pair: 3,
                reset: 1,
                gated: 4,
                stall: 2,
                connect: 1,
                disconnect: 1,
                probe: 2,
                remove_fleet: 2,
                ..W::default()
            };
        }
        "C12" => {
            p.clients = (2, 5);
            p.n_sids = (1, 3);
            p.len = (2, 16);
            *w = W {
                pair: 8,
                fleet: 8,
                setup: 3,
                setapp: 2,
                anchor: 8,
                epoch: 4,
                rounds: 8,
                multi: 3,
                lifecycle: 3,
                connect: 1,
                disconnect: 2,
                reset: 1,
                stall: 1,
                crowd: 4,
                ..W::default()
            };
        }
        "C13" => {
            p.clients = (2, 4);
            p.n_sids = (1, 2);
            p.len = (3, 20);
            *w = W {
                pair: 8,
                fleet: 3,
                data: 14,
                rounds: 7,
                lifecycle: 3,
                setup: 2,
                raw: 2,
                mutated: 1,
                setapp: 1,
                restart: 2,
                multi: 1,
                reset: 1,
                disconnect: 1,
                gated: 1,
                data_fleet: 16,
                ..W::default()
            };
        }
        "C14" => {
            p.clients = (1, 4);
            p.n_sids = (1, 2);
            p.len = (3, 18);
            *w = W {
                getapp: 6,
                setapp: 5,
                core: 6,
                setup: 4,
                pair: 4,
                fleet: 4,
                data: 8,
                anchor: 8,
                rounds: 6,
                multi: 3,
                lifecycle: 2,
                stall: 2,
                burst: 1,
                exact: 6, crowd: 5, data_fleet: 6,
                ..W::default()
            };
        }
        "C15" => {
            p.clients = (1, 3);
            p.len = (2, 20);
            *w = W {
                segmented: 14,
                disconnect: 2,
                connect: 1,
                getapp: 1,
                setup: 3,
                data: 2,
                rounds: 1,
                lifecycle: 1,
                raw: 1,
                mutated: 2,
                burst: 2,
                reset: 1,
                ..W::default()
            };
        }
        "C16" => {
            p.clients = (0, 3);
            p.len = (2, 40);
            *w = W {
                anchor: 20,
                connect: 4,
                disconnect: 4,
                reset: 1,
                pair: 1,
                rounds: 1,
                gated: 2,
                ..W::default()
            };
        }
        "C17" => {
            p.clients = (0, 4);
            p.all_reset = false;
            p.len = (2, 22);
            *w = W {
                connect: 6,
                disconnect: 8,
                pair: 6,
                fleet: 2,
                rounds: 4,
                setup: 2,
                lifecycle: 2,
                reset: 1,
                anchor: 2,
                gated: 3,
                stall: 1,
                raw: 2,
                multi: 1,
                data: 1,
                ..W::default()
            };
        }
        "C18" => {
            p.clients = (1, 4);
            p.all_reset = false;
            p.pcap = true;
            p.len = (2, 16);
            *w = W {
                connect: 2,
                disconnect: 2,
                lifecycle: 4,
                setapp: 2,
                getapp: 3,
                core: 3,
                raw: 3,
                mutated: 2,
                burst: 2,
                data: 4,
                pair: 4,
                rounds: 4,
                setup: 2,
                anchor: 2,
                gated: 1,
                reset: 1,
                many: 1,
                exact: 2, data_fleet: 2,
                ..W::default()
            };
        }
        _ => unreachable!(),
    }
    p
}

fn nontrivial(id: &str, s: &Stats) -> bool {
    let g = |k: &str| s.get(k);
    match id {
        "C01" => g("mutated") + g("malformed") + g("disconnects") + g("gated_ticks") + g("stalls") > 0 && g("responses") > 0,
        "C02" => g("malformed") + g("unknown") + g("prereset") > 0 && g("responses") >= 4,
        "C03" => g("session_ntf") >= 3 && g("init") + g("start") + g("stop") + g("deinit") >= 4,
        "C04" => g("device_ntf") >= 3 + g("connects"),
        "C05" => g("reset") >= 2 && g("session_ntf") >= 2,
        "C06" => g("session_ntf") >= 2 && g("probes") >= 4,
        "C07" => g("setapp") >= 2 && g("getapp") >= 1,
        "C08" => g("setcfg") + g("getcfg") + g("info") >= 3,
        "C09" => g("multicast") >= 2,
        "C10" => g("multicast") >= 1 && g("inband_stops") + g("multicast_ntf") > 0,
        "C11" => g("info_ntf") >= 3,
        "C12" => g("measurements") >= 1,
        "C13" => g("data_deliveries") >= 1,
        "C14" => g("segments") >= 1,
        "C15" => g("fragmented") >= 2 && g("responses") >= 4,
        "C16" => g("anchor_ok") >= 1 && g("anchor_refused") >= 1 && g("events") >= 1,
        "C17" => g("disconnects") >= 1,
        "C18" => g("pcap_packets") >= 10,
        _ => true,
    }
}

pub fn rule(id: &str) -> &'static str {
    match id {
        "C01" => "random operation histories with malformed input, disconnections, stalls and stale events; non-trivial: some such input and some answered command",
        "C02" => "random histories of valid, mutated and raw commands; non-trivial: an unknown, malformed or pre-reset command and at least 4 answers",
        "C03" => "random histories; non-trivial: at least 3 session transitions and 4 lifecycle commands",
        "C04" => "random histories; non-trivial: at least 3 device state announcements besides those of connections",
        "C05" => "random histories with resets; non-trivial: a reset after the initial one and 2 session transitions",
        "C06" => "random histories over several devices and sessions with a full read back after every operation; non-trivial: 2 session transitions and 4 read backs",
        "C07" => "random histories of configuration commands; non-trivial: 2 SET and a GET app config",
        "C08" => "random histories of core commands; non-trivial: at least 3 of them",
        "C09" => "random histories of multicast updates; non-trivial: at least 2",
        "C10" => "random histories with ranging peers and controlee removal; non-trivial: an in-band stop or a removal in ACTIVE state",
        "C11" => "random histories with virtual time; non-trivial: at least 3 ranging notifications",
        "C12" => "random histories with peers, anchors and estimator changes; non-trivial: at least one measurement reported",
        "C13" => "random histories with in-band data; non-trivial: at least one delivery",
        "C14" => "random histories with long messages; non-trivial: at least one segmented message",
        "C15" => "random histories of commands in several segments; non-trivial: at least 2 segmented commands and 4 answers",
        "C16" => "random histories of anchor requests and connections; non-trivial: an accepted and a refused request and a connection",
        "C17" => "random histories of connections and disconnections; non-trivial: at least one disconnection",
        "C18" => "random histories with a trace directory; non-trivial: at least 10 packets traced",
        _ => "",
    }
}

fn case_dir() -> PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let d = std::env::temp_dir().join(format!(
        "pica-verif-{}-{}",
        std::process::id(),
        N.fetch_add(1, Ordering::Relaxed)
    ));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub fn judge(id: &str, mismatches: &[Mismatch], inconclusive: bool) -> Verdict {
    if let Some(m) = mismatches.iter().find(|m| relevant(id, m)) {
        return Verdict::Violation(format!("{:?}: {}", m.cat, m.detail));
    }
    if let Some(m) = mismatches.first() {
        // to test the checks themselves: nothing may disagree
        if std::env::var_os("VERIF_STRICT").is_some() {
            return Verdict::Violation(format!("{:?}/{}: {}", m.cat, m.cmd, m.detail));
        }
        return Verdict::Irrelevant(format!("{:?}/{}: {}", m.cat, m.cmd, m.detail));
    }
    if inconclusive {
        return Verdict::Inconclusive;
    }
    Verdict::Ok
}

/// Does the case fail in the same way without some of its messages?
fn fails_without(case: &Case, omit: Omit, cat: Cat) -> bool {
    sim::block_on(async move {
        let mut e = Engine::new(case.n_sids, None, case.shared);
        e.omit = omit;
        e.run(case, false).await;
        e.mismatches.iter().any(|m| m.cat == cat)
    })
}

/// A disagreement that only shows when other sessions or devices are used
/// (C06), or because of what happened before the last reset (C05).
fn caused_by_others(id: &str, case: &Case, m: &Mismatch) -> bool {
    use Cat::*;
    // after its loss a device takes part in nothing
    if id == "C17" {
        return m.after_loss
            && matches!(m.cat, InfoContent | Data | Anchor | SessionNtf | DeviceNtf)
            && !fails_without(case, Omit::Losses, m.cat);
    }
    let (Some(slot), true) = (
        m.slot,
        matches!(
            m.cat,
            RspShape | RspContent | SessionNtf | DeviceNtf | InfoCount | InfoTime | InfoSeq | Data
        ),
    ) else {
        return false;
    };
    match id {
        "C15" => !fails_without(case, Omit::Segmentation, m.cat),
        "C05" if m.resets >= 2 => !fails_without(case, Omit::Before(slot, m.resets), m.cat),
        "C06" if !matches!(m.cmd, "inband" | "multicast" | "data") && m.cat != Data => {
            let sid = m.sid.filter(|_| m.cat != DeviceNtf);
            !fails_without(case, Omit::Others(slot, sid), m.cat)
        }
        _ => false,
    }
}

pub fn run_case(id: &str, case: &Case) -> Outcome {
    let dir = case.pcap.then(case_dir);
    let settle = id == "C06";
    let d2 = dir.clone();
    let (mut mismatches, stats, inconclusive) = sim::block_on(async move {
        let mut e = Engine::new(case.n_sids, d2, case.shared);
        e.run(case, settle).await;
        let mut stats = e.stats.clone();
        let mut mm = std::mem::take(&mut e.mismatches);
        if mm.is_empty() && !e.inconclusive {
            if let Some(dir) = &e.pcap_dir {
                match crate::pcap::check_dir(dir, &e).await {
                    Ok(n) => stats.add("pcap_packets", n),
                    Err(detail) => mm.push(Mismatch {
                        cat: Cat::Pcap,
                        cmd: "",
                        slot: None,
                        sid: None,
                        foreign: false,
                        after_loss: false,
                        large: false,
                        resets: 0,
                        updates: 0,
                        detail,
                    }),
                }
            }
        }
        (mm, stats, e.inconclusive)
    });
    if let Some(d) = dir {
        let _ = std::fs::remove_dir_all(d);
    }
    // a device or session dies with its event loop: report that first
    mismatches.sort_by_key(|m| m.cat != Cat::LoopDead);
    let mut verdict = judge(id, &mismatches, inconclusive);
    if let (Verdict::Irrelevant(_), Some(m)) = (&verdict, mismatches.first()) {
        if caused_by_others(id, case, m) {
            verdict = Verdict::Violation(format!("{:?}: {}", m.cat, m.detail));
        }
    }
    Outcome {
        verdict,
        nontrivial: nontrivial(id, &stats),
        stats,
    }
}

/// What CORE_GET_DEVICE_INFO (UCI 2.0, MAC and PHY 1.3.0, test 1.1),
/// CORE_GET_CAPS_INFO and ANDROID_GET_POWER_STATS answer.
#[rustfmt::skip]
const WANTED: &[u8] = &[
    0x00, 0x02, 0x00, 0x01, 0x30, 0x01, 0x30, 0x01, 0x10, 0x00,
    0x00, 0x1b,
    0x00, 0x04, 0x01, 0x01, 0x01, 0x03,
    0x01, 0x04, 0x01, 0x01, 0x01, 0x03,
    0x02, 0x01, 0x03,
    0x03, 0x01, 0x1f,
    0x04, 0x01, 0x1f,
    0x05, 0x01, 0xff,
    0x06, 0x01, 0x01,
    0x07, 0x01, 0x01,
    0x08, 0x01, 0x00,
    0x09, 0x01, 0x01,
    0x0a, 0x01, 0x01,
    0x0b, 0x01, 0xff,
    0x0c, 0x01, 0xff,
    0x0d, 0x01, 0xff,
    0x0e, 0x01, 0xff,
    0x0f, 0x01, 0xff,
    0x10, 0x01, 0xff,
    0xe3, 0x01, 0x01,
    0x11, 0x01, 0x01,
    0xa4, 0x02, 0x01, 0x00,
    0xa5, 0x01, 0x00,
    0xa6, 0x01, 0x00,
    0xa7, 0x04, 0x00, 0x00, 0x00, 0x00,
    0xa0, 0x01, 0xff,
    0xa1, 0x04, 0xff, 0xff, 0xff, 0xff,
    0xa3, 0x01, 0xff,
    0xa2, 0x01, 0xff,
    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
];
static CONTENTS: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();

/// Learn the constant contents of the information commands.
pub fn calibrate() -> Result<(), String> {
    use crate::model::*;
    let q: [(&[u8], &'static str); 4] = [
        (&[0x20, 0, 0, 1, 0], "reset"),
        (&[0x20, 2, 0, 0], "CORE_GET_DEVICE_INFO"),
        (&[0x20, 3, 0, 0], "CORE_GET_CAPS_INFO"),
        (&[0x2c, 0, 0, 0], "ANDROID_GET_POWER_STATS"),
    ];
    let mut got: Vec<Vec<u8>> = vec![];
    sim::block_on(async {
        let s = sim::Sim::new(None);
        let c = s.connect();
        s.sleep_until(5).await;
        c.take();
        for (i, (m, _)) in q.iter().enumerate() {
            c.send(m.to_vec());
            s.sleep_until(10 + 10 * i as u64).await;
            let mut full: Vec<u8> = vec![];
            for (_, p) in c.take() {
                if p.len() >= 4 && p[0] & 0xef == 0x40 | (m[0] & 0xf) && p[1] == m[1] {
                    if full.is_empty() {
                        full = p
                    } else {
                        full.extend_from_slice(&p[4..])
                    }
                }
            }
            got.push(full);
        }
    });
    for (i, (_, name)) in q.iter().enumerate() {
        if got[i].len() < 5 || got[i][4] != OK {
            return Err(format!(
                "{} on a fresh device is answered {:x?}",
                name, got[i]
            ));
        }
    }
    let info = &got[1][4..];
    if info.len() < 10 || info.len() != 10 + info[9] as usize {
        return Err(format!("malformed CORE_GET_DEVICE_INFO response {:x?}", info));
    }
    let caps = &got[2][4..];
    let mut i = 2;
    for _ in 0..caps[1] {
        i += match caps.get(i + 1) {
            Some(n) => 2 + *n as usize,
            None => usize::MAX / 2,
        };
        if i > caps.len() {
            break;
        }
    }
    if i != caps.len() {
        return Err(format!("malformed CORE_GET_CAPS_INFO response {:x?}", caps));
    }
    if got[3].len() != 4 + 17 {
        return Err(format!(
            "malformed ANDROID_GET_POWER_STATS response {:x?}",
            got[3]
        ));
    }
    let _ = INFO_RSP.set(info.to_vec());
    let _ = CONTENTS.set([info, caps, &got[3][4..]].concat());
    let _ = CAPS_RSP.set(caps.to_vec());
    let _ = POWER_RSP.set(got[3][4..].to_vec());
    Ok(())
}

/// Quick and thorough numbers of cases.
fn amount(id: &str) -> (u64, u64) {
    match id {
        "C06" => (30_000, 500_000),
        "C18" => (20_000, 300_000),
        "C13" => (36_000, 1_000_000),
        _ => (48_000, 1_000_000),
    }
}

pub fn run(opts: &Opts, report: &mut Report) -> bool {
    let id: &'static str = Box::leak(opts.id.clone().into_boxed_str());
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11"
        | "C12" | "C13" | "C14" | "C16" | "C17" | "C18" => {
            if let Err(d) = calibrate() {
                let path = opts.build.join("replay");
                let _ = std::fs::create_dir_all(&path);
                let path = path.join(format!("{}-calibration.txt", id));
                let _ = std::fs::write(&path, &d);
                report.violation = matches!(id, "C01" | "C02" | "C08").then_some((d.clone(), path));
                report.first_irrelevant = Some(d);
                return true;
            }
            let contents = CONTENTS.get().unwrap();
            if id == "C08" && contents != WANTED {
                let path = opts.build.join("replay");
                let _ = std::fs::create_dir_all(&path);
                let path = path.join("C08-information.txt");
                let d = format!(
                    "CORE_GET_DEVICE_INFO, CORE_GET_CAPS_INFO and ANDROID_GET_POWER_STATS answer {contents:02x?} instead of {WANTED:02x?}"
                );
                let _ = std::fs::write(&path, &d);
                report.violation = Some((d, path));
            }
            let p = profile(id);
            Part {
                name: "history",
                rule: rule(id),
                cases: amount(id),
                limit: (100, 1500),
                strategy: Box::new(move || gen::case(&p)),
                run: Box::new(move |c: &Case| run_case(id, c)),
            }
            .execute(opts, report);
            if id == "C18" {
                let p = profile(id);
                Part {
                    name: "paused",
                    rule: "the same with two to four pauses of 0.2 to 1.5 s of real time; non-trivial: the same",
                    cases: (32, 800),
                    limit: (60, 600),
                    strategy: Box::new(move || gen::paused(gen::case(&p))),
                    run: Box::new(move |c: &Case| run_case(id, c)),
                }
                .execute(opts, report);
            }
            crate::extra::run(id, opts, report);
        }
        "C15" => {
            let p = profile(id);
            if calibrate().is_ok() {
                Part {
                    name: "segments",
                    rule: rule(id),
                    cases: amount(id),
                    limit: (100, 1500),
                    strategy: Box::new(move || gen::case(&p)),
                    run: Box::new(move |c: &Case| run_case(id, c)),
                }
                .execute(opts, report);
            }
            crate::extra::run(id, opts, report);
        }
        "C19" => crate::extra::run(id, opts, report),
        "C29" => crate::binary::run(opts, report),
        _ => return false,
    }
    true
}

#[allow(dead_code)]
fn unused() {
    let _ = model::OK;
}
