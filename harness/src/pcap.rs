//! Independent reader of the pcapng traces.
use crate::engine::Engine;
use std::path::Path;

pub struct Trace {
    /// timestamp, direction when recorded (true: received from the client), bytes
    pub packets: Vec<(u64, Option<bool>, Vec<u8>)>,
}

fn u32at(b: &[u8], i: usize) -> Result<u32, String> {
    b.get(i..i + 4)
        .map(|x| u32::from_le_bytes(x.try_into().unwrap()))
        .ok_or_else(|| format!("truncated at {}", i))
}

fn options(b: &[u8]) -> Result<Vec<(u16, Vec<u8>)>, String> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if i + 4 > b.len() {
            return Err("truncated option".into());
        }
        let code = u16::from_le_bytes([b[i], b[i + 1]]);
        let len = u16::from_le_bytes([b[i + 2], b[i + 3]]) as usize;
        i += 4;
        if code == 0 {
            if len != 0 || i != b.len() {
                return Err("bytes after the end of options".into());
            }
            return Ok(v);
        }
        let data = b.get(i..i + len).ok_or("truncated option value")?.to_vec();
        i += (len + 3) / 4 * 4;
        if i > b.len() {
            return Err("truncated option padding".into());
        }
        v.push((code, data));
    }
    Ok(v)
}

pub fn parse(b: &[u8]) -> Result<Trace, String> {
    let mut t = Trace { packets: vec![] };
    let mut i = 0;
    let mut n = 0;
    let mut interfaces = 0;
    while i < b.len() {
        let typ = u32at(b, i)?;
        let len = u32at(b, i + 4)? as usize;
        if len < 12 || len % 4 != 0 || i + len > b.len() {
            return Err(format!("block {} type {:x}: bad length {}", n, typ, len));
        }
        if u32at(b, i + len - 4)? as usize != len {
            return Err(format!("block {}: trailing length differs", n));
        }
        let body = &b[i + 8..i + len - 4];
        match typ {
            0x0A0D0D0A => {
                if n != 0 {
                    return Err("second section header".into());
                }
                if u32at(body, 0)? != 0x1A2B3C4D {
                    return Err("bad byte order magic".into());
                }
                if body.len() < 16 || body[4..8] != [1, 0, 0, 0] {
                    return Err("bad pcapng version".into());
                }
                let section = u64::from_le_bytes(body[8..16].try_into().unwrap());
                if section != u64::MAX && section != (b.len() - i - len) as u64 {
                    return Err(format!("section length {section:x}"));
                }
                options(&body[16..])?;
            }
            1 => {
                if n != 1 {
                    return Err("interface block not second".into());
                }
                interfaces += 1;
                if body.len() < 8 || body[0..2] != 293u16.to_le_bytes() {
                    return Err(format!("bad link type {:?}", &body[..2.min(body.len())]));
                }
                if body[2..4] != [0, 0] {
                    return Err("the reserved bytes of the interface block are not 0".into());
                }
                let snap = u32at(body, 4)?;
                if snap != 0 && snap < 1028 {
                    return Err(format!("snap length {} below the packet size", snap));
                }
                options(&body[8..])?;
            }
            6 => {
                if interfaces != 1 {
                    return Err("packet before the interface".into());
                }
                if u32at(body, 0)? != 0 {
                    return Err("packet of an unknown interface".into());
                }
                let ts = (u32at(body, 4)? as u64) << 32 | u32at(body, 8)? as u64;
                let cap = u32at(body, 12)? as usize;
                let orig = u32at(body, 16)? as usize;
                if cap != orig {
                    return Err("captured length differs from the packet length".into());
                }
                let data = body.get(20..20 + cap).ok_or("truncated packet data")?;
                let end = 20 + (cap + 3) / 4 * 4;
                let opts = options(body.get(end..).ok_or("truncated packet padding")?)?;
                let dir = match opts.iter().find(|o| o.0 == 2) {
                    None => None,
                    Some((_, f)) if f.len() == 4 && (f[0] & 3 == 1 || f[0] & 3 == 2) => {
                        Some(f[0] & 3 == 1)
                    }
                    Some((_, f)) => return Err(format!("bad packet flags {:?}", f)),
                };
                t.packets.push((ts, dir, data.to_vec()));
            }
            _ => return Err(format!("unknown block type {:x}", typ)),
        }
        i += len;
        n += 1;
    }
    if n < 2 {
        return Err("no section header or interface block".into());
    }
    Ok(t)
}

pub async fn check_dir(dir: &Path, e: &Engine) -> Result<u64, String> {
    // writes go through tokio::fs (blocking pool): wait in real time
    let mut last = Err("no trace".to_string());
    for _ in 0..10 {
        e.sim.drain().await;
        last = check_once(dir, e);
        if last.is_ok() {
            return last;
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    last
}

fn check_once(dir: &Path, e: &Engine) -> Result<u64, String> {
    let mut count = 0;
    let mut names = vec![];
    for (slot, handle) in &e.model.slots {
        let name = format!("device-{}.pcapng", handle);
        let path = dir.join(&name);
        let b = std::fs::read(&path).map_err(|x| format!("{}: {}", name, x))?;
        let t = parse(&b).map_err(|x| format!("{}: {}", name, x))?;
        names.push(name.clone());
        let s = &e.slots[*slot];
        if t.packets.windows(2).any(|w| w[1].0 < w[0].0) {
            return Err(format!("{}: timestamps decrease", name));
        }
        count += t.packets.len() as u64;
        // in microseconds since the connection
        let us = e.sim.born.elapsed().as_micros() as u64;
        if let (Some(a), Some(b)) = (t.packets.first(), t.packets.last()) {
            if b.0 - a.0 > us {
                return Err(format!(
                    "{}: {} us between packets exchanged within {} us",
                    name,
                    b.0 - a.0,
                    us
                ));
            }
        }
        if s.alive && !s.deaf {
            for (_, n, ms) in e.pauses.iter().filter(|p| p.0 == *slot) {
                if *n == 0 || *n >= t.packets.len() {
                    continue;
                }
                let (a, b) = (t.packets[n - 1].0, t.packets[*n].0);
                if b - a < ms * 1000 {
                    return Err(format!(
                        "{}: {} us between packets exchanged {} ms apart",
                        name,
                        b - a,
                        ms
                    ));
                }
            }
        }
        if s.alive && !s.deaf {
            merge(&t, &s.sent, &s.received).map_err(|x| format!("{}: {}", name, x))?;
        } else {
            // what was exchanged around the disconnection may be missing
            let mut i = 0;
            for p in &t.packets {
                if s.received.get(i) == Some(&p.2) {
                    i += 1;
                } else if !s.sent.contains(&p.2) && p.2.first().map_or(true, |b| b >> 5 == 1) {
                    return Err(format!("{}: traced packet {:x?} never sent", name, p.2));
                }
            }
            if i != s.received.len() {
                return Err(format!(
                    "{}: packet {} written to the client is not traced: {:x?}",
                    name, i, s.received[i]
                ));
            }
        }
    }
    for f in std::fs::read_dir(dir).map_err(|x| x.to_string())? {
        let n = f.map_err(|x| x.to_string())?.file_name();
        let n = n.to_string_lossy().to_string();
        if !names.contains(&n) {
            return Err(format!("unexpected trace file {}", n));
        }
    }
    Ok(count)
}

/// Is the trace an interleaving of the packets of both directions?
fn merge(t: &Trace, sent: &[Vec<u8>], received: &[Vec<u8>]) -> Result<(), String> {
    // reachable numbers of packets taken from `sent`
    let mut reach = std::collections::BTreeSet::from([0usize]);
    for (k, (_, dir, p)) in t.packets.iter().enumerate() {
        let mut next = std::collections::BTreeSet::new();
        for i in &reach {
            if *dir != Some(false) && sent.get(*i) == Some(p) {
                next.insert(i + 1);
            }
            if *dir != Some(true) && received.get(k - i) == Some(p) {
                next.insert(*i);
            }
        }
        if next.is_empty() {
            return Err(format!(
                "packet {} of the trace {:x?} is not the next packet sent or received by the client",
                k, p
            ));
        }
        reach = next;
    }
    if t.packets.len() != sent.len() + received.len() || !reach.contains(&sent.len()) {
        return Err(format!(
            "{} packets traced, {} sent and {} received by the client",
            t.packets.len(),
            sent.len(),
            received.len()
        ));
    }
    Ok(())
}
