//! Gives access to the Rust packet codec: one request per line on the standard
//! input, one answer per line.
//!   d NAME HEX   decode as NAME, encode again
//!   s ROOT HEX   decode as ROOT and find the most specific packet
//!   e            the values of all the enumerations
use pdl_runtime::Packet;
use pica::packets::uci;
use std::fmt::{Debug, Write as _};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod table;

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        write!(s, "{x:02x}").unwrap();
    }
    s
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Decode, encode, and the conversions to and from the parents.
fn one<T: Packet + Debug + PartialEq + Clone>(data: &[u8], more: impl Fn(&T, &mut String)) -> String {
    let p = match T::decode_full(data) {
        Ok(p) => p,
        Err(_) => return "reject".into(),
    };
    let mut notes = String::new();
    let e = match p.encode_to_vec() {
        Ok(e) => e,
        Err(_) => return format!("accept - 0 encode-error; {p:?}"),
    };
    match T::decode_full(&e) {
        Ok(q) if q == p => (),
        Ok(_) => notes.push_str("again-differs,"),
        Err(_) => notes.push_str("again-rejected,"),
    }
    match p.encode_to_bytes() {
        Ok(b) if b[..] == e[..] => (),
        _ => notes.push_str("encode-to-bytes,"),
    }
    // decoding leaves what follows
    let mut m = data;
    match T::decode_mut(&mut m) {
        Ok(q) if q == p && m.is_empty() => (),
        _ => notes.push_str("decode-mut,"),
    }
    more(&p, &mut notes);
    format!("accept {}. {} {}; {:?}", hex(&e), p.encoded_len(), notes, p)
}

fn up<'a, T, A>(p: &'a T, name: &str, notes: &mut String)
where
    T: Packet,
    A: Packet + TryFrom<&'a T>,
{
    match A::try_from(p).ok().and_then(|a| a.encode_to_vec().ok()) {
        Some(b) if Some(&b) == p.encode_to_vec().ok().as_ref() => (),
        _ => write!(notes, "as-{name},").unwrap(),
    }
}

fn back<'a, T, A>(p: &'a T, name: &str, notes: &mut String)
where
    T: Packet + PartialEq + TryFrom<A>,
    A: Packet + TryFrom<&'a T>,
{
    match A::try_from(p).ok().and_then(|a| T::try_from(a).ok()) {
        Some(q) if q == *p => (),
        _ => write!(notes, "from-{name},").unwrap(),
    }
}

fn root<T: Packet>(data: &[u8], f: impl Fn(&T) -> String) -> String {
    match T::decode_full(data) {
        Ok(p) => f(&p),
        Err(_) => "reject".into(),
    }
}

fn answer(line: &str) -> String {
    let w: Vec<&str> = line.split(' ').collect();
    match w[0] {
        "d" => table::decode(w[1], &unhex(w[2])).unwrap_or("unknown".into()),
        "s" => table::specialize(w[1], &unhex(w[2])).unwrap_or("unknown".into()),
        "e" => {
            let mut s = String::new();
            table::enums(&mut |e, v, r| match r {
                Some((d, n)) => write!(s, "{e}\t{v}\t{n}\t{d}|").unwrap(),
                None => (),
            });
            for b in 0..=255u8 {
                write!(s, "message_type\t{b}\t{}\t-|", u8::from(uci::parse_message_type(b))).unwrap()
            }
            s
        }
        _ => "unknown".into(),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| answer(&line))).unwrap_or("panic".into());
        let mut o = out.lock();
        writeln!(o, "{}", r.replace('\n', " ")).unwrap();
        o.flush().unwrap();
    }
}
