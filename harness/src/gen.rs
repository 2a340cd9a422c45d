//! proptest strategies for operations. Profiles weight the operation classes.

use crate::model::{Kind, PARAMS};
use crate::ops::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::Union;

#[derive(Clone, Debug)]
pub struct Profile {
    pub clients: (u8, u8),
    pub n_sids: (u8, u8),
    pub all_reset: bool,
    pub len: (usize, usize),
    pub pcap: bool,
    pub w: W,
}

/// Weights of the operation classes.
#[derive(Clone, Debug, Default)]
pub struct W {
    pub connect: u32,
    pub disconnect: u32,
    pub reset: u32,
    pub lifecycle: u32,
    pub setapp: u32,
    pub setapp_wild: u32,
    pub getapp: u32,
    pub core: u32,
    pub multi: u32,
    pub data: u32,
    pub raw: u32,
    pub mutated: u32,
    pub burst: u32,
    pub setup: u32,
    pub pair: u32,
    pub fleet: u32,
    pub wait: u32,
    pub rounds: u32,
    pub anchor: u32,
    pub epoch: u32,
    pub gated: u32,
    pub stall: u32,
    pub probe: u32,
    pub many: u32,
    pub many_active: u32,
    pub restart: u32,
    pub data_fleet: u32,
    pub remove_fleet: u32,
    pub exact: u32,
    pub crowd: u32,
    pub segmented: u32,
    pub repeated: u32,
}

pub fn sid() -> BoxedStrategy<u8> {
    (0u8..8).boxed()
}

pub fn duration() -> BoxedStrategy<u32> {
    prop_oneof![
        8 => prop::sample::select(vec![10u32, 20, 30, 40, 50, 100]),
        3 => 8u32..400,
        2 => prop::sample::select(vec![200u32, 255, 256, 257, 1000, 65535, 65536, 100000]),
        1 => prop::sample::select(vec![1u32 << 24, (1 << 24) + 10, 0x7fff_ffff]),
    ]
    .boxed()
}

fn small_addr() -> BoxedStrategy<u8> {
    prop_oneof![6 => 0u8..5, 2 => 0u8..16].boxed()
}

pub fn value_of(kind: Kind) -> BoxedStrategy<Vec<u8>> {
    match kind {
        Kind::Enum(v) => prop::sample::select(v.to_vec()).prop_map(|b| vec![b]).boxed(),
        Kind::Len(n) => vec(
            prop_oneof![3 => any::<u8>(), 1 => Just(0u8), 1 => Just(255u8), 1 => 0u8..10],
            n..=n,
        )
        .boxed(),
        Kind::InitTime => prop_oneof![vec(any::<u8>(), 4..=4), vec(any::<u8>(), 8..=8)].boxed(),
        Kind::Any => prop_oneof![
            4 => vec(any::<u8>(), 0..=40),
            1 => prop::sample::select(vec![254usize, 255, 128]).prop_flat_map(|n| vec(any::<u8>(), n..=n)),
        ]
        .boxed(),
        Kind::SubKey => prop_oneof![vec(any::<u8>(), 16..=16), vec(any::<u8>(), 32..=32)].boxed(),
        Kind::Mac => prop_oneof![
            5 => small_addr().prop_map(|i| ADDRS[i as usize % ADDRS.len()].to_vec()),
            2 => (0usize..XADDRS.len()).prop_map(|i| XADDRS[i].to_vec()),
        ]
        .boxed(),
        Kind::Dst => prop_oneof![
            5 => dst_short(0, 10),
            2 => vec(0usize..XADDRS.len(), 0..4).prop_map(|v| v.iter().flat_map(|i| XADDRS[*i].to_vec()).collect()),
        ]
        .boxed(),
    }
}

fn dst_short(lo: usize, hi: usize) -> BoxedStrategy<Vec<u8>> {
    vec(small_addr(), lo..hi)
        .prop_map(|v| {
            let mut seen: Vec<Vec<u8>> = vec![];
            for i in v {
                let a = ADDRS[i as usize % ADDRS.len()].to_vec();
                if !seen.contains(&a) {
                    seen.push(a)
                }
            }
            seen.concat()
        })
        .boxed()
}

pub fn valid_tlv() -> BoxedStrategy<(u8, Vec<u8>)> {
    (0usize..PARAMS.len())
        .prop_flat_map(|i| {
            let (id, kind, _) = PARAMS[i];
            if id == 0x09 {
                return (Just(id), duration().prop_map(|d| d.to_le_bytes().to_vec())).boxed();
            }
            (Just(id), value_of(kind)).boxed()
        })
        .boxed()
}

pub fn wild_tlv() -> BoxedStrategy<(u8, Vec<u8>)> {
    prop_oneof![
        4 => valid_tlv(),
        // wrong length or value
        3 => (0usize..PARAMS.len(), vec(any::<u8>(), 0..10)).prop_map(|(i, v)| (PARAMS[i].0, v)),
        2 => (0usize..PARAMS.len(), any::<u8>()).prop_map(|(i, v)| (PARAMS[i].0, vec![v])),
        // unsupported parameters
        2 => (prop::sample::select(vec![0x3du8, 0x40, 0x44, 0x49, 0x4b, 0x4d, 0x4e, 0x9f, 0xa0, 0xa1, 0xa2, 0xdf, 0xe0, 0xe2, 0xe3, 0xe4, 0xe8, 0xe9, 0xff]), vec(any::<u8>(), 0..4)),
        // unknown identifiers
        1 => (any::<u8>(), vec(any::<u8>(), 0..4)),
    ]
    .boxed()
}

/// Values that must agree with each other: address mode, count and list.
fn address_bundle() -> BoxedStrategy<Vec<(u8, Vec<u8>)>> {
    (
        prop_oneof![4 => Just(0u8), 2 => Just(2u8), 1 => Just(1u8)],
        vec(0u8..8, 0..10),
        small_addr(),
        prop_oneof![8 => Just(0i8), 1 => Just(1i8), 1 => Just(-1i8)],
        0u8..8,
    )
        .prop_map(|(mode, list, mac, off, omit)| {
            let size = if mode == 2 { 8 } else { 2 };
            let pick = |i: u8| -> Vec<u8> {
                if size == 8 {
                    XADDRS[i as usize % XADDRS.len()].to_vec()
                } else {
                    ADDRS[i as usize % ADDRS.len()].to_vec()
                }
            };
            let mut seen: Vec<Vec<u8>> = vec![];
            for i in list {
                let a = pick(i);
                if !seen.contains(&a) {
                    seen.push(a)
                }
            }
            let n = (seen.len() as i32 + off as i32).clamp(0, 255) as u8;
            let mut t = vec![
                (0x26u8, vec![mode]),
                (0x06, pick(mac)),
                (0x05, vec![n]),
                (0x07, seen.concat()),
            ];
            if omit == 1 {
                t.remove(0);
            }
            if omit == 2 {
                t.remove(1);
            }
            if omit == 3 {
                t.swap(0, 3);
            }
            t
        })
        .boxed()
}

pub fn mandatory() -> Vec<(u8, Vec<u8>)> {
    vec![
        (0x00, vec![1]),
        (0x01, vec![2]),
        (0x03, vec![1]),
        (0x11, vec![1]),
        (0x22, vec![1]),
        (0x06, vec![0x0a, 0x01]),
    ]
}

pub fn tlvs(wild: bool) -> BoxedStrategy<Vec<(u8, Vec<u8>)>> {
    let one = if wild { wild_tlv() } else { valid_tlv() };
    prop_oneof![
        3 => vec(one.clone(), 0..8),
        2 => (prop::sample::subsequence(mandatory(), 4..=6), vec(one.clone(), 0..6)).prop_map(|(mut a, b)| { a.extend(b); a }),
        2 => (Just(mandatory()).prop_shuffle(), vec(one.clone(), 0..8)).prop_map(|(mut a, b)| { a.extend(b); a }),
        2 => address_bundle(),
        1 => (Just(mandatory()), address_bundle()).prop_map(|(mut a, b)| { a.extend(b); a }),
        1 => (Just(mandatory()), vec(one, 20..60)).prop_map(|(mut a, b)| { a.extend(b); a }),
    ]
    .boxed()
}

pub fn ids() -> BoxedStrategy<Vec<u8>> {
    let known: Vec<u8> = PARAMS.iter().map(|p| p.0).collect();
    prop_oneof![
        4 => vec(prop::sample::select(known.clone()), 0..8),
        2 => vec(prop_oneof![6 => prop::sample::select(known.clone()), 1 => any::<u8>()], 1..12),
        1 => vec(prop::sample::select(known), 60..256),
    ]
    .boxed()
}

fn lifecycle() -> BoxedStrategy<Cmd> {
    prop_oneof![
        4 => (sid(), prop_oneof![4 => Just(0u8), 3 => Just(1u8), 1 => prop::sample::select(vec![2u8, 3, 4, 5, 0xa0, 0xd0, 6, 0xff])]).prop_map(|(s, t)| Cmd::Init(s, t)),
        2 => sid().prop_map(Cmd::Deinit),
        5 => sid().prop_map(Cmd::Start),
        4 => sid().prop_map(Cmd::Stop),
        2 => sid().prop_map(Cmd::State),
        1 => Just(Cmd::Count),
        2 => sid().prop_map(Cmd::RCount),
    ]
    .boxed()
}

fn cfg_tlv() -> BoxedStrategy<(u8, Vec<u8>)> {
    (
        prop_oneof![4 => Just(1u8), 1 => Just(0u8), 2 => prop_oneof![Just(2u8), Just(255u8), any::<u8>()]],
        prop_oneof![5 => (0u8..3).prop_map(|v| vec![v]), 1 => vec(any::<u8>(), 0..4)],
    )
        .boxed()
}

fn core() -> BoxedStrategy<Cmd> {
    prop_oneof![
        2 => Just(Cmd::Info),
        2 => Just(Cmd::Caps),
        1 => Just(Cmd::Power),
        2 => any::<(u8, u8)>().prop_map(|(a, b)| Cmd::Country(a, b)),
        5 => vec(cfg_tlv(), 0..5).prop_map(Cmd::SetCfg),
        5 => vec(prop_oneof![5 => 0u8..2, 1 => any::<u8>()], 0..5).prop_map(Cmd::GetCfg),
        1 => vec(prop_oneof![5 => 0u8..2, 1 => any::<u8>()], 80..256).prop_map(Cmd::GetCfg),
        1 => vec(any::<u8>(), 100..256).prop_map(Cmd::GetCfg),
        1 => vec(cfg_tlv(), 60..256).prop_map(Cmd::SetCfg),
    ]
    .boxed()
}

fn multi() -> BoxedStrategy<Cmd> {
    (
        sid(),
        prop_oneof![5 => Just(0u8), 5 => Just(1u8), 2 => Just(2u8), 2 => Just(3u8), 1 => any::<u8>()],
        prop_oneof![8 => vec(small_addr(), 0..4), 3 => vec(0u8..16, 4..11)],
    )
        .prop_map(|(s, a, l)| Cmd::Multi(s, a, l))
        .boxed()
}

fn data_len() -> BoxedStrategy<u32> {
    prop_oneof![
        6 => 0u32..40,
        3 => 200u32..1200,
        2 => prop::sample::select(vec![237u32, 238, 239, 255, 256, 1006, 1007, 1008, 1023, 1024, 1025, 2030, 2031, 2032, 2048]),
        1 => prop::sample::select(vec![40000u32, 65519, 32768, 65519]),
    ]
    .boxed()
}

fn data() -> BoxedStrategy<Cmd> {
    (sid(), data_len(), any::<u8>(), prop_oneof![any::<u16>(), 0u16..4])
        .prop_map(|(s, l, f, q)| Cmd::Data(s, l, f, q))
        .boxed()
}

pub fn raw() -> BoxedStrategy<Cmd> {
    let payload = prop_oneof![
        3 => vec(any::<u8>(), 0..12),
        2 => vec(prop_oneof![0u8..3, Just(255u8)], 0..12),
        1 => vec(any::<u8>(), 200..600),
    ];
    prop_oneof![
        // any command of a supported group
        6 => (prop::sample::select(vec![0u8, 1, 2, 0xc]), 0u8..16, payload.clone()).prop_map(|(g, o, p)| Cmd::Raw(0, vec![0x20 | g, o, 0, 0], p)),
        // any group
        3 => (0u8..16, 0u8..64, payload.clone()).prop_map(|(g, o, p)| Cmd::Raw(0, vec![0x20 | g, o, 0, 0], p)),
        // reserved bits set
        1 => (0u8..16, any::<u8>(), payload.clone()).prop_map(|(g, o, p)| Cmd::Raw(0, vec![0x20 | g, o, 0, 0], p)),
        // responses and notifications from the host
        2 => (prop::sample::select(vec![0x40u8, 0x60]), 0u8..16, 0u8..16, payload.clone()).prop_map(|(t, g, o, p)| Cmd::Raw(0, vec![t | g, o, 0, 0], p)),
        // data packets of any format
        3 => (0u8..16, payload.clone()).prop_map(|(f, p)| Cmd::Raw(0, vec![f, 0, 0, 0], p)),
        // received-data packets sent by the host
        2 => (sid(), vec(any::<u8>(), 0..20), prop_oneof![4 => Just(0i32), 1 => -2i32..3]).prop_map(|(s, d, off)| {
            let mut p = SIDS[s as usize].to_le_bytes().to_vec();
            p.push(0);
            p.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8, 1, 0]);
            p.extend_from_slice(&((d.len() as i32 + off).max(0) as u16).to_le_bytes());
            p.extend(d);
            Cmd::Raw(0, vec![2, 0, 0, 0], p)
        }),
    ]
    .boxed()
}

pub fn mutation() -> BoxedStrategy<Mutation> {
    prop_oneof![
        3 => (1u8..6).prop_map(Mutation::Truncate),
        3 => vec(any::<u8>(), 1..4).prop_map(Mutation::Extend),
        4 => (any::<u8>(), prop_oneof![(0u8..8).prop_map(|b| 1 << b), any::<u8>()]).prop_map(|(p, x)| Mutation::Flip(p, x)),
    ]
    .boxed()
}

pub fn frags() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        8 => Just(vec![]),
        2 => vec(0u8..8, 1..4),
        1 => vec(prop_oneof![Just(255u8), Just(254u8), Just(1u8), any::<u8>()], 1..4),
    ]
    .boxed()
}

fn plain(cmd: BoxedStrategy<Cmd>) -> BoxedStrategy<Msg> {
    (cmd, frags())
        .prop_map(|(cmd, frags)| Msg {
            cmd,
            mutation: Mutation::None,
            frags,
        })
        .boxed()
}

/// Structured commands of every kind.
pub fn any_cmd() -> BoxedStrategy<Cmd> {
    prop_oneof![
        6 => lifecycle(),
        3 => (sid(), tlvs(false)).prop_map(|(s, t)| Cmd::SetApp(s, t)),
        2 => (sid(), tlvs(true)).prop_map(|(s, t)| Cmd::SetApp(s, t)),
        2 => (sid(), ids()).prop_map(|(s, t)| Cmd::GetApp(s, t)),
        1 => sid().prop_map(Cmd::GetAll),
        3 => core(),
        2 => multi(),
        2 => data(),
        1 => Just(Cmd::Reset),
    ]
    .boxed()
}

/// Commands without cross-device effects at tick time, for bursts.
fn burst_msg() -> BoxedStrategy<Msg> {
    prop_oneof![
        8 => plain(any_cmd()),
        1 => plain(raw()),
        1 => (any_cmd(), mutation()).prop_map(|(cmd, mutation)| Msg { cmd, mutation, frags: vec![] }),
    ]
    .boxed()
}

fn extra() -> BoxedStrategy<Vec<(u8, Vec<u8>)>> {
    vec(
        prop_oneof![
            3 => prop_oneof![3 => Just(1u8), 2 => Just(0u8), 1 => 2u8..8].prop_map(|v| (0x0e, vec![v])),
            3 => prop_oneof![2 => Just(0u8), 1 => Just(1u8), 1 => Just(3u8), 1 => Just(255u8)].prop_map(|v| (0x2f, vec![v])),
            2 => (0u8..5).prop_map(|v| (0x02, vec![v])),
            1 => valid_tlv(),
        ],
        0..3,
    )
    .boxed()
}

pub fn setup() -> BoxedStrategy<SetupP> {
    (
        (sid(), prop_oneof![3 => Just(0u8), 3 => Just(1u8)]),
        any::<(bool, bool)>(),
        prop_oneof![3 => Just(true), 1 => Just(false)],
        small_addr(),
        vec(small_addr(), 0..9),
        prop_oneof![5 => Just(false), 1 => Just(true)],
        duration(),
        extra(),
        prop_oneof![3 => Just(true), 1 => Just(false)],
    )
        .prop_map(
            |((s, typ), (controller, initiator), o2m, mac, dst, extended, duration, extra, start)| {
                SetupP {
                    s,
                    typ,
                    controller,
                    initiator,
                    o2m,
                    mac,
                    dst,
                    extended,
                    duration,
                    extra,
                    start,
                }
            },
        )
        .boxed()
}

/// A controller and `n` controlees ranging with each other on one session.
pub fn fleet(n: usize) -> BoxedStrategy<Vec<Op>> {
    (
        0u8..6,
        sid(),
        prop_oneof![1 => Just(0u8), 2 => Just(1u8)],
        prop_oneof![5 => Just(false), 1 => Just(true)],
        vec(duration(), n + 1),
        vec(small_addr(), 0..4),
        extra(),
        // what does not match
        prop_oneof![6 => Just(0u8), 4 => 1u8..7],
        any::<bool>(),
        vec(small_addr(), n + 1),
        Just((0u8..5).collect::<Vec<u8>>()).prop_shuffle(),
        any::<bool>(),
    )
        .prop_map(
            move |(c, s, typ, extended, durs, more, extra, odd, swap, rnd, perm, initiator)| {
                let mut macs: Vec<u8> = perm[..n + 1].to_vec();
                if odd == 6 {
                    macs[n] = rnd[n];
                }
                let mut ops = vec![];
                for i in 0..=n {
                    let me = macs[i];
                    let mut dst: Vec<u8> = if i == 0 {
                        macs[1..].to_vec()
                    } else {
                        vec![macs[0]]
                    };
                    if i == 0 {
                        dst.extend(&more);
                    }
                    let mut p = SetupP {
                        s,
                        typ,
                        controller: i == 0,
                        initiator: (i == 0) == initiator,
                        o2m: true,
                        mac: me,
                        dst,
                        extended,
                        duration: durs[i],
                        extra: if i == 0 { extra.clone() } else { vec![] },
                        start: true,
                    };
                    if i == n {
                        match odd {
                            1 => p.controller = true,
                            2 => p.initiator = initiator,
                            3 => p.dst = vec![rnd[0]],
                            4 => p.start = false,
                            5 => p.typ = 1 - typ,
                            _ => (),
                        }
                    }
                    ops.push(Op::Setup(c + i as u8, p));
                }
                if swap {
                    ops.reverse();
                }
                ops
            },
        )
        .boxed()
}

/// In-band data between the members of a fleet.
fn data_fleet(n: usize) -> BoxedStrategy<Vec<Op>> {
    (
        fleet(n),
        vec((data_len(), any::<u8>(), any::<u16>(), 0u8..8), 1..5),
        1u32..4,
        prop_oneof![9 => Just(true), 1 => Just(false)],
    )
        .prop_map(|(mut ops, data, rounds, typ1)| {
            let mut from = vec![];
            let mut s = 0;
            for op in &mut ops {
                if let Op::Setup(c, p) = op {
                    if typ1 {
                        p.typ = 1;
                    }
                    s = p.s;
                    from.push((p.initiator, *c));
                    p.duration = p.duration.min(1000);
                }
            }
            from.sort_by_key(|f| !f.0);
            for (len, fill, seq, who) in data {
                // mostly from the initiator
                let i = if who < 6 { 0 } else { who as usize % from.len() };
                ops.push(Op::Msg(from[i].1, Msg::plain(Cmd::Data(s, len, fill, seq))));
                if seq & 1 == 1 {
                    ops.push(Op::Rounds(rounds));
                }
            }
            ops.push(Op::Rounds(rounds));
            ops
        })
        .boxed()
}

/// Removal of members of a fleet by its controller.
fn remove_fleet(n: usize) -> BoxedStrategy<Vec<Op>> {
    (
        fleet(n),
        vec((0u8..8, small_addr()), 1..4),
        prop_oneof![3 => Just(1u8), 1 => Just(0u8)],
        any::<(bool, bool)>(),
        0u32..3,
    )
        .prop_map(|(mut ops, picks, action, (rounds, again), attempts)| {
            let mut members: Vec<u8> = vec![];
            let mut ctrl = 0;
            let mut s = 0;
            for op in &mut ops {
                if let Op::Setup(c, p) = op {
                    s = p.s;
                    if p.controller && p.dst.len() >= members.len() {
                        ctrl = *c;
                        members = p.dst.clone();
                        p.extended = false;
                        if attempts > 0 {
                            p.extra.retain(|e| e.0 != 0x2f);
                        }
                    }
                    p.duration = p.duration.min(1000);
                }
            }
            if rounds {
                ops.push(Op::Rounds(2));
            }
            let list: Vec<u8> = picks
                .iter()
                .map(|(k, a)| {
                    if *k < 7 && !members.is_empty() {
                        members[*k as usize % members.len()]
                    } else {
                        *a
                    }
                })
                .collect();
            ops.push(Op::Msg(ctrl, Msg::plain(Cmd::Multi(s, action, list.clone()))));
            ops.push(Op::Rounds(2));
            if again {
                ops.push(Op::Msg(ctrl, Msg::plain(Cmd::Multi(s, 1, members))));
                ops.push(Op::Msg(ctrl, Msg::plain(Cmd::Multi(s, 0, list))));
                ops.push(Op::Msg(ctrl, Msg::plain(Cmd::Start(s))));
                ops.push(Op::Rounds(2));
            }
            ops
        })
        .boxed()
}

/// Responses of a chosen size, around the multiples of the segment size.
fn exact() -> BoxedStrategy<Vec<Op>> {
    (
        client(),
        sid(),
        prop_oneof![4 => 244usize..=255, 1 => 118usize..=128, 1 => 0usize..=255],
        1usize..5,
        vec(prop::sample::select(vec![0u8, 1, 0x1d, 0x28, 0x10]), 0..3),
        any::<u8>(),
    )
        .prop_map(|(c, s, n, k, more, fill)| {
            let v: Vec<u8> = (0..n).map(|i| data_byte(fill, i)).collect();
            let mut t = mandatory();
            t.push((0x45, v));
            let ids = [std::iter::repeat(0x45u8).take(k).collect::<Vec<_>>(), more].concat();
            vec![
                Op::Msg(c, Msg::plain(Cmd::Init(s, 0))),
                Op::Msg(c, Msg::plain(Cmd::SetApp(s, t))),
                Op::Msg(c, Msg::plain(Cmd::GetApp(s, ids))),
            ]
        })
        .boxed()
}

/// Many anchors, and a session that ranges with many of them.
fn crowd() -> BoxedStrategy<Vec<Op>> {
    (
        client(),
        prop::sample::subsequence((0u8..16).collect::<Vec<_>>(), 4..=16),
        vec(0u8..16, 8..16),
        setup(),
        1u32..3,
    )
        .prop_map(|(c, anchors, dst, mut p, rounds)| {
            let mut ops: Vec<Op> = anchors.iter().map(|a| Op::Anchor(true, *a)).collect();
            p.dst = dst;
            p.extended = false;
            p.start = true;
            p.duration = p.duration.min(1000);
            ops.push(Op::Setup(c, p));
            ops.push(Op::Rounds(rounds));
            ops
        })
        .boxed()
}

/// A controlee list that names some addresses several times, then edited.
fn repeated() -> BoxedStrategy<Vec<Op>> {
    (
        client(),
        sid(),
        vec(0u8..4, 2..9),
        vec(
            (
                prop_oneof![3 => Just(1u8), 1 => Just(0u8)],
                vec(0u8..5, 1..4),
            ),
            1..3,
        ),
        any::<bool>(),
    )
        .prop_map(|(c, s, list, edits, start)| {
            let mut t = mandatory();
            t.push((0x05, vec![list.len() as u8]));
            t.push((
                0x07,
                list.iter()
                    .flat_map(|i| ADDRS[*i as usize].to_vec())
                    .collect(),
            ));
            let mut ops = vec![
                Op::Msg(c, Msg::plain(Cmd::Init(s, 0))),
                Op::Msg(c, Msg::plain(Cmd::SetApp(s, t))),
            ];
            if start {
                ops.push(Op::Msg(c, Msg::plain(Cmd::Start(s))));
            }
            for (action, l) in edits {
                ops.push(Op::Msg(c, Msg::plain(Cmd::Multi(s, action, l))));
                ops.push(Op::Msg(c, Msg::plain(Cmd::GetApp(s, vec![0x05, 0x07]))));
            }
            ops
        })
        .boxed()
}

/// Large commands: long values, or many of them.
fn large() -> BoxedStrategy<Cmd> {
    prop_oneof![
        3 => (sid(), 1usize..40, any::<u8>()).prop_map(|(s, n, fill)| {
            let mut t = mandatory();
            for i in 0..n {
                t.push((0x45, (0..255 - (i % 3)).map(|k| data_byte(fill, k + i)).collect()));
            }
            Cmd::SetApp(s, t)
        }),
        1 => vec((Just(0u8), vec(any::<u8>(), 200..256)), 4..20).prop_map(Cmd::SetCfg),
        1 => (sid(), 2u8..4, vec(0u8..16, 30..250)).prop_map(|(s, a, l)| Cmd::Multi(s, a, l)),
    ]
    .boxed()
}

/// Commands in many segments.
fn segmented() -> BoxedStrategy<Vec<Op>> {
    let frags = prop_oneof![
        3 => vec(0u8..8, 1..8),
        2 => vec(Just(1u8), 1..40),
        1 => vec(Just(0u8), 1..4),
        2 => vec(prop_oneof![Just(255u8), Just(254u8), Just(1u8), any::<u8>()], 1..4),
    ];
    let msg = (
        prop_oneof![6 => any_cmd(), 1 => large()],
        prop_oneof![5 => Just(Mutation::None), 1 => mutation()],
        frags,
    )
        .prop_map(|(cmd, mutation, frags)| Msg {
            cmd,
            mutation,
            frags,
        })
        .boxed();
    prop_oneof![
        5 => cmsg(msg.clone()),
        1 => one((client(), vec(msg, 2..6)).prop_map(|(c, m)| Op::Burst(c, m)).boxed()),
    ]
    .boxed()
}

fn one(s: BoxedStrategy<Op>) -> BoxedStrategy<Vec<Op>> {
    s.prop_map(|o| vec![o]).boxed()
}

fn client() -> BoxedStrategy<u8> {
    (0u8..6).boxed()
}

fn cmsg(m: BoxedStrategy<Msg>) -> BoxedStrategy<Vec<Op>> {
    (client(), m).prop_map(|(c, m)| vec![Op::Msg(c, m)]).boxed()
}

fn gated_op() -> BoxedStrategy<Op> {
    prop_oneof![
        4 => (client(), plain(prop_oneof![
            3 => sid().prop_map(Cmd::Stop),
            2 => sid().prop_map(Cmd::Deinit),
            1 => Just(Cmd::Reset),
            2 => sid().prop_map(Cmd::RCount),
            2 => multi(),
            1 => data(),
            1 => (sid(), tlvs(false)).prop_map(|(s, t)| Cmd::SetApp(s, t)),
        ].boxed())).prop_map(|(c, m)| Op::Msg(c, m)),
        2 => client().prop_map(|c| Op::Disconnect(c, 0)),
        3 => (5u32..60).prop_map(Op::Wait),
        1 => Just(Op::Connect),
        1 => (any::<bool>(), 0u8..24).prop_map(|(b, a)| Op::Anchor(b, a)),
    ]
    .boxed()
}

pub fn chunks(p: &Profile) -> BoxedStrategy<Vec<Op>> {
    let w = &p.w;
    let list: Vec<(u32, BoxedStrategy<Vec<Op>>)> = vec![
        (w.connect, (Just(Op::Connect), any::<u8>()).prop_map(|(o, r)| {
            // a connection is usually followed by a reset of the newest client
            let _ = r;
            vec![o]
        }).boxed()),
        (w.connect, Just(vec![Op::Connect, Op::Msg(255, Msg::plain(Cmd::Reset))]).boxed()),
        (w.disconnect, one((client(), 0u8..6).prop_map(|(c, h)| Op::Disconnect(c, h)).boxed())),
        (w.reset, one(client().prop_map(|c| Op::Msg(c, Msg::plain(Cmd::Reset))).boxed())),
        (w.lifecycle, cmsg(plain(lifecycle()))),
        (w.setapp, cmsg(plain((sid(), tlvs(false)).prop_map(|(s, t)| Cmd::SetApp(s, t)).boxed()))),
        (w.setapp_wild, cmsg(plain((sid(), tlvs(true)).prop_map(|(s, t)| Cmd::SetApp(s, t)).boxed()))),
        (w.getapp, cmsg(plain(prop_oneof![
            (sid(), ids()).prop_map(|(s, t)| Cmd::GetApp(s, t)),
            sid().prop_map(Cmd::GetAll)].boxed()))),
        (w.core, cmsg(plain(core()))),
        (w.multi, cmsg(plain(multi()))),
        (w.data, cmsg(plain(data()))),
        (w.raw, cmsg(plain(raw()))),
        (w.mutated, cmsg((any_cmd(), mutation(), frags()).prop_map(|(cmd, mutation, frags)| Msg { cmd, mutation, frags }).boxed())),
        (w.burst, one((client(), vec(burst_msg(), 2..8)).prop_map(|(c, m)| Op::Burst(c, m)).boxed())),
        (w.setup, one((client(), setup()).prop_map(|(c, p)| Op::Setup(c, p)).boxed())),
        (w.pair, fleet(1)),
        (w.fleet, (2usize..4).prop_flat_map(fleet).boxed()),
        (w.wait, one(prop_oneof![4 => 5u32..100, 2 => 100u32..1500, 1 => Just(70000u32)].prop_map(Op::Wait).boxed())),
        (w.rounds, one(prop_oneof![4 => 1u32..5, 1 => 5u32..40, 1 => Just(260u32)].prop_map(Op::Rounds).boxed())),
        (w.anchor, one((prop_oneof![2 => Just(true), 1 => Just(false)], prop_oneof![3 => 0u8..8, 2 => 0u8..24]).prop_map(|(b, a)| Op::Anchor(b, a)).boxed())),
        (w.epoch, one(any::<u32>().prop_map(Op::Epoch).boxed())),
        (w.gated, one(vec(gated_op(), 1..7).prop_map(Op::Gated).boxed())),
        (w.stall, one((client(), any::<bool>()).prop_map(|(c, b)| Op::Stall(c, b)).boxed())),
        (w.probe, one(Just(Op::ProbeAll).boxed())),
        (w.many, one((client(), prop_oneof![Just(1000u32), Just(0xffff_ff80), any::<u32>()], prop_oneof![2 => Just(255u16), 1 => 250u16..258, 1 => 1u16..20]).prop_map(|(c, b, n)| Op::Many(c, b, n)).boxed())),
        (w.many_active, one((client(), prop_oneof![Just(1000u32), any::<u32>()], prop_oneof![1 => 250u16..256, 3 => 2u16..40], prop_oneof![100u32..400, 2000u32..100_000]).prop_map(|(c, b, n, d)| Op::ManyActive(c, b, n, d)).boxed())),
        (w.restart, (client(), sid(), 1u32..4).prop_map(|(c, s, n)| vec![
            Op::Msg(c, Msg::plain(Cmd::Stop(s))),
            Op::Wait(n * 17),
            Op::Msg(c, Msg::plain(Cmd::Start(s))),
            Op::Rounds(n),
        ]).boxed()),
    ];
    let mut list = list;
    list.push((w.data_fleet, (1usize..4).prop_flat_map(data_fleet).boxed()));
    list.push((w.remove_fleet, (1usize..4).prop_flat_map(remove_fleet).boxed()));
    list.push((w.exact, exact()));
    list.push((w.crowd, crowd()));
    list.push((w.segmented, segmented()));
    list.push((w.repeated, repeated()));
    Union::new_weighted(list.into_iter().filter(|x| x.0 > 0).collect()).boxed()
}

pub fn case(p: &Profile) -> BoxedStrategy<Case> {
    let all = p.all_reset;
    let pcap = p.pcap;
    (
        p.n_sids.0..=p.n_sids.1,
        p.clients.0..=p.clients.1,
        any::<u8>(),
        prop::bool::weighted(0.2),
        prop::collection::vec(chunks(p), p.len.0..p.len.1),
    )
        .prop_map(move |(n_sids, clients, resets, shared, chunks)| Case {
            n_sids,
            clients,
            resets: if all || resets & 3 != 0 { 255 } else { resets >> 2 },
            pcap,
            shared,
            ops: chunks.into_iter().flatten().collect(),
        })
        .boxed()
}

/// With pauses in real time, followed by packets.
pub fn paused(case: BoxedStrategy<Case>) -> BoxedStrategy<Case> {
    (case, vec((any::<prop::sample::Index>(), 200u16..1500), 2..5))
        .prop_map(|(mut case, pauses)| {
            for (i, ms) in pauses {
                let i = i.index(case.ops.len() + 1);
                case.ops.insert(i, Op::ProbeAll);
                case.ops.insert(i, Op::Pause(ms));
            }
            case
        })
        .boxed()
}
