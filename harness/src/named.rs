//! Named values, access to descriptors in a loop, packing of bit fields.

use crate::desc::{digits, number, parsed, plain, written};
use crate::text::selector;
use crate::vk;
use mpegts::bytes::Bytes;
use mpegts::constants::*;
use mpegts::psi::*;
use mpegts::set_bits;
use mpegts::textcode::*;
use mpegts::ts;

type Values = &'static [(u8, u8)];

/// Named values next to the numbers of the standards.
const POSITION: Values = &[(POSITION_WEST, 0), (POSITION_EAST, 1)];
const POLARIZATION: Values = &[(POLARIZATION_H, 0), (POLARIZATION_V, 1), (POLARIZATION_L, 2), (POLARIZATION_R, 3)];
const ROLL_OFF: Values = &[(ROF_A035, 0), (ROF_A025, 1), (ROF_A020, 2)];
const SATELLITE: Values = &[(MODULATION_DVB_S_AUTO, 0), (MODULATION_DVB_S_QPSK, 1), (MODULATION_DVB_S_8PSK, 2), (MODULATION_DVB_S_16QAM, 3)];
const FEC: Values = &[(FEC_NOT_DEFINED, 0), (FEC_1_2, 1), (FEC_2_3, 2), (FEC_3_4, 3), (FEC_5_6, 4), (FEC_7_8, 5), (FEC_8_9, 6), (FEC_3_5, 7), (FEC_4_5, 8), (FEC_9_10, 9), (FEC_NONE, 15)];
const OUTER: Values = &[(FEC_OUTER_NOT_DEFINED, 0), (FEC_OUTER_NO_CODING, 1), (FEC_OUTER_RS, 2)];
const CABLE: Values = &[(MODULATION_DVB_C_NOT_DEFINED, 0), (MODULATION_DVB_C_16_QAM, 1), (MODULATION_DVB_C_32_QAM, 2), (MODULATION_DVB_C_64_QAM, 3), (MODULATION_DVB_C_128_QAM, 4), (MODULATION_DVB_C_256_QAM, 5)];
const BANDWIDTH: Values = &[(BANDWIDTH_DVB_T_8MHZ, 0), (BANDWIDTH_DVB_T_7MHZ, 1), (BANDWIDTH_DVB_T_6MHZ, 2), (BANDWIDTH_DVB_T_5MHZ, 3)];
const TERRESTRIAL: Values = &[(MODULATION_DVB_T_QPSK, 0), (MODULATION_DVB_T_16QAM, 1), (MODULATION_DVB_T_64QAM, 2)];
const HIERARCHY: Values = &[(HIERARCHY_DVB_T_NON_NATIVE, 0), (HIERARCHY_DVB_T_A1_NATIVE, 1), (HIERARCHY_DVB_T_A2_NATIVE, 2), (HIERARCHY_DVB_T_A4_NATIVE, 3),
    (HIERARCHY_DVB_T_NON_IN_DEPTH, 4), (HIERARCHY_DVB_T_A1_IN_DEPTH, 5), (HIERARCHY_DVB_T_A2_IN_DEPTH, 6), (HIERARCHY_DVB_T_A4_IN_DEPTH, 7)];
const RATE: Values = &[(CODE_RATE_DVB_T_1_2, 0), (CODE_RATE_DVB_T_2_3, 1), (CODE_RATE_DVB_T_3_4, 2), (CODE_RATE_DVB_T_5_6, 3), (CODE_RATE_DVB_T_7_8, 4)];
const GUARD: Values = &[(GUARD_INTERVAL_1_32, 0), (GUARD_INTERVAL_1_16, 1), (GUARD_INTERVAL_1_8, 2), (GUARD_INTERVAL_1_4, 3)];
const CARRIERS: Values = &[(TRANSMISSION_MODE_2K, 0), (TRANSMISSION_MODE_8K, 1), (TRANSMISSION_MODE_4K, 2)];

/// One of the named values, with its number.
fn named(v: Values) -> (u8, u8) { v[vk::fork(v.len())] }

fn any(n: u32) -> u8 { vk::bits(n) as u8 }

/// The field at this place of the written descriptor, with the descriptor
/// read again.
fn field<T: 'static + Desc>(x: T, at: usize, shift: u32, width: u32) -> (u8, Descriptors) {
    let mut d = Descriptors::default();
    d.push(x);
    let v = written(&d);
    vk::check(v.len() == 13, "size");
    let f = v[at] >> shift & ((1u32 << width) - 1) as u8;
    vk::observe(f as u64);
    (f, parsed(&v))
}

harness! {
    fn h_c47_satellite() {
        vk::covers("done");
        let mut x = Desc43 {
            frequency: number(&digits(8)) * 10, orbital_position: number(&digits(4)) as u16 * 6, west_east_flag: any(1), polarization: any(2),
            rof: any(2), s2: any(1), modulation: any(2), symbol_rate: number(&digits(6)), fec: any(4),
        };
        vk::cover("done");
        let (got, want, back) = match vk::fork(5) {
            0 => { let (n, w) = named(POSITION); x.west_east_flag = n; let (f, mut d) = field(x, 8, 7, 1); (f, w, d.get(0).unwrap().downcast_ref::<Desc43>().west_east_flag == n) }
            1 => { let (n, w) = named(POLARIZATION); x.polarization = n; let (f, mut d) = field(x, 8, 5, 2); (f, w, d.get(0).unwrap().downcast_ref::<Desc43>().polarization == n) }
            2 => { let (n, w) = named(ROLL_OFF); x.rof = n; let (f, mut d) = field(x, 8, 3, 2); (f, w, d.get(0).unwrap().downcast_ref::<Desc43>().rof == n) }
            3 => { let (n, w) = named(SATELLITE); x.modulation = n; let (f, mut d) = field(x, 8, 0, 2); (f, w, d.get(0).unwrap().downcast_ref::<Desc43>().modulation == n) }
            _ => { let (n, w) = named(FEC); x.fec = n; let (f, mut d) = field(x, 12, 0, 4); (f, w, d.get(0).unwrap().downcast_ref::<Desc43>().fec == n) }
        };
        vk::check(got == want, "number of the standard");
        vk::check(back, "same name when read");
    }

    fn h_c47_cable() {
        vk::covers("done");
        let mut x = Desc44 { frequency: number(&digits(7)) * 100, fec_outer: any(4), modulation: vk::u8(), symbol_rate: number(&digits(6)), fec: any(4) };
        vk::cover("done");
        let (got, want, back) = match vk::fork(3) {
            0 => { let (n, w) = named(OUTER); x.fec_outer = n; let (f, mut d) = field(x, 7, 0, 4); (f, w, d.get(0).unwrap().downcast_ref::<Desc44>().fec_outer == n) }
            1 => { let (n, w) = named(CABLE); x.modulation = n; let (f, mut d) = field(x, 8, 0, 8); (f, w, d.get(0).unwrap().downcast_ref::<Desc44>().modulation == n) }
            _ => { let (n, w) = named(FEC); x.fec = n; let (f, mut d) = field(x, 12, 0, 4); (f, w, d.get(0).unwrap().downcast_ref::<Desc44>().fec == n) }
        };
        vk::check(got == want, "number of the standard");
        vk::check(back, "same name when read");
    }

    fn h_c47_terrestrial() {
        vk::covers("done");
        let mut x = Desc5A {
            frequency: vk::range(0, 429496729) as u32 * 10, bandwidth: any(3), priority: any(1), time_slicing: any(1), mpe_fec: any(1), modulation: any(2), hierarchy: any(3),
            code_rate_hp: any(3), code_rate_lp: any(3), guard_interval: any(2), transmission: any(2), other_frequency_flag: any(1),
        };
        vk::cover("done");
        let (got, want, back) = match vk::fork(7) {
            0 => { let (n, w) = named(BANDWIDTH); x.bandwidth = n; let (f, mut d) = field(x, 6, 5, 3); (f, w, d.get(0).unwrap().downcast_ref::<Desc5A>().bandwidth == n) }
            1 => { let (n, w) = named(TERRESTRIAL); x.modulation = n; let (f, mut d) = field(x, 7, 6, 2); (f, w, d.get(0).unwrap().downcast_ref::<Desc5A>().modulation == n) }
            2 => { let (n, w) = named(HIERARCHY); x.hierarchy = n; let (f, mut d) = field(x, 7, 3, 3); (f, w, d.get(0).unwrap().downcast_ref::<Desc5A>().hierarchy == n) }
            3 => { let (n, w) = named(RATE); x.code_rate_hp = n; let (f, mut d) = field(x, 7, 0, 3); (f, w, d.get(0).unwrap().downcast_ref::<Desc5A>().code_rate_hp == n) }
            4 => { let (n, w) = named(RATE); x.code_rate_lp = n; let (f, mut d) = field(x, 8, 5, 3); (f, w, d.get(0).unwrap().downcast_ref::<Desc5A>().code_rate_lp == n) }
            5 => { let (n, w) = named(GUARD); x.guard_interval = n; let (f, mut d) = field(x, 8, 3, 2); (f, w, d.get(0).unwrap().downcast_ref::<Desc5A>().guard_interval == n) }
            _ => { let (n, w) = named(CARRIERS); x.transmission = n; let (f, mut d) = field(x, 8, 1, 2); (f, w, d.get(0).unwrap().downcast_ref::<Desc5A>().transmission == n) }
        };
        vk::check(got == want, "number of the standard");
        vk::check(back, "same name when read");
    }

    fn h_c47_text() {
        vk::covers("done");
        const TABLES: Values = &[(ISO6937, 0), (ISO8859_1, 1), (ISO8859_2, 2), (ISO8859_3, 3), (ISO8859_4, 4), (ISO8859_5, 5), (ISO8859_6, 6), (ISO8859_7, 7), (ISO8859_8, 8),
            (ISO8859_9, 9), (ISO8859_10, 10), (ISO8859_11, 11), (ISO8859_13, 13), (ISO8859_14, 14), (ISO8859_15, 15), (UTF8, 21)];
        let (n, w) = named(TABLES);
        let (c, k) = vk::twin::<3>();
        for x in &c { vk::assume((*x >= 0x20) & (*x < 0x7f)) }
        vk::cover("done");
        let s = StringDVB::from_str(core::str::from_utf8(&c).unwrap(), n);
        let mut v = vec![];
        s.assemble(&mut v);
        let mut want = selector(w);
        want.extend_from_slice(&k);
        vk::observe_bytes(&v);
        vk::check(v == want, "selector of the standard");
        vk::check(StringDVB::from(v.as_slice()).get_codepage() == n, "same name when read");
    }

    fn h_c47_packets() {
        vk::covers("table,null");
        // identifiers of tables and of padding, in any packet
        const PIDS: &[(u16, u16)] = &[(PAT_PID, 0), (NIT_PID, 0x10), (SDT_PID, 0x11), (EIT_PID, 0x12), (TDT_PID, 0x14), (TOT_PID, 0x14), (ts::PID_NULL, 0x1fff)];
        let (pid, want) = PIDS[vk::fork(PIDS.len())];
        vk::cover(if want == 0x1fff { "null" } else { "table" });
        let mut p = vk::bytes(ts::PACKET_SIZE);
        ts::set_pid(&mut p, pid);
        vk::check((p.len() == 188) & ((p[1] as u16 & 31) * 256 + p[2] as u16 == want), "number of the standard");
        vk::check(ts::NULL_PACKET.len() == 188 && ts::NULL_PACKET[..4] == [0x47, 0x1f, 0xff, 0x10] && ts::NULL_PACKET[4..].iter().all(|x| *x == 0xff), "padding packet");
        vk::check(ts::FILL_PACKET.len() == 188 && ts::FILL_PACKET.iter().all(|x| *x == 0xff), "padding");
        vk::check((ts::get_pid(&p) < ts::PID_NONE) & (ts::PID_NONE == 0x2000), "no packet has the absent identifier");
    }

    fn h_c48_access() {
        vk::covers("typed,other,missing");
        // three descriptors out of four kinds, then one of them changed
        let mut d = Descriptors::default();
        let mut want: Vec<Vec<u8>> = vec![];
        for _ in 0..vk::pick(0, 3) {
            match vk::fork(4) {
                0 => { let (a, b) = vk::twin::<1>(); d.push(Desc52 { tag: a[0] }); want.push(vec![0x52, 1, b[0]]) }
                1 => { let (a, b) = vk::twin::<3>(); d.push(Desc41 { items: vec![Desc41i { service_id: (&a[..]).get_u16(), service_type: a[2] }] }); want.push(vec![0x41, 3, b[0], b[1], b[2]]) }
                2 => { let (a, b) = vk::twin_bytes(2); d.push(DescRaw { tag: 0x80, data: a }); want.push(vec![0x80, 2, b[0], b[1]]) }
                _ => { let (a, b) = vk::twin::<3>(); d.push(Desc0E { bitrate: (a[0] as u32 & 63) << 16 | (a[1] as u32) << 8 | a[2] as u32 }); want.push(vec![0x0e, 3, b[0] | 0xc0, b[1], b[2]]) }
            }
        }
        let n = want.len();
        vk::check((d.len() == n) & (d.is_empty() == (n == 0)), "number of descriptors");
        let i = vk::fork(5);
        if i >= n {
            vk::cover("missing");
            vk::check(d.get(i).is_none(), "nothing beyond the end");
            vk::check(d.get_mut(i).is_none(), "nothing to change beyond the end");
        } else {
            let tag = d.get(i).unwrap().tag();
            vk::check(tag == want[i][0], "tag at its place");
            let (a, b) = vk::twin::<1>();
            vk::cover(if tag == 0x80 { "other" } else { "typed" });
            match tag {
                0x52 => {
                    vk::check(d.get(i).unwrap().downcast_ref::<Desc52>().tag == want[i][2], "field");
                    d.get_mut(i).unwrap().downcast_mut::<Desc52>().tag = a[0];
                    want[i][2] = b[0];
                }
                0x41 => {
                    let x = d.get(i).unwrap().downcast_ref::<Desc41>();
                    vk::check((x.items.len() == 1) && x.items[0].service_type == want[i][4], "field");
                    d.get_mut(i).unwrap().downcast_mut::<Desc41>().items[0].service_type = a[0];
                    want[i][4] = b[0];
                }
                0x80 => {
                    vk::check(d.get(i).unwrap().downcast_ref::<DescRaw>().data[..] == want[i][2..], "data");
                    d.get_mut(i).unwrap().downcast_mut::<DescRaw>().data.push(a[0]);
                    want[i][1] = 3;
                    want[i].push(b[0]);
                }
                _ => {
                    let w = &want[i];
                    vk::check(d.get(i).unwrap().downcast_ref::<Desc0E>().bitrate == (w[2] as u32 & 63) * 65536 + w[3] as u32 * 256 + w[4] as u32, "field");
                    d.get_mut(i).unwrap().downcast_mut::<Desc0E>().bitrate = a[0] as u32;
                    want[i][2..].copy_from_slice(&[0xc0, 0, b[0]]);
                }
            }
        }
        vk::check(d.iter().count() == n, "number visited");
        for (x, w) in d.iter().zip(&want) { vk::check(x.tag() == w[0], "visited in order") }
        let out = written(&d);
        vk::observe_bytes(&out);
        vk::check(out == want.concat(), "only the changed one is different");
    }

    fn h_c48_append() {
        vk::covers("done");
        // reading a second loop adds to the first
        let (a, b) = (vk::pick(0, vk::bound(3, 4)), vk::pick(0, vk::bound(3, 4)));
        let (v, w) = (vk::bytes(a), vk::bytes(b));
        let mut d = parsed(&v);
        let first = d.len();
        d.push(Desc52 { tag: 7 });
        d.parse(&w);
        let (x, y) = (plain(&parsed(&v)), plain(&parsed(&w)));
        vk::cover("done");
        vk::check(d.len() == first + 1 + parsed(&w).len(), "all present");
        let mut want = x;
        want.extend_from_slice(&[0x52, 1, 7]);
        want.extend_from_slice(&y);
        vk::check(plain(&d) == want, "one after the other");
    }

    fn h_c49_bits() {
        vk::covers("done");
        // fields within their width, for three sizes of the result
        match vk::fork(6) {
            0 => {
                let (a, b, c) = (any(1), any(3), any(4));
                vk::check(set_bits!(8, a, 1, b, 3, c, 4) as u32 == a as u32 * 128 + b as u32 * 16 + c as u32, "in order");
            }
            1 => {
                let (a, b) = (any(2), any(5));
                vk::check(set_bits!(8, a, 2, b, 5) as u32 == a as u32 * 64 + b as u32 * 2, "the rest is zero");
            }
            2 => {
                let (a, b, c, d) = (vk::bits(1) as u16, vk::bits(5) as u16, vk::bits(9) as u16, vk::bits(1) as u16);
                vk::check(set_bits!(16, a, 1, b, 5, c, 9, d, 1) as u32 == a as u32 * 32768 + b as u32 * 1024 + c as u32 * 2 + d as u32, "in order");
            }
            3 => {
                let (a, b) = (vk::bits(12) as u32, vk::bits(20) as u32);
                vk::check(set_bits!(32, a, 12, b, 20) as u64 == a as u64 * 1048576 + b as u64, "in order");
            }
            4 => {
                let (a, b) = (any(3), any(2));
                vk::check(set_bits!(5, a, 3, b, 2) as u32 == a as u32 * 4 + b as u32, "smaller than the type");
            }
            _ => {
                let a = vk::u8();
                vk::check(set_bits!(8, a, 8) == a, "one field");
                let f: Vec<u8> = (0..8).map(|_| any(1)).collect();
                let sum: u32 = f.iter().fold(0, |s, x| s * 2 + *x as u32);
                vk::check(set_bits!(8, f[0], 1, f[1], 1, f[2], 1, f[3], 1, f[4], 1, f[5], 1, f[6], 1, f[7], 1) as u32 == sum, "single bits");
            }
        }
        vk::cover("done");
    }
}
