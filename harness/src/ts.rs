//! Transport packet header, clock reference, packet printing, byte access.

use crate::vk;
use mpegts::bytes::Bytes;
use mpegts::ts;
use std::fmt;

/// Ticks of the 27 MHz clock before it wraps.
const CLOCK: u64 = (1 << 33) * 300;

/// What a packet prints as, for comparison with the library.
#[allow(dead_code, non_snake_case)]
mod printed {
    #[derive(Debug)]
    pub struct TsPacket<A: std::fmt::Debug> {
        pub sync: bool,
        pub error: u8,
        pub pusi: bool,
        pub pid: u16,
        pub scrambling: u8,
        pub adaptation: A,
        pub payload: bool,
        pub cc: u8,
    }

    pub mod empty {
        #[derive(Debug)]
        pub struct TsAdaptation { pub length: u8 }
    }

    pub mod short {
        #[derive(Debug)]
        pub struct TsAdaptation {
            pub length: u8,
            pub discontinuity: bool,
            pub random_access: bool,
            pub es_priority: bool,
            pub PCR_flag: bool,
            pub OPCR_flag: bool,
            pub splicing_point: bool,
            pub private_data: bool,
            pub af_extension: bool,
        }
    }

    pub mod full {
        #[derive(Debug)]
        pub struct TsAdaptation {
            pub length: u8,
            pub discontinuity: bool,
            pub random_access: bool,
            pub es_priority: bool,
            pub PCR_flag: bool,
            pub OPCR_flag: bool,
            pub splicing_point: bool,
            pub private_data: bool,
            pub af_extension: bool,
            pub pcr: u64,
        }
    }
}

fn bit(b: u8, n: u32) -> bool { (b >> n) % 2 == 1 }

fn printed_adaptation(p: &[u8; 188]) -> String {
    let length = p[4];
    let f = p[5];
    if !bit(p[3], 5) {
        format!("{:?}", false)
    } else if length == 0 {
        format!("{:?}", printed::empty::TsAdaptation { length })
    } else if !bit(f, 4) {
        format!("{:?}", printed::short::TsAdaptation {
            length, discontinuity: bit(f, 7), random_access: bit(f, 6), es_priority: bit(f, 5), PCR_flag: false,
            OPCR_flag: bit(f, 3), splicing_point: bit(f, 2), private_data: bit(f, 1), af_extension: bit(f, 0),
        })
    } else {
        let base = p[6..11].iter().fold(0u64, |a, b| a * 256 + *b as u64) >> 7;
        let ext = (p[10] as u64 % 2) * 256 + p[11] as u64;
        format!("{:?}", printed::full::TsAdaptation {
            length, discontinuity: bit(f, 7), random_access: bit(f, 6), es_priority: bit(f, 5), PCR_flag: true,
            OPCR_flag: bit(f, 3), splicing_point: bit(f, 2), private_data: bit(f, 1), af_extension: bit(f, 0),
            pcr: base * 300 + ext,
        })
    }
}

struct Verbatim(String);

impl fmt::Debug for Verbatim {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) }
}

fn printed_packet(p: &[u8; 188]) -> String {
    format!("{:?}", printed::TsPacket {
        sync: p[0] == 0x47,
        error: p[1] >> 7,
        pusi: bit(p[1], 6),
        pid: (p[1] as u16 % 32) * 256 + p[2] as u16,
        scrambling: p[3] >> 6,
        adaptation: Verbatim(printed_adaptation(p)),
        payload: bit(p[3], 4),
        cc: p[3] % 16,
    })
}

harness! {
    fn h_c01_queries() {
        vk::covers("done");
        let (p, q): ([u8; 188], _) = vk::twin();
        vk::check(ts::is_sync(&p) == (q[0] == 0x47), "sync byte");
        vk::check(ts::is_error(&p) == (q[1] >> 7 == 1), "error indicator");
        vk::check(ts::is_pusi(&p) == ((q[1] >> 6) & 1 == 1), "payload unit start");
        vk::check(ts::get_pid(&p) == ((q[1] as u16 & 0x1f) << 8 | q[2] as u16), "packet identifier");
        vk::check(ts::get_pid(&p) < ts::PID_NONE, "packet identifier range");
        vk::check(ts::is_scrambled(&p) == (q[3] >> 6 != 0), "scrambling");
        vk::check(ts::is_adaptation(&p) == ((q[3] >> 5) & 1 == 1), "adaptation flag");
        vk::check(ts::is_payload(&p) == ((q[3] >> 4) & 1 == 1), "payload flag");
        vk::check(ts::get_cc(&p) == q[3] % 16, "continuity counter");
        vk::check(ts::get_adaptation_size(&p) == q[4], "adaptation length");
        vk::check(p == q, "queries leave the packet alone");
        vk::observe(ts::get_pid(&p) as u64);
        vk::cover("done");
    }

    fn h_c01_setters() {
        vk::covers("pid,cc,payload0,payload1,pusi0,pusi1");
        let (mut q, p): ([u8; 188], _) = vk::twin();
        let mut e = p;
        match vk::fork(6) {
            0 => {
                let pid = vk::bits(13) as u16;
                ts::set_pid(&mut q, vk::same(pid as u64) as u16);
                e[1] = p[1] & 0xe0 | (pid >> 8) as u8;
                e[2] = pid as u8;
                vk::check(ts::get_pid(&q) == pid, "pid reads back");
                vk::cover("pid");
            }
            1 => {
                let cc = vk::bits(4) as u8;
                ts::set_cc(&mut q, vk::same(cc as u64) as u8);
                e[3] = p[3] & 0xf0 | cc;
                vk::check(ts::get_cc(&q) == cc, "counter reads back");
                vk::cover("cc");
            }
            2 => {
                ts::set_payload_0(&mut q);
                e[3] = p[3] & 0xef;
                vk::check(!ts::is_payload(&q), "payload cleared");
                vk::cover("payload0");
            }
            3 => {
                ts::set_payload_1(&mut q);
                e[3] = p[3] | 0x10;
                vk::check(ts::is_payload(&q), "payload set");
                vk::cover("payload1");
            }
            4 => {
                ts::set_pusi_0(&mut q);
                e[1] = p[1] & 0xbf;
                vk::check(!ts::is_pusi(&q), "start cleared");
                vk::cover("pusi0");
            }
            _ => {
                ts::set_pusi_1(&mut q);
                e[1] = p[1] | 0x40;
                vk::check(ts::is_pusi(&q), "start set");
                vk::cover("pusi1");
            }
        }
        vk::observe_bytes(&q[..8]);
        vk::check(q == e, "only the field changes");
    }

    fn h_c02_offset() {
        vk::covers("none,plain,adaptation,full");
        let (p, q): ([u8; 188], _) = vk::twin();
        let off = ts::get_payload_offset(&p);
        vk::observe(off as u64);
        let payload = q[3] & 0x10 != 0;
        let adaptation = q[3] & 0x20 != 0;
        if !payload {
            vk::check(off == 0, "no payload: offset 0");
            vk::cover("none");
        } else if !adaptation {
            vk::check(off == 4, "no adaptation: offset 4");
            vk::cover("plain");
        } else if q[4] as u32 + 5 < 188 {
            vk::check(off as u32 == q[4] as u32 + 5, "offset after adaptation");
            vk::cover("adaptation");
        } else {
            vk::check(off == 0, "adaptation leaves no payload: offset 0");
            vk::cover("full");
        }
    }

    fn h_c03_write() {
        vk::covers("done");
        let base = vk::bits(33);
        let ext = vk::range(0, 299);
        let (mut p, q): ([u8; 188], _) = vk::twin();
        let pcr = vk::same(base) * 300 + vk::same(ext);
        ts::set_pcr(&mut p, pcr);
        let mut e = q;
        e[6] = (base >> 25) as u8;
        e[7] = (base >> 17) as u8;
        e[8] = (base >> 9) as u8;
        e[9] = (base >> 1) as u8;
        e[10] = (base as u8 & 1) << 7 | 0x7e | (ext >> 8) as u8;
        e[11] = ext as u8;
        vk::observe_bytes(&p[..13]);
        vk::check(p == e, "layout of the clock reference");
        vk::check(ts::get_pcr(&p) == pcr, "clock reference reads back");
        vk::cover("done");
    }

    fn h_c03_read() {
        vk::covers("present,absent");
        let (p, q): ([u8; 188], _) = vk::twin();
        let base = (q[6] as u64) << 25 | (q[7] as u64) << 17 | (q[8] as u64) << 9 | (q[9] as u64) << 1 | (q[10] as u64) >> 7;
        let ext = (q[10] as u64 & 1) << 8 | q[11] as u64;
        vk::check(ts::get_pcr(&p) == base * 300 + ext, "value of the clock reference");
        vk::observe(ts::get_pcr(&p));
        let want = (q[3] >> 5) % 2 == 1 && q[4] >= 7 && (q[5] >> 4) % 2 == 1;
        vk::check(ts::is_pcr(&p) == want, "presence of the clock reference");
        if want { vk::cover("present") } else { vk::cover("absent") }
    }

    fn h_c04_delta() {
        vk::covers("forward,wrap");
        let a = vk::range(0, CLOCK - 1);
        let d = vk::range(0, CLOCK - 1);
        // b lies d ticks after a
        let wraps = a + d >= CLOCK;
        let b = if wraps { a + d - CLOCK } else { a + d };
        let got = ts::pcr_delta(vk::same(a), vk::same(b));
        vk::observe(got);
        if !wraps {
            vk::check(got == d, "distance without wrap");
            vk::cover("forward");
        } else {
            vk::cover("wrap");
            vk::check((got == d) | (got + 1 == d), "distance across the wrap is at most one tick short");
            vk::check(got == d, "distance across the wrap is exact");
        }
    }

    fn h_c04_stc() {
        vk::covers("inside,wrapped");
        // the extrapolated step is q ticks and r/last_bytes of a tick
        let last_bytes = [188, 376, 1504, 7708, 18800, 100_000][vk::fork(vk::bound(4, 6))];
        let bytes = [0, 1, 188, 1316, 7520, 18612, 1 << 20][vk::fork(vk::bound(6, 7))];
        let last_delta = vk::range(0, 27_000_000);
        let last_pcr = vk::range(0, CLOCK - 1);
        let step = vk::same(last_delta) * bytes / last_bytes;
        let wraps = vk::fork(2) == 1;
        vk::assume((last_pcr + step >= CLOCK) == wraps);
        let stc = ts::pcr_to_stc(vk::same(last_pcr), bytes, last_delta, last_bytes);
        vk::observe(stc);
        vk::cover(if wraps { "wrapped" } else { "inside" });
        vk::check(stc == if wraps { last_pcr + step - CLOCK } else { last_pcr + step }, "linear extrapolation");
    }

    fn h_c04_stc_total() {
        vk::covers("done");
        let last_bytes = vk::range(1, (1 << 22) - 1);
        let last_delta = vk::range(0, CLOCK - 1);
        let bytes = vk::range(0, (1 << 22) - 1);
        let last_pcr = vk::range(0, CLOCK - 1);
        let stc = ts::pcr_to_stc(last_pcr, bytes, last_delta, last_bytes);
        vk::check(stc < CLOCK, "estimate inside the clock range");
        vk::cover("done");
    }

    fn h_c04_jitter() {
        vk::covers("early,late,wrap up,wrap down");
        let stc = vk::range(0, CLOCK - 1);
        // pcr - stc within one second either way
        let mag = vk::range(0, 27_000_000);
        let ns = (mag * 1000 / 27) as i64;
        let (pcr, want, label) = match vk::fork(4) {
            0 => {
                vk::assume(stc + mag < CLOCK);
                (stc + mag, ns, "late")
            }
            1 => {
                vk::assume(stc + mag >= CLOCK);
                (stc + mag - CLOCK, ns, "wrap up")
            }
            2 => {
                vk::assume(stc >= mag);
                (stc - mag, -ns, "early")
            }
            _ => {
                vk::assume(stc < mag);
                (stc + CLOCK - mag, -ns, "wrap down")
            }
        };
        let got = ts::pcr_jitter_ns(vk::same(pcr), vk::same(stc));
        vk::observe(got as u64);
        vk::cover(label);
        vk::check(got == want, "signed distance in nanoseconds");
    }

    fn h_c04_total() {
        vk::covers("jitter,units,bitrate,no bitrate");
        match vk::fork(3) {
            0 => {
                let a = vk::range(0, CLOCK - 1);
                let b = vk::range(0, CLOCK - 1);
                let j = ts::pcr_jitter_ns(a, b);
                let limit = (CLOCK / 27 * 1000 + 1000) as i64;
                vk::check((j < limit) & (j > -limit), "jitter within one period");
                vk::check(ts::pcr_delta(a, b) < CLOCK, "distance within one period");
                vk::cover("jitter");
            }
            1 => {
                let us = vk::range(0, CLOCK / 27 - 1);
                let r = vk::range(0, 26);
                vk::check(ts::pcr_to_us(vk::same(us) * 27 + r) == us, "microseconds");
                let ms = vk::range(0, CLOCK / 27000 - 1);
                let r = vk::range(0, 26999);
                vk::check(ts::pcr_to_ms(vk::same(ms) * 27000 + r) == ms, "milliseconds");
                vk::cover("units");
            }
            _ => {
                let delta = vk::range(0, CLOCK - 1);
                let bytes = vk::range(0, 1 << 40);
                let rate = ts::pcr_delta_bitrate(delta, bytes);
                vk::observe(rate);
                if delta < 27000 {
                    vk::check(rate == 0, "no bitrate for a very short interval");
                    vk::cover("no bitrate");
                } else {
                    let ms = delta / 27000;
                    vk::check(rate == bytes * 8 / ms, "bits per millisecond");
                    vk::cover("bitrate");
                }
            }
        }
    }

    fn h_c45_header() {
        vk::covers("adaptation,plain");
        let (mut p, mut q): ([u8; 188], _) = vk::twin();
        if vk::fork(2) == 0 {
            // every header, no adaptation field
            p[3] &= 0xdf;
            q[3] &= 0xdf;
            vk::cover("plain");
        } else {
            // every packet identifier and counter, a fixed adaptation field
            let a = [0x47, 0x40, 0, 0x30, 7, 0x10, 0x12, 0x34, 0x56, 0x78, 0xfe, 0x12];
            p[4..12].copy_from_slice(&a[4..]);
            q[4..12].copy_from_slice(&a[4..]);
            p[3] = p[3] & 0x0f | 0x30;
            q[3] = q[3] & 0x0f | 0x30;
            vk::cover("adaptation");
        }
        let got = format!("{:?}", ts::TsPacket::new(&p));
        let want = printed_packet(&q);
        vk::observe(got.len() as u64);
        vk::check(got == want, "printed packet");
    }

    fn h_c45_adaptation() {
        vk::covers("absent,empty,flags,clock");
        let (mut p, mut q): ([u8; 188], _) = vk::twin();
        match vk::fork(4) {
            0 => {
                p[3] &= 0xdf;
                q[3] &= 0xdf;
                vk::cover("absent");
            }
            1 => {
                p[3] |= 0x20;
                q[3] |= 0x20;
                p[4] = 0;
                q[4] = 0;
                vk::cover("empty");
            }
            2 => {
                p[3] |= 0x20;
                q[3] |= 0x20;
                vk::assume(q[4] > 0);
                // the clock is fixed, every flag and length
                for x in 6..12 {
                    p[x] = 0x55;
                    q[x] = 0x55;
                }
                vk::cover("flags");
            }
            _ => {
                p[3] |= 0x20;
                q[3] |= 0x20;
                p[4] = 183;
                q[4] = 183;
                p[5] = 0x50;
                q[5] = 0x50;
                vk::cover("clock");
            }
        }
        let got = format!("{:?}", ts::TsAdaptation::new(&p));
        let want = printed_adaptation(&q);
        vk::observe(got.len() as u64);
        vk::check(got == want, "printed adaptation field");
    }

    fn h_c44_bytes() {
        vk::covers("u16,u24,u32");
        let n = vk::pick(2, vk::bound(8, 16));
        let (b, o) = vk::twin_bytes(n);
        let mut w = vk::copy(&b);
        let at = vk::fork(n - 1);
        let room = n - at;
        {
            let v = vk::u16();
            let (s, o) = (&b[at..], &o[at..]);
            vk::check(s.get_u16() as u32 == o[0] as u32 * 256 + o[1] as u32, "read 16");
            w[at..].set_u16(v);
            vk::check((w[at] == (v / 256) as u8) & (w[at + 1] == v as u8), "write 16");
            vk::check((w[..at] == b[..at]) & (w[at + 2..] == b[at + 2..]), "write 16 leaves the rest");
            vk::check(w[at..].get_u16() == v, "read back 16");
            vk::cover("u16");
        }
        if room >= 3 {
            w.copy_from_slice(&b);
            let v = vk::u24();
            let (s, o) = (&b[at..], &o[at..]);
            vk::check(s.get_u24() == (o[0] as u32 * 256 + o[1] as u32) * 256 + o[2] as u32, "read 24");
            w[at..].set_u24(v);
            vk::check((w[at] == (v >> 16) as u8) & (w[at + 1] == (v >> 8) as u8) & (w[at + 2] == v as u8), "write 24");
            vk::check((w[..at] == b[..at]) & (w[at + 3..] == b[at + 3..]), "write 24 leaves the rest");
            vk::check(w[at..].get_u24() == v, "read back 24");
            vk::cover("u24");
        }
        if room >= 4 {
            w.copy_from_slice(&b);
            let v = vk::u32();
            let (s, o) = (&b[at..], &o[at..]);
            vk::check(s.get_u32() == u32::from_be_bytes([o[0], o[1], o[2], o[3]]), "read 32");
            w[at..].set_u32(v);
            vk::check(w[at..at + 4] == v.to_be_bytes(), "write 32");
            vk::check((w[..at] == b[..at]) & (w[at + 4..] == b[at + 4..]), "write 32 leaves the rest");
            vk::check(w[at..].get_u32() == v, "read back 32");
            vk::observe(w[at..].get_u32() as u64);
            vk::cover("u32");
        }
    }
}
