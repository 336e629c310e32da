//! Section reassembly, packetizing, checksum, comparison.

use crate::vk;
use mpegts::psi::{crc32b, Psi};

/// CRC-32/MPEG-2, bit by bit.
pub fn crc_oracle(data: &[u8]) -> u32 {
    let mut r = 0xffff_ffffu32;
    for b in data {
        r ^= (*b as u32) << 24;
        for _ in 0..8 {
            let top = (r >> 31).wrapping_neg();
            r = (r << 1) ^ (0x04c1_1db7 & top);
        }
    }
    r
}

/// A valid section of n bytes with any contents.
pub fn section(n: usize) -> Vec<u8> {
    let mut s = vk::bytes(n);
    s[1] = s[1] & 0xf0 | ((n - 3) >> 8) as u8;
    s[2] = (n - 3) as u8;
    let c = crc32b(&s[..n - 4]);
    s[n - 4..].copy_from_slice(&c.to_be_bytes());
    s
}

/// A packet with this payload. Payloads shorter than 184 bytes are preceded by
/// an adaptation field with any contents.
pub fn packet(start: bool, cc: u8, payload: &[u8]) -> [u8; 188] {
    let mut p: [u8; 188] = vk::array();
    let n = payload.len();
    p[0] = 0x47;
    p[1] = p[1] & 0x1f | (start as u8) << 6;
    p[3] = cc & 15 | if n < 184 { 0x30 } else { 0x10 };
    if n < 184 { p[4] = 183 - n as u8 }
    p[188 - n..].copy_from_slice(payload);
    p
}

/// The first packet of a section: pointer field, the tail of the section
/// before, the start of the new one.
pub fn start_packet(cc: u8, tail: &[u8], head: &[u8]) -> [u8; 188] {
    let mut v = Vec::with_capacity(184);
    v.push(tail.len() as u8);
    v.extend_from_slice(tail);
    v.extend_from_slice(head);
    packet(true, cc, &v)
}

/// A packet without payload, any counter.
pub fn empty_packet() -> [u8; 188] {
    let mut p: [u8; 188] = vk::array();
    p[3] &= 0xef;
    p
}

fn psi(buffer: Vec<u8>, size: usize, cc: u8) -> Psi {
    let mut p = Psi::default();
    p.buffer = buffer;
    p.size = size;
    p.cc = cc;
    p
}

/// A reassembler holding `len` bytes, of a section announced as `size` bytes
/// (0: the length field is not complete).
fn state(len: usize, size: usize) -> Psi {
    let mut b = vk::bytes(len);
    if len >= 3 {
        b[1] = b[1] & 0xf0 | ((size - 3) >> 8) as u8;
        b[2] = (size - 3) as u8;
        psi(b, size, vk::bits(4) as u8)
    } else {
        psi(b, 0, vk::bits(4) as u8)
    }
}

/// Some reassembler state: empty, header incomplete, part of a section, a
/// whole one, a whole one and the start of another.
fn any_state() -> Psi {
    match vk::fork(6) {
        0 => state(0, 0),
        1 => state(1, 0),
        2 => state(2, 0),
        3 => state(9, 40),
        4 => state(16, 16),
        _ => state(20, 14),
    }
}

const MAX_SECTION: usize = 3 + 0xfff;

/// What holds of every state the reassembler can be in.
fn consistent(p: &Psi) {
    vk::check(p.cc < 16, "counter in range");
    vk::check(p.buffer.len() <= MAX_SECTION + 184, "collected data bounded");
    if p.buffer.len() < 3 {
        vk::check(p.size == 0, "no size before the length field is there");
    } else {
        let n = 3 + ((p.buffer[1] as usize & 15) << 8 | p.buffer[2] as usize);
        vk::check(p.size == n, "size is the announced one");
    }
}

fn feed(p: &mut Psi, ts: &[u8; 188]) {
    p.mux(ts);
}

/// Nothing was reported complete.
fn not_complete(p: &Psi) -> bool { !p.check() }

fn holds(p: &Psi, s: &[u8]) -> bool {
    p.size == s.len() && p.buffer.len() >= s.len() && p.buffer[..s.len()] == *s
}

/// Section sizes: a range, or (without its end) those next to full packets.
fn packet_size() -> usize {
    let lo = vk::param(0, 8) as usize;
    let hi = vk::param(1, 1024) as usize;
    if hi > 0 { return vk::pick(lo, hi) }
    let k = vk::pick(lo, 22);
    184 * k + vk::pick(0, 4) - 2
}

harness! {
    fn h_c05_packet() {
        vk::covers("none,fresh,continued,kept");
        // any packet at all, small states
        let mut p = match vk::fork(vk::bound(3, 4)) {
            0 => state(0, 0),
            1 => state(9, 40),
            2 => state(20, 14),
            _ => state(2, 0),
        };
        let len = p.buffer.len();
        let ts: [u8; 188] = vk::array();
        feed(&mut p, &ts);
        vk::observe(p.size as u64);
        if p.buffer.is_empty() { vk::cover("none") }
        else if p.buffer.len() == len { vk::cover("kept") }
        else if ts[1] & 0x40 != 0 { vk::cover("fresh") }
        else { vk::cover("continued") }
        consistent(&p);
    }

    fn h_c05_step() {
        vk::covers("done");
        // one step from large states
        let size = [8, 183, 184, 1024, 4095, MAX_SECTION][vk::fork(6)];
        let len = match vk::fork(vk::bound(5, 8)) {
            0 => 3,
            1 => size - 1,
            2 => size,
            3 => size + 1,
            4 => size + 183,
            5 => size / 2 + 2,
            6 => size + 2,
            _ => size + 90,
        };
        let len = match vk::fork(3) {
            0 => len,
            1 => (MAX_SECTION + size).min(MAX_SECTION + 184),
            _ => MAX_SECTION + 184,
        };
        let mut p = state(len, size);
        let mut ts: [u8; 188] = vk::array();
        let mut at = 4;
        let af = vk::fork(4);
        if af == 0 {
            ts[3] &= 0xdf;
        } else {
            ts[3] |= 0x20;
            ts[4] = [0, 90, 182][af - 1];
            at = 5 + ts[4] as usize;
        }
        if ts[1] & 0x40 != 0 {
            let ptr = vk::fork(vk::bound(5, 8));
            ts[at] = [0, 1, (187 - at).saturating_sub(1) as u8, (187 - at) as u8, 255, 2, 90, 182][ptr];
        }
        feed(&mut p, &ts);
        vk::cover("done");
        consistent(&p);
    }

    fn h_c05_history() {
        vk::covers("done");
        let mut p = Psi::default();
        for _ in 0..vk::bound(3, 4) {
            let at = [4, 100, 187][vk::fork(3)];
            let mut ts: [u8; 188] = vk::array();
            if at == 4 {
                ts[3] = ts[3] & 0x0f | 0x10;
            } else {
                ts[3] = ts[3] & 0x0f | 0x30;
                ts[4] = at as u8 - 5;
            }
            if ts[1] & 0x40 != 0 {
                ts[at] = [0, 40, 1][vk::fork(vk::bound(2, 3))];
                // a short or a long section
                if at == 4 {
                    let s = at + 1 + ts[at] as usize;
                    ts[s + 1] = 0xb0;
                    ts[s + 2] = [5, 250][vk::fork(2)];
                }
            } else if at == 4 {
                // may become a header
                for x in 4..12 { ts[x] = 0x10 }
            }
            feed(&mut p, &ts);
            let n = p.buffer.len();
            vk::observe(n as u64);
            consistent(&p);
        }
        vk::cover("done");
    }

    fn h_c06_roundtrip() {
        vk::covers("one packet,many packets");
        let n = packet_size();
        let s = section(n);
        let mut out = psi(s.clone(), n, vk::bits(4) as u8);
        out.pid = vk::bits(13) as u16;
        let mut ts = Vec::new();
        out.demux(&mut ts);
        let count = ts.len() / 188;
        let mut p = if n < 400 || n % 64 == 0 { any_state() } else { Psi::default() };
        for i in 0..count {
            p.mux(&ts[i * 188..i * 188 + 188]);
            if i + 1 < count {
                vk::check(not_complete(&p), "not complete before the last packet");
            }
        }
        vk::cover(if count == 1 { "one packet" } else { "many packets" });
        vk::observe(count as u64);
        vk::observe(p.size as u64);
        vk::check(p.check(), "complete and valid after the last packet");
        vk::check(holds(&p, &s), "section bytes unchanged");
        vk::check(p.buffer.len() == n, "nothing but the section is kept");
    }

    fn h_c07_fresh() {
        vk::covers("done");
        // a section made for a table, nothing else set
        let (id, version) = (vk::u8(), vk::u8());
        let n = vk::pick(3, 12);
        let mut s = Psi::new(id, n, version);
        vk::check((s.buffer.len() == n) & (s.size == 0), "header of the length asked for");
        s.finalize();
        let mut ts = Vec::new();
        s.demux(&mut ts);
        let mut want = vec![id, 0xb0, n as u8 + 1];
        want.resize(n, 0);
        if n >= 6 { want[5] = 0xc1 | version << 1 & 0x3e }
        let c = crc_oracle(&want);
        want.extend_from_slice(&c.to_be_bytes());
        vk::check((ts.len() == 188) && (ts[..5] == [0x47, 0x40, 0, 0x10, 0]) && (ts[5..n + 9] == want[..]), "first packet of the first identifier");
        vk::check(s.cc == 1, "counter goes on");
        vk::cover("done");
    }

    fn h_c07_packets() {
        vk::covers("one packet,many packets");
        let n = packet_size();
        let pid = vk::bits(13) as u16;
        let cc = vk::bits(4) as u8;
        let prior = vk::bytes([0, 188, 1, 200][n % 4]);
        let mut ts = prior.clone();
        // two sections one after another
        let first = vk::bytes(n);
        let second = vk::bytes(20);
        let mut out = psi(first.clone(), n, cc);
        out.pid = pid;
        out.demux(&mut ts);
        let mut out2 = psi(second.clone(), 20, out.cc);
        out2.pid = pid;
        out2.demux(&mut ts);
        vk::check(ts[..prior.len()] == prior[..], "existing output kept");
        let body = &ts[prior.len()..];
        let count = 1 + (n + 183) / 184 - if n % 184 == 0 { 0 } else if (n + 1) <= (n / 184 + 1) * 184 { 1 } else { 0 };
        vk::check(body.len() == (count + 1) * 188, "number of packets is minimal");
        vk::cover(if count == 1 { "one packet" } else { "many packets" });
        let mut at = 0;
        for i in 0..count {
            let p = &body[i * 188..i * 188 + 188];
            vk::check(p[0] == 0x47, "sync byte");
            vk::check(p[1] == (if i == 0 { 0x40 } else { 0 }) | (pid >> 8) as u8, "start flag and identifier");
            vk::check(p[2] == pid as u8, "identifier");
            vk::check(p[3] == 0x10 | (cc.wrapping_add(i as u8) & 15), "payload only, counter");
            let mut x = 4;
            if i == 0 {
                vk::check(p[4] == 0, "pointer is zero");
                x = 5;
            }
            let k = (n - at).min(188 - x);
            vk::check(p[x..x + k] == first[at..at + k], "section bytes");
            at += k;
            vk::check(p[x + k..].iter().fold(true, |a, b| a & (*b == 0xff)), "stuffing");
        }
        vk::check(at == n, "whole section written");
        let p = &body[count * 188..];
        vk::check((p[3] & 15 == cc.wrapping_add(count as u8) & 15) & (p[1] & 0x40 != 0), "counter continues across sections");
        vk::check(p[5..25] == second[..], "second section");
        vk::check(out2.cc == cc.wrapping_add(count as u8 + 1) & 15, "counter left for the next section");
    }

    fn h_c08_pieces() {
        vk::covers("one piece,header cut,several,gap packets,stuffing");
        let n = vk::pick(8, vk::bound(11, 13));
        let s = section(n);
        let mut p = any_state();
        let mut cc = vk::bits(4) as u8;
        let gap = vk::fork(2) == 1;
        let stuffing = [0, 3][vk::fork(2)];
        let mut at = 0;
        let mut pieces = 0;
        while at < n {
            let k = vk::pick(1, n - at);
            if pieces == 0 && k < 3 && k < n { vk::cover("header cut") }
            let last = at + k == n;
            let mut v = s[at..at + k].to_vec();
            if last { v.resize(k + stuffing, 0xff) }
            let ts = if at == 0 { start_packet(cc, &[], &v) } else { packet(false, cc, &v) };
            p.mux(&ts);
            at += k;
            pieces += 1;
            cc = (cc + 1) & 15;
            if !last {
                vk::check(not_complete(&p), "not complete before its last byte");
                if gap {
                    p.mux(&empty_packet());
                    vk::cover("gap packets");
                    vk::check(not_complete(&p), "not complete before its last byte (packet without payload)");
                }
            }
        }
        vk::cover(if pieces == 1 { "one piece" } else { "several" });
        if stuffing > 0 { vk::cover("stuffing") }
        vk::observe(p.size as u64);
        vk::check(p.check(), "complete after the last piece");
        vk::check(holds(&p, &s), "section bytes unchanged");
    }

    fn h_c08_large() {
        vk::covers("two,three");
        // long sections in two or three pieces, cut anywhere
        let n = [160, 200, 366, 367, 368, 551][vk::fork(vk::bound(4, 6))];
        let s = section(n);
        let mut p = Psi::default();
        let mut cc = vk::bits(4) as u8;
        let lo = n.saturating_sub(184 * 2).max(1);
        let step = vk::bound(5, 1);
        let first = lo + step * vk::fork((183.min(n - 1) - lo) / step + 1);
        let rest = n - first;
        let second = if rest <= 184 { rest } else { (rest - 184).max(1) + [0, (184 - (rest - 184)) / 2, 184 - (rest - 184)][vk::fork(3)] };
        p.mux(&start_packet(cc, &[], &s[..first]));
        vk::check(not_complete(&p), "not complete before its last byte");
        cc = (cc + 1) & 15;
        p.mux(&packet(false, cc, &s[first..first + second]));
        if first + second < n {
            vk::check(not_complete(&p), "not complete before its last byte");
            cc = (cc + 1) & 15;
            p.mux(&packet(false, cc, &s[first + second..]));
            vk::cover("three");
        } else {
            vk::cover("two");
        }
        vk::check(p.check(), "complete after the last piece");
        vk::check(holds(&p, &s), "section bytes unchanged");
    }

    fn h_c09_shared() {
        vk::covers("direct,more pieces,header cut,third section");
        let a = section(vk::pick(9, vk::bound(11, 14)));
        let b = section(vk::pick(9, vk::bound(11, 14)));
        let c = section(10);
        let mut cc = vk::bits(4) as u8;
        let mut p = any_state();
        // a: some bytes first, the rest before the pointer of the shared packet
        let a1 = vk::pick(1, a.len() - 1);
        p.mux(&start_packet(cc, &[], &a[..a1]));
        vk::check(not_complete(&p), "first section not complete yet");
        let b1 = vk::pick(1, b.len() - 1);
        if b1 < 3 { vk::cover("header cut") }
        cc = (cc + 1) & 15;
        p.mux(&start_packet(cc, &a[a1..], &b[..b1]));
        vk::check(p.check() && holds(&p, &a), "first section complete with its own bytes");
        let third = vk::fork(2) == 1;
        if third {
            // b ends in a packet that starts c
            cc = (cc + 1) & 15;
            p.mux(&start_packet(cc, &b[b1..], &c[..4]));
            vk::check(p.check() && holds(&p, &b), "second section complete with its own bytes");
            cc = (cc + 1) & 15;
            p.mux(&packet(false, cc, &c[4..]));
            vk::check(p.check() && holds(&p, &c), "third section complete with its own bytes");
            vk::cover("third section");
        } else {
            let b2 = vk::pick(1, b.len() - b1);
            cc = (cc + 1) & 15;
            p.mux(&packet(false, cc, &b[b1..b1 + b2]));
            if b1 + b2 < b.len() {
                vk::check(not_complete(&p), "second section not complete yet, first not repeated");
                cc = (cc + 1) & 15;
                p.mux(&packet(false, cc, &b[b1 + b2..]));
                vk::cover("more pieces");
            } else {
                vk::cover("direct");
            }
            vk::check(p.check() && holds(&p, &b), "second section complete with its own bytes");
        }
        vk::observe(p.size as u64);
    }

    fn h_c09_large() {
        vk::covers("done");
        // realistic sizes: full packets, the shared one without adaptation field
        let n = [200, 367, 368, 1024][vk::fork(vk::bound(3, 4))];
        let a = section(n);
        let rem = (n - 183) % 184;
        let m = [400, 183, 551][vk::fork(3)];
        let b = section(m);
        let mut cc = vk::bits(4) as u8;
        let mut p = Psi::default();
        p.mux(&start_packet(cc, &[], &a[..183]));
        let mut at = 183;
        while at + 184 <= n - if rem == 0 { 184 } else { 0 } {
            cc = (cc + 1) & 15;
            p.mux(&packet(false, cc, &a[at..at + 184]));
            vk::check(not_complete(&p), "first section not complete yet");
            at += 184;
        }
        // the shared packet has room for 183 bytes
        let tail = n - at;
        if tail < 183 {
            let room = 183 - tail;
            cc = (cc + 1) & 15;
            let mut bt = room.min(m - 1);
            p.mux(&start_packet(cc, &a[at..], &b[..bt]));
            vk::check(p.check() && holds(&p, &a), "first section complete with its own bytes");
            while bt < m {
                let k = (m - bt).min(184);
                cc = (cc + 1) & 15;
                p.mux(&packet(false, cc, &b[bt..bt + k]));
                bt += k;
                if bt < m { vk::check(not_complete(&p), "second section not complete yet, first not repeated") }
            }
            vk::check(p.check() && holds(&p, &b), "second section complete with its own bytes");
            vk::cover("done");
        }
    }

    fn h_c10_gap() {
        vk::covers("inner lost,start lost,next in own packet,next behind the tail");
        // a in four packets, one of them lost; then b
        let a = section(vk::pick(12, vk::bound(13, 16)));
        let b = section(vk::pick(9, vk::bound(10, 12)));
        let n = a.len();
        let c1 = vk::pick(1, vk::bound(4, 8));
        let c2 = c1 + vk::pick(1, 3);
        let c3 = c2 + vk::pick(1, 3);
        let lost = vk::fork(3);
        let mut p = any_state();
        let mut cc = vk::bits(4) as u8;
        let cuts = [0, c1, c2, c3, n];
        for i in 0..4 {
            if i == lost {
                // any jump but the regular one
                let jump = vk::bits(4) as u8;
                vk::assume(jump != 1);
                cc = (cc + jump + 15) & 15;
                if lost == 0 {
                    vk::cover("start lost");
                    // without the start the old state must not be completed by the rest
                    p = Psi::default();
                } else {
                    vk::cover("inner lost");
                }
                continue;
            }
            let shared = i == 3 && vk::fork(2) == 1;
            let v = &a[cuts[i]..cuts[i + 1]];
            if shared {
                // the last packet of a also starts b
                p.mux(&start_packet(cc, v, &b[..5]));
                cc = (cc + 1) & 15;
                vk::check(not_complete(&p), "no section across the gap");
                p.mux(&packet(false, cc, &b[5..]));
                vk::check(p.check() && holds(&p, &b), "next section (behind the tail) delivered");
                vk::cover("next behind the tail");
                return;
            }
            p.mux(&(if i == 0 { start_packet(cc, &[], v) } else { packet(false, cc, v) }));
            cc = (cc + 1) & 15;
            vk::check(not_complete(&p), "no section across the gap");
        }
        p.mux(&start_packet(cc, &[], &b[..5]));
        cc = (cc + 1) & 15;
        vk::check(not_complete(&p), "next section not complete yet");
        p.mux(&packet(false, cc, &b[5..]));
        vk::check(p.check() && holds(&p, &b), "next section delivered");
        vk::cover("next in own packet");
    }

    fn h_c10_long() {
        vk::covers("done");
        // a long section loses one packet; sixteen packets later the counter fits again
        let count = 22;
        let a = section(4 * count);
        let b = section(12);
        let lost = vk::pick(0, 3);
        let mut cc = vk::bits(4) as u8;
        let mut p = Psi::default();
        for i in 0..count - 1 {
            let v = &a[4 * i..4 * i + 4];
            if i != lost {
                p.mux(&(if i == 0 { start_packet(cc, &[], v) } else { packet(false, cc, v) }));
                vk::check(not_complete(&p), "no section across the gap");
            }
            cc = (cc + 1) & 15;
        }
        p.mux(&start_packet(cc, &a[4 * count - 4..], &b[..4]));
        vk::check(not_complete(&p), "no section across the gap");
        cc = (cc + 1) & 15;
        p.mux(&packet(false, cc, &b[4..]));
        vk::check(p.check() && holds(&p, &b), "next section delivered");
        vk::cover("done");
    }

    fn h_c10_restart() {
        vk::covers("short,long");
        // a section given up half way; the next one starts with a packet, any counter
        let first = vk::one_of(&[1, 2, 3, 8, 100, 182, 183]);
        let a = section(first + vk::one_of(&[9, 400]));
        let b = section(vk::one_of(&[12, 60, 183, 184, 300]));
        let mut p = any_state();
        let mut cc = vk::bits(4) as u8;
        p.mux(&start_packet(cc, &[], &a[..first]));
        if vk::fork(2) == 1 {
            cc = (cc + 1) & 15;
            p.mux(&packet(false, cc, &a[first..(first + 184).min(a.len() - 1)]));
        }
        vk::check(not_complete(&p), "section not complete");
        cc = vk::bits(4) as u8;
        let mut at = b.len().min(183);
        p.mux(&start_packet(cc, &[], &b[..at]));
        while at < b.len() {
            vk::check(not_complete(&p), "next section not complete yet");
            let k = (b.len() - at).min(184);
            cc = (cc + 1) & 15;
            p.mux(&packet(false, cc, &b[at..at + k]));
            at += k;
        }
        vk::check(p.check() && holds(&p, &b), "next section delivered");
        vk::cover(if b.len() > 183 { "long" } else { "short" });
    }

    fn h_c11_value() {
        vk::covers("empty,long");
        let n = vk::pick(0, vk::param(0, vk::bound(64, 256) as u64) as usize);
        let (a, b) = vk::twin_bytes(n);
        let got = crc32b(&a);
        vk::observe(got as u64);
        vk::cover(if n == 0 { "empty" } else { "long" });
        vk::check(got == crc_oracle(&b), "CRC-32/MPEG-2");
    }

    fn h_c11_long() {
        vk::covers("done");
        let n = vk::one_of(&[255, 256, 257, 1020, 1024, 4094, 100, 128, 512, 2048, 3000][..vk::bound(6, 11)]);
        let (a, b) = vk::twin_bytes(n);
        vk::cover("done");
        vk::check(crc32b(&a) == crc_oracle(&b), "CRC-32/MPEG-2");
    }

    fn h_c11_burst() {
        vk::covers("done");
        let n = vk::bound(12, 40);
        let a = vk::bytes(n);
        let start = vk::fork(8 * n - 31);
        let e = vk::u32();
        vk::assume(e != 0);
        // the burst covers bits start..start+32
        let mut b = a.clone();
        let wide = (e as u64) << (8 - start % 8);
        for i in 0..5 {
            let x = (wide >> (32 - 8 * i)) as u8;
            if start / 8 + i < n { b[start / 8 + i] ^= x }
        }
        vk::check(crc32b(&a) != crc32b(&b), "burst changes the checksum");
        vk::cover("done");
    }

    fn h_c12_finalize() {
        vk::covers("short,long");
        let lo = vk::param(0, 4) as usize;
        let hi = vk::param(1, 64) as usize;
        let n = vk::pick(lo, hi);
        let (body, copy) = vk::twin_bytes(n);
        let mut p = psi(body, 0, 0);
        p.finalize();
        vk::cover(if n < 32 { "short" } else { "long" });
        vk::check((p.size == n + 4) & (p.buffer.len() == n + 4), "four bytes appended");
        vk::check(p.buffer[0] == copy[0], "table kept");
        vk::check(p.buffer[1] == copy[1] & 0xf0 | ((n + 1) >> 8) as u8, "flag bits kept, length high");
        vk::check(p.buffer[2] == (n + 1) as u8, "length low");
        vk::check(p.buffer[3..n] == copy[3..], "body kept");
        let crc = crc_oracle(&p.buffer[..n]);
        vk::check(p.buffer[n..] == crc.to_be_bytes(), "checksum appended");
        vk::check(p.check(), "accepted");
        vk::observe_bytes(&p.buffer[..3]);
        let before = p.buffer.clone();
        p.finalize();
        vk::check((p.buffer == before) & (p.size == n + 4), "completing again changes nothing");
    }

    fn h_c12_valid() {
        vk::covers("accepted,rejected,incomplete");
        let size = vk::pick(3, vk::param(0, vk::bound(24, 64) as u64) as usize);
        let len = match vk::fork(4) { 0 => size, 1 => size - 1, 2 => size + 5, _ => size / 2 };
        let (b, q) = vk::twin_bytes(len);
        let p = psi(b, size, 0);
        let got = p.check();
        vk::observe(got as u64);
        if len < size {
            vk::check(!got, "incomplete is not valid");
            vk::cover("incomplete");
        } else if size > 7 {
            let want = q[size - 4..size] == crc_oracle(&q[..size - 4]).to_be_bytes();
            vk::cover(if want { "accepted" } else { "rejected" });
            vk::check(got == want, "valid exactly with a matching checksum");
        }
    }

    fn h_c13_compare() {
        vk::covers("equal,different,incomplete,complete");
        fn one() -> Psi {
            let (len, size) = [(0, 0), (2, 0), (3, 3), (3, 9), (8, 9), (9, 9), (14, 9), (12, 12)][vk::fork(vk::bound(7, 8))];
            psi(vk::bytes(len), size, vk::bits(4) as u8)
        }
        let (a, b) = (one(), one());
        let ab = a == b;
        vk::observe(ab as u64);
        vk::check(a == a, "reflexive");
        vk::check(a == a.clone(), "equal to its copy");
        vk::check((b == a) == ab, "symmetric");
        vk::cover(if ab { "equal" } else { "different" });
        let done = |p: &Psi| p.size >= 8 && p.buffer.len() >= p.size;
        if done(&a) && done(&b) {
            vk::cover("complete");
            let want = a.size == b.size && a.buffer[a.size - 4..a.size] == b.buffer[b.size - 4..b.size];
            vk::check(ab == want, "equal exactly with equal length and checksum");
        } else {
            vk::cover("incomplete");
        }
    }

    fn h_c13_long() {
        vk::covers("equal,different");
        // complete sections of realistic sizes, with and without bytes behind
        fn one() -> Psi {
            let n = vk::one_of(&[183, 259, 1024, 4098]);
            let more = vk::one_of(&[0, 7]);
            let mut b = vk::bytes(n + more);
            b[1] = b[1] & 0xf0 | ((n - 3) >> 8) as u8;
            b[2] = (n - 3) as u8;
            psi(b, n, vk::bits(4) as u8)
        }
        let (a, b) = (one(), one());
        let ab = a == b;
        vk::cover(if ab { "equal" } else { "different" });
        let want = a.size == b.size && a.buffer[a.size - 4..a.size] == b.buffer[b.size - 4..b.size];
        vk::check(ab == want, "equal exactly with equal length and checksum");
        vk::check((b == a) == ab, "symmetric");
    }

    fn h_c13_transitive() {
        vk::covers("chain");
        fn one() -> Psi {
            let (len, size) = [(0, 0), (2, 0), (8, 9), (9, 9), (14, 9)][vk::fork(5)];
            psi(vk::bytes(len), size, 0)
        }
        let (a, b, c) = (one(), one(), one());
        if a == b && b == c {
            vk::cover("chain");
            vk::check(a == c, "transitive");
        }
    }
}
