//! Elementary streams, packet reader, packet drain, digit and time coding.

use crate::vk;
use mpegts::es::{pes, StreamType};
use mpegts::psi::{DescRaw, PmtItem, BCDTime, MJDFrom, MJDTo, BCD};
use mpegts::reader::{TsDrain, TsRead, TsReader};
use std::io::{self, ErrorKind, Read};

/// A byte source returning its data in pieces.
#[derive(Debug)]
struct Source {
    data: Vec<u8>,
    at: usize,
    /// sizes of the next short reads; later reads return all that is asked for
    chop: Vec<usize>,
    calls: usize,
    /// number of the call that fails, and how
    fail: usize,
    how: ErrorKind,
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls - 1 == self.fail {
            return Err(io::Error::from(self.how));
        }
        let mut n = buf.len().min(self.data.len() - self.at);
        if buf.len() > 1 {
            if let Some(x) = self.chop.pop() { n = n.min(x) }
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn kind(r: &io::Result<usize>) -> u32 {
    match r {
        Ok(0) => 0,
        Ok(_) => 1,
        Err(e) if e.kind() == ErrorKind::TimedOut => 2,
        Err(_) => 3,
    }
}

/// A source of whole packets.
#[derive(Debug)]
struct Packets {
    data: Vec<u8>,
    at: usize,
    fail: usize,
    calls: usize,
}

impl TsRead for Packets {
    fn read(&mut self, packet: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls - 1 == self.fail {
            return Err(io::Error::from(ErrorKind::TimedOut));
        }
        if self.at == self.data.len() { return Ok(0) }
        packet[..188].copy_from_slice(&self.data[self.at..self.at + 188]);
        self.at += 188;
        Ok(188)
    }
}

fn drain(sizes: &[usize], steps: usize) {
    let count = vk::pick(0, 2);
    let (data, want) = vk::twin_bytes(188 * count);
    let fail = [usize::MAX, 0, 1, 2][vk::fork(4)];
    let mut d = TsDrain::new(Packets { data, at: 0, fail, calls: 0 });
    let mut done = 0;
    let mut failed = false;
    for _ in 0..steps {
        let n = vk::one_of(sizes);
        let (mut buf, keep) = vk::twin_bytes(n);
        let r = d.read(&mut buf);
        match kind(&r) {
            1 => {
                let x = *r.as_ref().unwrap();
                vk::check(x <= n, "no more than the buffer holds");
                vk::check(done + x <= want.len(), "no more than the source has");
                vk::check(buf[..x] == want[done..done + x], "bytes in order");
                vk::check(buf[x..] == keep[x..], "nothing beyond the bytes reported");
                done += x;
                vk::cover(if x < n { "short" } else { "bytes" });
            }
            0 => {
                vk::check((n == 0) | (done == want.len()), "end only when everything was delivered");
                vk::cover(if n == 0 { "empty buffer" } else { "end" });
            }
            2 => {
                vk::check(!failed & (fail != usize::MAX), "error of the source");
                vk::check(done % 188 == 0, "data fetched before the error is delivered first");
                failed = true;
                vk::cover("error");
            }
            _ => vk::check(false, "other error"),
        }
        vk::observe(done as u64);
    }
}

harness! {
    fn h_c39_header() {
        vk::covers("with header,without header,prefix");
        let (p, q) = vk::twin::<20>();
        let id = q[3];
        let plain = (id == 0xbc) | (id == 0xbe) | (id == 0xbf) | (id == 0xf0) | (id == 0xf1) | (id == 0xf2) | (id == 0xf8) | (id == 0xff);
        vk::cover(if plain { "without header" } else { "with header" });
        if pes::is_prefix(&p) { vk::cover("prefix") }
        vk::check(pes::is_prefix(&p) == ((q[0] == 0) & (q[1] == 0) & (q[2] == 1)), "start code prefix");
        vk::check(pes::is_syntax_spec(&p) != plain, "identifiers without optional header");
        vk::check(pes::get_length(&p) as usize == q[4] as usize * 256 + q[5] as usize, "packet length");
        let at = if plain { 6 } else { 9 + q[8] as usize };
        vk::check(pes::get_payload_offset(&p) as usize == at, "payload offset");
        vk::check(pes::is_pts(&p) == (q[7] & 0x80 != 0), "presentation timestamp flag");
        vk::check(pes::is_dts(&p) == (q[7] & 0x40 != 0), "decoding timestamp flag");
        vk::observe(pes::get_payload_offset(&p) as u64);
    }

    fn h_c40_read() {
        vk::covers("done");
        // a timestamp written bit by bit as in ISO 13818-1 2.4.3.7
        let (p, q) = vk::twin::<20>();
        let bits = |at: usize| -> u64 {
            let mut v = 0u64;
            let mut take = |byte: usize, hi: u32, lo: u32| {
                for b in (lo..=hi).rev() { v = v << 1 | (q[at + byte] >> b & 1) as u64 }
            };
            take(0, 3, 1);
            take(1, 7, 0);
            take(2, 7, 1);
            take(3, 7, 0);
            take(4, 7, 1);
            v
        };
        vk::observe(pes::get_pts(&p));
        vk::check(pes::get_pts(&p) == bits(9), "presentation timestamp");
        vk::check(pes::get_dts(&p) == bits(14), "decoding timestamp");
        vk::cover("done");
    }

    fn h_c40_distance() {
        vk::covers("forward,wrap");
        let (a, b) = (vk::bits(33), vk::bits(33));
        let d = pes::pts_delta(a, b);
        vk::observe(d);
        vk::cover(if b >= a { "forward" } else { "wrap" });
        vk::check(d < 1 << 33, "distance in clock range");
        vk::check((a + d) & ((1 << 33) - 1) == b, "distance reaches the later timestamp");
        let ms = pes::pts_to_ms(a);
        vk::check((ms * 90 <= a) & (a < ms * 90 + 90), "milliseconds");
    }

    fn h_c41_class() {
        vk::covers("video,audio,data,teletext,subtitles,application");
        let mut item = PmtItem::default();
        let ty = vk::u8();
        item.stream_type = ty;
        let n = vk::pick(0, vk::bound(2, 3));
        let mut tags = Vec::new();
        let mut loop_bytes = Vec::new();
        for _ in 0..n {
            let t = vk::u8();
            tags.push(vk::same(t as u64) as u8);
            loop_bytes.push(t);
            let len = vk::fork(2);
            loop_bytes.push(len as u8);
            for _ in 0..len { loop_bytes.push(vk::u8()) }
        }
        item.descriptors.parse(&loop_bytes);
        let got = match item.get_stream_type() {
            StreamType::VIDEO => 1,
            StreamType::AUDIO => 2,
            StreamType::AIT => 3,
            StreamType::SUB => 4,
            StreamType::TTX => 5,
            StreamType::DATA => 6,
        };
        let ty = vk::same(ty as u64) as u8;
        let mut want = 6;
        if (ty == 1) | (ty == 2) | (ty == 0x10) | (ty == 0x1b) | (ty == 0x24) { want = 1 }
        if (ty == 3) | (ty == 4) | (ty == 0x0f) | (ty == 0x11) { want = 2 }
        if (ty == 5) | (ty == 6) {
            for t in tags.iter().rev() {
                if ty == 5 {
                    if *t == 0x6f { want = 3 }
                } else {
                    if *t == 0x59 { want = 4 }
                    if *t == 0x56 { want = 5 }
                    if (*t == 0x6a) | (*t == 0x7a) | (*t == 0x81) { want = 2 }
                }
            }
        }
        vk::observe(got);
        vk::cover(["video", "audio", "application", "subtitles", "teletext", "data"][got as usize - 1]);
        vk::check(got == want, "class of the stream");
    }

    fn h_c41_late() {
        vk::covers("teletext,subtitles,audio,application,data");
        // the deciding descriptor behind others
        let ty = vk::one_of(&[5, 6]);
        let mut item = PmtItem { stream_type: ty, ..PmtItem::default() };
        for _ in 0..vk::one_of(&[1, 3, 4, 7, 20, 60]) { item.descriptors.push(DescRaw { tag: vk::range(0x84, 0xff) as u8, data: vec![1] }) }
        let tag = vk::one_of(&[0x6f, 0x59, 0x56, 0x6a, 0x7a, 0x81, 0x7b]);
        item.descriptors.push(DescRaw { tag, data: vk::bytes(1) });
        if vk::fork(2) == 0 { item.descriptors.push(DescRaw { tag: 0x82, data: vec![] }) }
        let (got, name) = match item.get_stream_type() {
            StreamType::VIDEO => (1, "data"),
            StreamType::AUDIO => (2, "audio"),
            StreamType::AIT => (3, "application"),
            StreamType::SUB => (4, "subtitles"),
            StreamType::TTX => (5, "teletext"),
            StreamType::DATA => (6, "data"),
        };
        vk::cover(name);
        let want = match (ty, tag) {
            (5, 0x6f) => 3,
            (6, 0x59) => 4,
            (6, 0x56) => 5,
            (6, 0x6a) | (6, 0x7a) | (6, 0x81) => 2,
            _ => 6,
        };
        vk::check(got == want, "class");
    }

    fn h_c42_packets() {
        vk::covers("packet,second packet,end without sync,cut packet,skipped");
        let total = [188, 190, 376, 379][vk::fork(4)];
        let (data, copy) = vk::twin_bytes(total);
        let mut chop = Vec::new();
        for _ in 0..vk::fork(3) { chop.push([1, 2, 93, 186][vk::fork(4)]) }
        let mut r = TsReader::new(Source { data, at: 0, chop, calls: 0, fail: usize::MAX, how: ErrorKind::TimedOut });
        let mut at = 0;
        for i in 0..2 {
            let (mut buf, keep) = vk::twin_bytes(192);
            let res = r.read(&mut buf);
            // the next sync byte
            while at < total && copy[at] != 0x47 { at += 1 }
            if at + 188 > total {
                vk::cover(if at < total { "cut packet" } else { "end without sync" });
                vk::check(kind(&res) == 0, "end of stream");
                vk::check(buf[188..] == keep[188..], "nothing beyond the packet");
                return;
            }
            vk::cover(if i == 0 { "packet" } else { "second packet" });
            if at > 0 { vk::cover("skipped") }
            vk::check(kind(&res) == 1 && res.unwrap() == 188, "one packet");
            vk::check(buf[..188] == copy[at..at + 188], "packet bytes");
            vk::check(buf[188..] == keep[188..], "nothing beyond the packet");
            at += 188;
            vk::check(r.get_ref().at == at, "source left behind the packet");
        }
    }

    fn h_c42_pieces() {
        vk::covers("done");
        // a packet cut into up to four reads at any position
        let (data, copy) = vk::twin_bytes(188);
        vk::assume(data[0] == 0x47);
        let mut chop = Vec::new();
        let cut = vk::pick(1, 187);
        chop.push([1, 5, 50][vk::fork(3)]);
        chop.push([1, 100][vk::fork(2)]);
        chop.push(cut);
        let mut r = TsReader::new(Source { data, at: 0, chop, calls: 0, fail: usize::MAX, how: ErrorKind::TimedOut });
        let mut buf = [0; 188];
        let res = r.read(&mut buf);
        vk::check(kind(&res) == 1 && res.unwrap() == 188, "one packet");
        vk::check(buf[..] == copy[..], "packet bytes");
        vk::cover("done");
    }

    fn h_c42_errors() {
        vk::covers("error,end,packet");
        let total = [189, 188, 0, 40][vk::fork(4)];
        let (data, copy) = vk::twin_bytes(total);
        if total > 2 { vk::assume((data[0] == 0x47) | (data[1] == 0x47)) }
        let fail = vk::pick(0, 4);
        let mut chop = Vec::new();
        for _ in 0..vk::fork(3) { chop.push([1, 90][vk::fork(2)]) }
        let how = [ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::ConnectionReset, ErrorKind::Other][vk::fork(5)];
        let mut r = TsReader::new(Source { data, at: 0, chop, calls: 0, fail, how });
        let mut buf = vk::bytes(188);
        let res = r.read(&mut buf);
        let k = kind(&res);
        vk::observe(k as u64);
        if r.get_ref().calls > fail {
            vk::cover("error");
            match res {
                Ok(_) => vk::check(false, "error passed on"),
                Err(e) => vk::check(e.kind() == how, "error passed on"),
            }
            if fail == 0 && total >= 188 {
                // nothing had been read: the next call gives the packet
                let at = if copy[0] == 0x47 { 0 } else { 1 };
                if total - at >= 188 {
                    let again = r.read(&mut buf);
                    vk::check(kind(&again) == 1 && buf[..] == copy[at..at + 188], "packet after an error");
                }
            }
        } else if k == 0 {
            vk::cover("end");
            vk::check(r.get_ref().at == total, "end of stream only at the end");
        } else {
            vk::cover("packet");
            let at = if copy[0] == 0x47 { 0 } else { 1 };
            vk::check((k == 1) & (total - at >= 188), "packet");
            vk::check(buf[..] == copy[at..at + 188], "packet bytes");
        }
    }

    fn h_c42_garbage() {
        vk::covers("byte by byte,whole");
        // bytes without a sync byte, then packets
        let n = [187, 188, 600, vk::bound(1500, 5000)][vk::fork(4)];
        let (mut data, _) = vk::twin_bytes(n + 3 * 188);
        for b in &data[..n] { vk::assume(*b != 0x47) }
        for i in 0..3 { data[n + 188 * i] = 0x47 }
        let copy = vk::copy(&data);
        let slow = vk::fork(2) == 1;
        let chop = if slow { vec![1; 3 * 188] } else { vec![] };
        let mut r = TsReader::new(Source { data, at: 0, chop, calls: 0, fail: usize::MAX, how: ErrorKind::TimedOut });
        let mut at = n;
        for _ in 0..3 {
            let mut buf = [0; 188];
            let res = r.read(&mut buf);
            vk::check(kind(&res) == 1 && res.unwrap() == 188, "one packet");
            vk::check(buf[..] == copy[at..at + 188], "packet bytes");
            at += 188;
        }
        vk::check(kind(&r.read(&mut [0; 188])) == 0, "end of stream");
        vk::cover(if slow { "byte by byte" } else { "whole" });
    }

    fn h_c42_source() {
        vk::covers("done");
        // the source in between belongs to its owner
        let (mut data, _) = vk::twin_bytes(3 * 188 + 5);
        data[0] = 0x47;
        data[188 + 5] = 0x47;
        let copy = vk::copy(&data);
        let mut r = TsReader::new(Source { data, at: 0, chop: vec![], calls: 0, fail: usize::MAX, how: ErrorKind::TimedOut });
        let mut buf = [0; 188];
        vk::check(r.read(&mut buf).is_ok() && buf[..] == copy[..188], "first packet");
        vk::check(r.get_ref().at == 188, "source left behind the packet");
        let mut head = [0; 5];
        vk::check(r.get_mut().read(&mut head).is_ok() && head[..] == copy[188..193], "read past the reader");
        vk::check(r.read(&mut buf).is_ok() && buf[..] == copy[193..381], "packet behind");
        let mut s = r.into_inner();
        vk::check(s.at == 381, "source handed back");
        let mut rest = Vec::new();
        vk::check(s.read_to_end(&mut rest).is_ok() && rest == copy[381..], "rest of the stream");
        vk::cover("done");
    }

    fn h_c43_sizes() {
        vk::covers("bytes,short,empty buffer,end,error");
        drain(&[0, 1, 100, 187, 188, 189, 400], vk::bound(4, 5));
    }

    fn h_c43_small() {
        vk::covers("bytes,short,end,error");
        drain(&[94, 63, 150], vk::bound(7, 8));
    }

    fn h_c43_stream() {
        vk::covers("done");
        // reader and drain together: a stream with garbage, any buffer size
        let n = vk::pick(1, 190);
        let (mut data, _) = vk::twin_bytes(2 + 188);
        data[0] &= 0x3f;
        data[1] &= 0x3f;
        data[2] = 0x47;
        let want = vk::copy(&data);
        let mut d = TsDrain::new(TsReader::new(Source { data, at: 0, chop: vec![20], calls: 0, fail: usize::MAX, how: ErrorKind::TimedOut }));
        let mut out = Vec::new();
        loop {
            let mut buf = vec![0; n];
            let x = d.read(&mut buf).unwrap();
            if x == 0 { break }
            out.extend_from_slice(&buf[..x]);
        }
        vk::check(out == want[2..], "bytes of the packet");
        vk::cover("done");
    }

    fn h_c37_encode() {
        vk::covers("8,16,32");
        // digits, most significant first
        let d: Vec<u64> = (0..8).map(|_| vk::range(0, 9)).collect();
        let number = |d: &[u64]| d.iter().fold(0, |a, x| a * 10 + x);
        let code = |d: &[u64]| d.iter().fold(0, |a, x| a << 4 | x);
        match vk::fork(3) {
            0 => {
                let (n, c) = (number(&d[..2]) as u8, code(&d[..2]) as u8);
                vk::check(n.to_bcd() == c, "8 bit coding");
                vk::check(c.from_bcd() == n, "8 bit decoding");
                vk::cover("8");
            }
            1 => {
                let (n, c) = (number(&d[..4]) as u16, code(&d[..4]) as u16);
                vk::check(n.to_bcd() == c, "16 bit coding");
                vk::check(c.from_bcd() == n, "16 bit decoding");
                vk::cover("16");
            }
            _ => {
                let (n, c) = (number(&d) as u32, code(&d) as u32);
                vk::check(n.to_bcd() == c, "32 bit coding");
                vk::check(c.from_bcd() == n, "32 bit decoding");
                vk::cover("32");
            }
        }
    }

    fn h_c37_total() {
        vk::covers("done");
        let x = vk::u32();
        let (a, b, c) = ((x as u8).from_bcd(), (x as u16).from_bcd(), x.from_bcd());
        vk::observe(a as u64);
        vk::observe(c as u64);
        vk::cover("done");
        vk::check((a < 100) & (b < 10000) & (c < 100000000), "result in range");
    }

    fn h_c38_date() {
        vk::covers("done");
        let day = vk::range(0, 24948);
        let sec = vk::range(0, 86399);
        let t = day * 86400 + sec;
        let mjd = t.to_mjd();
        vk::observe(mjd as u64);
        vk::check(mjd as u64 == vk::same(day) + 40587, "modified Julian date");
        vk::check(mjd.from_mjd() == vk::same(day) * 86400, "start of the day");
        let any = vk::u16();
        let back = any.from_mjd();
        vk::check(back % 86400 == 0, "any date decodes to a start of day");
        vk::check((any < 40587) | (back.to_mjd() == any), "date decoded and coded again");
        vk::cover("done");
    }

    fn h_c38_time() {
        vk::covers("seconds,minutes");
        let two = |hi: u64| {
            let (t, u) = (vk::range(0, hi), vk::range(0, 9));
            (t * 10 + u, (t << 4 | u) as u32)
        };
        let h = vk::fork(3);
        let (h, hc) = {
            // hours 0..=23 as tens and units
            let u = vk::range(0, if h == 2 { 3 } else { 9 });
            (h as u64 * 10 + u, (h as u64) << 4 | u)
        };
        let hc = hc as u32;
        let ((m, mc), (s, sc)) = (two(5), two(5));
        if vk::fork(2) == 0 {
            let v = (h * 3600 + m * 60 + s) as u32;
            let c = hc << 16 | mc << 8 | sc;
            vk::check(v.to_bcd_time() == c, "time of day coding");
            vk::check(c.from_bcd_time() == v, "time of day decoding");
            // any day before
            let day = vk::range(0, 24948);
            vk::check(((day * 86400) as u32 + v).to_bcd_time() == c, "time of day of a timestamp");
            vk::cover("seconds");
        } else {
            let v = (h * 60 + m) as u16;
            let c = (hc << 8 | mc) as u16;
            vk::check(v.to_bcd_time() == c, "minute offset coding");
            vk::check(c.from_bcd_time() == v, "minute offset decoding");
            vk::cover("minutes");
        }
    }

    fn h_c38_long() {
        vk::covers("seconds,minutes");
        // durations past a day: decoded, never coded
        let two = || {
            let (t, u) = (vk::range(0, 9), vk::range(0, 9));
            (t * 10 + u, (t << 4 | u) as u32)
        };
        let ((h, hc), (m, mc)) = (two(), two());
        if vk::fork(2) == 0 {
            let (s, sc) = two();
            vk::cover("seconds");
            vk::check((hc << 16 | mc << 8 | sc).from_bcd_time() as u64 == h * 3600 + m * 60 + s, "duration decoding");
        } else {
            vk::cover("minutes");
            vk::check(((hc << 8 | mc) as u16).from_bcd_time() as u64 == h * 60 + m, "offset decoding");
        }
    }

    fn h_c38_total() {
        vk::covers("done");
        let x = vk::u32();
        let (a, b) = ((x as u16).from_bcd_time(), x.from_bcd_time());
        vk::observe(a as u64);
        vk::observe(b as u64);
        vk::cover("done");
        vk::check((a <= 99 * 60 + 99) & (b <= 99 * 3600 + 99 * 60 + 99), "result in range");
        // coding never fails either
        let _ = x.to_bcd_time();
        let _ = (x as u16).to_bcd_time();
    }
}
