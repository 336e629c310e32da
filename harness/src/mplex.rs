//! From a byte stream to tables: reader, packets, sections and tables together.

use crate::chars::TABLES;
use crate::tables::{loop_of, trip_from, Table};
use crate::text::{any_char, selector, utf8};
use crate::vk;
use mpegts::psi::*;
use mpegts::reader::{TsRead, TsReader};
use mpegts::textcode::{StringDVB, UTF8};
use mpegts::ts;
use std::io::{self, Read};

/// Bytes delivered in pieces of any size up to `step`.
#[derive(Debug)]
struct Bytes {
    data: Vec<u8>,
    at: usize,
    step: usize,
}

impl Read for Bytes {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.data.len() - self.at).min(self.step);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// Any packet of this identifier.
fn filler(pid: u16) -> [u8; 188] {
    let mut p: [u8; 188] = vk::array();
    p[0] = 0x47;
    p[1] = p[1] & 0xe0 | (pid >> 8) as u8;
    p[2] = pid as u8;
    p
}

/// Packets in a row, some with another stream's packet behind and one with a
/// few bytes that belong to no packet.
fn stream(list: &[u8], other: u16) -> Vec<u8> {
    let mut out = Vec::new();
    let count = list.len() / 188;
    let dirt = vk::fork(count + 1);
    for (i, p) in list.chunks(188).enumerate() {
        if i == dirt {
            vk::cover("garbage");
            for _ in 0..[3, 1][vk::fork(2)] {
                let x = vk::u8();
                vk::assume(x != 0x47);
                out.push(x);
            }
        }
        out.extend_from_slice(p);
        if vk::fork(2) == 1 { out.extend_from_slice(&filler(other)) }
    }
    out
}

harness! {
    fn h_c50_tables() {
        vk::covers("garbage,map before,map behind");
        let pid = vk::bits(13) as u16;
        let other = vk::bits(13) as u16;
        vk::assume((pid != 0) & (other != 0) & (other != pid));
        let mut pat = Pat { version: vk::bits(5) as u8, tsid: vk::u16(), items: vec![PatItem { pnr: 0, pid: 16 }] };
        let pnr = vk::u16();
        vk::assume(pnr != 0);
        pat.items.push(PatItem { pnr, pid });
        let (descriptors, _) = loop_of(vk::one_of(&[5, 190]));
        let mut pmt = Pmt { version: vk::bits(5) as u8, pnr, pcr: vk::bits(13) as u16, descriptors: Descriptors::default(), items: vec![] };
        pmt.items.push(PmtItem { stream_type: vk::u8(), pid: vk::bits(13) as u16, descriptors });
        let mut list = Vec::new();
        let (mut a, mut b) = (vk::bits(4) as u8, vk::bits(4) as u8);
        if vk::fork(2) == 1 {
            // not known yet to be a program map
            pmt.demux(pid, &mut b, &mut list);
            vk::cover("map before");
        } else {
            vk::cover("map behind");
        }
        pat.demux(0, &mut a, &mut list);
        pmt.demux(pid, &mut b, &mut list);
        let data = stream(&list, other);
        let mut r = TsReader::new(Bytes { data, at: 0, step: vk::one_of(&[188, 70]) });
        let mut found = None;
        let (mut s, mut t) = (Psi::default(), Psi::default());
        let (mut p, mut q) = (Pat::default(), Pmt::default());
        let mut buf = [0; 188];
        let (mut maps, mut lists) = (0, 0);
        while let Ok(188) = r.read(&mut buf) {
            let x = ts::get_pid(&buf);
            if x == 0 {
                s.mux(&buf);
                if s.check() {
                    p = Pat::default();
                    p.parse(&s);
                    found = p.items.iter().find(|i| i.pnr != 0).map(|i| i.pid);
                    lists += 1;
                }
            } else if Some(x) == found {
                t.mux(&buf);
                if t.check() {
                    q = Pmt::default();
                    q.parse(&t);
                    maps += 1;
                }
            }
        }
        vk::check((lists == 1) & (maps == 1), "each table reported once");
        vk::check(p.flat() == pat.flat(), "programs");
        vk::check(q.flat() == pmt.flat(), "streams of the program");
    }

    fn h_c50_repeat() {
        vk::covers("same,changed");
        // a carousel: the table again, and a changed one; the user compares sections
        let pid = vk::bits(13) as u16;
        let one = |d: usize| {
            let (descriptors, _) = loop_of(d);
            Sdt { table_id: 0x42, version: vk::bits(5) as u8, tsid: vk::u16(), onid: vk::u16(),
                items: vec![SdtItem { pnr: vk::u16(), eit_schedule_flag: 0, eit_present_following_flag: 1, running_status: 4, free_ca_mode: 0, descriptors }] }
        };
        let a = one(vk::one_of(&[0, 6, 170]));
        let changed = vk::fork(2) == 1;
        let mut cc = vk::bits(4) as u8;
        let mut list = Vec::new();
        a.demux(pid, &mut cc, &mut list);
        a.demux(pid, &mut cc, &mut list);
        let b = one(6);
        if changed { b.demux(pid, &mut cc, &mut list) }
        let mut s = Psi::default();
        let mut last: Option<Psi> = None;
        let mut seen = Vec::new();
        for x in list.chunks(188) {
            s.mux(x);
            if !s.check() { continue }
            if let Some(l) = &last {
                if *l == s { continue }
            }
            let mut t = Sdt::default();
            t.parse(&s);
            seen.push(t.flat());
            last = Some(s.clone());
        }
        vk::check(!seen.is_empty() && seen[0] == a.flat(), "first table");
        if changed {
            vk::cover("changed");
            // equal checksums of different tables cannot be told apart
            if seen.len() == 2 { vk::check(seen[1] == b.flat(), "changed table") }
            else { vk::check((seen.len() == 1) & (last.unwrap() == s), "only an equal section is passed over") }
        } else {
            vk::cover("same");
            vk::check(seen.len() == 1, "repetition recognised");
        }
    }

    fn h_c52_event() {
        vk::covers("one,several");
        // a long description over as many descriptors as it needs
        let cp = [0, 5, UTF8][vk::fork(3)];
        let n = [0, 1, 246, 249, 250, 500, 745][vk::fork(7)];
        let text = vk::bytes(n);
        if cp == 0 { for x in text.iter().step_by(249) { vk::assume(*x >= 0x20) } }
        let copy = vk::copy(&text);
        let mut v = selector(cp);
        v.extend_from_slice(&text);
        let parts = StringDVB::from(v.as_slice()).split(249);
        let count = parts.len();
        let lang = StringDVB::from(&[b'e', vk::range(0x61, 0x7a) as u8, b'g'][..]);
        let mut descriptors = Descriptors::default();
        descriptors.push(Desc4D { lang: lang.clone(), name: StringDVB::from(&b"News"[..]), text: StringDVB::default() });
        for (i, t) in parts.into_iter().enumerate() {
            descriptors.push(Desc4E { number: i as u8, last_number: count as u8 - 1, lang: lang.clone(), items: vec![], text: t });
        }
        vk::cover(if count > 1 { "several" } else { "one" });
        let mut t = Eit { table_id: 0x4e, version: 3, pnr: vk::u16(), tsid: vk::u16(), onid: vk::u16(), items: vec![] };
        t.items.push(EitItem { event_id: vk::u16(), start: 1600000000, duration: 5025, status: vk::bits(3) as u8, ca_mode: 0, descriptors });
        let got = trip_from(&t, 0, 9);
        vk::check(got.len() == 1, "one section");
        let r = Eit::from(&got[0]);
        vk::check(r.items.len() == 1 && r.items[0].descriptors.len() == count + 1, "every descriptor");
        let mut all = Vec::new();
        for (i, d) in r.items[0].descriptors.iter().skip(1).enumerate() {
            vk::check(d.tag() == 0x4e, "type");
            let d = d.downcast_ref::<Desc4E>();
            vk::check((d.number as usize == i) & (d.last_number as usize == count - 1) & (d.lang == lang), "place in the description");
            vk::check(d.items.is_empty() & (d.text.is_empty() | (d.text.get_codepage() == cp)), "table kept");
            all.extend_from_slice(d.text.as_bytes());
        }
        vk::check(all == copy, "description");
    }

    fn h_c52_service() {
        vk::covers("done");
        // names from characters to the wire and back to characters
        let (cp, map) = &TABLES[vk::fork(15)];
        let c = map[vk::range(0xa0, 0xff) as usize - 0xa0] as u32;
        vk::assume(c != 0);
        let mut name = vec![vk::range(0x20, 0x7e) as u8];
        name.extend_from_slice(&utf8(c));
        let mut provider = any_char(1 + vk::fork(4)).1;
        provider.push(vk::range(0x20, 0x7e) as u8);
        let (a, b) = (vk::copy(&provider), vk::copy(&name));
        let text = |v: &[u8], cp| StringDVB::from_str(unsafe { std::str::from_utf8_unchecked(v) }, cp);
        let mut descriptors = Descriptors::default();
        descriptors.push(Desc48 { service_type: vk::u8(), provider: text(&provider, UTF8), name: text(&name, *cp) });
        let t = Sdt { table_id: 0x42, version: 3, tsid: vk::u16(), onid: vk::u16(),
            items: vec![SdtItem { pnr: vk::u16(), eit_schedule_flag: 0, eit_present_following_flag: 1, running_status: 4, free_ca_mode: 0, descriptors }] };
        let got = trip_from(&t, 0, 15);
        vk::check(got.len() == 1, "one section");
        let r = Sdt::from(&got[0]);
        vk::check(r.items.len() == 1 && r.items[0].descriptors.len() == 1, "one service with its names");
        let d = r.items[0].descriptors.iter().next().unwrap();
        vk::check(d.tag() == 0x48, "type");
        let d = d.downcast_ref::<Desc48>();
        vk::check(d.provider.to_string().as_bytes() == &a[..], "name of the provider");
        vk::check(d.name.to_string().as_bytes() == &b[..], "name of the service");
        vk::cover("done");
    }
}
