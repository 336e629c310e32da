//! Tables: building, packetizing, reassembling, parsing.

use crate::desc::{clock, date_time};
use crate::psi::{crc_oracle, section};
use crate::vk;
use mpegts::psi::*;

/// What the harnesses need of every table.
pub trait Table: Default + for<'a> From<&'a Psi> {
    fn take(&mut self, p: &Psi);
    /// Header fields, descriptors of the whole table, fields of every item.
    fn parts(&self) -> (Vec<u64>, Vec<u64>, Vec<Vec<u64>>);
    /// All fields in a fixed order.
    fn flat(&self) -> Vec<u64> {
        let (mut v, d, items) = self.parts();
        v.push(items.len() as u64);
        v.extend_from_slice(&d);
        for i in items { v.extend_from_slice(&i) }
        v
    }
}

fn flat_loop(d: &Descriptors, mut out: Vec<u64>) -> Vec<u64> {
    let mut v = Vec::new();
    d.assemble(&mut v);
    out.push(d.len() as u64);
    out.push(v.len() as u64);
    for x in v { out.push(x as u64) }
    out
}

impl Table for Pat {
    fn take(&mut self, p: &Psi) { self.parse(p) }
    fn parts(&self) -> (Vec<u64>, Vec<u64>, Vec<Vec<u64>>) {
        (vec![self.version as u64, self.tsid as u64], vec![], self.items.iter().map(|i| vec![i.pnr as u64, i.pid as u64]).collect())
    }
}

impl Table for Pmt {
    fn take(&mut self, p: &Psi) { self.parse(p) }
    fn parts(&self) -> (Vec<u64>, Vec<u64>, Vec<Vec<u64>>) {
        (vec![self.version as u64, self.pnr as u64, self.pcr as u64], flat_loop(&self.descriptors, vec![]),
            self.items.iter().map(|i| flat_loop(&i.descriptors, vec![i.stream_type as u64, i.pid as u64])).collect())
    }
}

impl Table for Sdt {
    fn take(&mut self, p: &Psi) { self.parse(p) }
    fn parts(&self) -> (Vec<u64>, Vec<u64>, Vec<Vec<u64>>) {
        (vec![self.table_id as u64, self.version as u64, self.tsid as u64, self.onid as u64], vec![],
            self.items.iter().map(|i| flat_loop(&i.descriptors, vec![i.pnr as u64, i.eit_schedule_flag as u64, i.eit_present_following_flag as u64, i.running_status as u64, i.free_ca_mode as u64])).collect())
    }
}

impl Table for Nit {
    fn take(&mut self, p: &Psi) { self.parse(p) }
    fn parts(&self) -> (Vec<u64>, Vec<u64>, Vec<Vec<u64>>) {
        (vec![self.table_id as u64, self.version as u64, self.network_id as u64], flat_loop(&self.descriptors, vec![]),
            self.items.iter().map(|i| flat_loop(&i.descriptors, vec![i.tsid as u64, i.onid as u64])).collect())
    }
}

impl Table for Eit {
    fn take(&mut self, p: &Psi) { self.parse(p) }
    fn parts(&self) -> (Vec<u64>, Vec<u64>, Vec<Vec<u64>>) {
        (vec![self.table_id as u64, self.version as u64, self.pnr as u64, self.tsid as u64, self.onid as u64], vec![],
            self.items.iter().map(|i| flat_loop(&i.descriptors, vec![i.event_id as u64, i.start, i.duration as u64, i.status as u64, i.ca_mode as u64])).collect())
    }
}

impl Table for Tdt {
    fn take(&mut self, p: &Psi) { self.parse(p) }
    fn parts(&self) -> (Vec<u64>, Vec<u64>, Vec<Vec<u64>>) { (vec![self.time], vec![], vec![]) }
}

impl Table for Tot {
    fn take(&mut self, p: &Psi) { self.parse(p) }
    fn parts(&self) -> (Vec<u64>, Vec<u64>, Vec<Vec<u64>>) { (vec![self.time], flat_loop(&self.descriptors, vec![]), vec![]) }
}

/// A collected section with exactly these bytes.
pub fn psi(b: &[u8]) -> Psi {
    let mut p = Psi::default();
    p.buffer = b.to_vec();
    p.size = b.len();
    p
}

/// The sections a table becomes on its way through packets.
pub fn trip<T: PsiDemux>(t: &T) -> Vec<Psi> { trip_from(t, vk::one_of(&[0, 5]), vk::bits(4) as u8) }

/// The same behind some earlier output, with this counter.
pub fn trip_from<T: PsiDemux>(t: &T, at: usize, cc: u8) -> Vec<Psi> {
    let pid = vk::bits(13) as u16;
    let mut ts = vec![0xa5; at];
    let mut next = cc;
    t.demux(pid, &mut next, &mut ts);
    vk::check(ts[..at] == [0xa5; 5][..at], "existing output kept");
    let ts = &ts[at..];
    vk::check(ts.len() % 188 == 0, "whole packets");
    let mut out = Vec::new();
    let mut p = Psi::default();
    let mut open = false;
    for (i, x) in ts.chunks(188).enumerate() {
        vk::check((x[0] == 0x47) & (x[1] & 0x1f == (pid >> 8) as u8) & (x[2] == pid as u8), "packet identifier");
        vk::check(x[3] == 0x10 | (cc.wrapping_add(i as u8) & 15), "packet counter");
        p.mux(x);
        open = true;
        if p.size > 0 && p.buffer.len() >= p.size {
            out.push(p.clone());
            open = false;
        }
    }
    vk::check(!open, "every section complete");
    vk::check(next == cc.wrapping_add((ts.len() / 188) as u8) & 15, "counter left for the next table");
    out
}

/// Length and checksum added.
pub fn closed(v: &[u8]) -> Vec<u8> {
    let mut v = vk::copy(v);
    let n = v.len() + 1;
    v[1] = v[1] & 0xf0 | (n >> 8) as u8;
    v[2] = n as u8;
    let c = crc_oracle(&v);
    v.extend_from_slice(&c.to_be_bytes());
    v
}

pub fn be(x: u16) -> [u8; 2] { x.to_be_bytes() }

/// Start of a section up to the section numbers.
pub fn head(id: u8, flags: u8, ext: u16, version: u8, no: u8, last: u8) -> Vec<u8> {
    vec![id, flags, 0, (ext >> 8) as u8, ext as u8, 0xc1 | version << 1, no, last]
}

/// A descriptor loop and its bytes.
fn some_loop() -> (Descriptors, Vec<u8>) {
    let mut d = Descriptors::default();
    let mut v = Vec::new();
    let k = vk::fork(4);
    if k & 1 != 0 {
        let (a, b) = vk::twin_bytes(2);
        let tag = 0xc0 | vk::bits(6) as u8;
        v.extend_from_slice(&[tag, 2]);
        v.extend_from_slice(&b);
        d.push(DescRaw { tag, data: a });
    }
    if k & 2 != 0 {
        let x = vk::u8();
        v.extend_from_slice(&[0x52, 1, x]);
        d.push(Desc52 { tag: vk::same(x as u64) as u8 });
    }
    (d, v)
}

/// One raw descriptor loop of n bytes in all.
pub fn loop_of(n: usize) -> (Descriptors, Vec<u8>) {
    let mut d = Descriptors::default();
    let mut v = Vec::new();
    let mut left = n;
    while left >= 2 {
        let k = if left > 257 && left < 259 { 100 } else { left.min(257) - 2 };
        let mut b = vk::bytes(k.min(3));
        b.resize(k, 0x5c);
        v.extend_from_slice(&[0xe0, k as u8]);
        v.extend_from_slice(&b);
        d.push(DescRaw { tag: 0xe0, data: b });
        left -= k + 2;
    }
    (d, v)
}

/// Length field of a loop behind four flag bits.
pub fn len12(flags: u8, n: usize) -> [u8; 2] { [flags << 4 | (n >> 8) as u8, n as u8] }

fn one_section(t: Vec<Psi>, want: &[u8]) -> Psi {
    vk::check(t.len() == 1, "one section");
    let p = t[0].clone();
    vk::check(p.buffer[..p.size] == *want, "section bytes");
    p
}

fn read_back<T: Table>(p: &Psi, t: &T) {
    let mut r = T::default();
    r.take(p);
    let got = r.flat();
    for x in &got { vk::observe(*x) }
    vk::check(got == t.flat(), "fields read back");
}

/// Everything read back from all the sections of a table.
fn all_back<T: Table + PsiDemux>(t: &T) {
    let mut r = T::default();
    for p in trip_from(t, 0, 14) { r.take(&p) }
    let got = r.flat();
    vk::check(got == t.flat(), "fields read back");
    vk::cover("done");
}

/// Parsing these bytes gives these fields.
fn reads<T: Table>(v: &[u8], want: Vec<u64>) {
    let mut r = T::default();
    r.take(&psi(v));
    let got = r.flat();
    for x in &got { vk::observe(*x) }
    vk::check(got == want, "fields read");
    vk::check(T::from(&psi(v)).flat() == got, "the same in one step");
}

pub fn word(v: &[u8]) -> u64 { v[0] as u64 * 256 + v[1] as u64 }

/// Sets length and checksum of a section with any other contents.
pub fn sealed(v: &mut Vec<u8>) {
    let n = v.len() + 4;
    v[1] = v[1] & 0xf0 | ((n - 3) >> 8) as u8;
    v[2] = (n - 3) as u8;
    let c = crc32b(&v[..]);
    v.extend_from_slice(&c.to_be_bytes());
}

/// A length field with any flag bits, and nothing behind it but raw
/// descriptors.
pub fn put_len(v: &mut [u8], n: usize) {
    v[0] = v[0] & 0xf0 | (n >> 8) as u8;
    v[1] = n as u8;
}

/// Makes v a loop of n bytes: nothing, or one descriptor without own type.
pub fn put_loop(v: &mut [u8]) {
    if v.is_empty() { return }
    v[0] |= 0x84;
    v[1] = (v.len() - 2) as u8;
}

fn want_loop(v: &[u8], out: &mut Vec<u64>) {
    out.push(!v.is_empty() as u64);
    out.push(v.len() as u64);
    for x in v { out.push(*x as u64) }
}

/// A table with something in it.
fn filled<T: Table>(v: &[u8]) -> T {
    let mut v = v.to_vec();
    sealed(&mut v);
    let mut t = T::default();
    t.take(&psi(&v));
    t
}

/// Sections of any content for one table. `ids`: identifiers of the table,
/// `min`: its shortest section, `short`: contents without checksum.
fn any_section<T: Table>(mut t: T, ids: &[u8], few: &[u8], min: usize, most: usize) {
    let before = t.flat();
    let mine = |id: u8| ids.iter().fold(false, |a, x| a | (*x == id));
    let n = vk::pick(8, most);
    match vk::fork(3) {
        0 => {
            // valid
            let mut s = section(n);
            let kind = vk::fork(2);
            if kind == 0 { s[0] = vk::one_of(few); sum(&mut s) } else { vk::assume(!mine(s[0])) }
            let extra = vk::one_of(&[0, 3]);
            let mut p = psi(&s);
            p.buffer.extend_from_slice(&vk::bytes(extra));
            t.take(&p);
            if kind == 1 {
                vk::cover("other table");
                vk::check(t.flat() == before, "section of another table ignored");
            } else {
                vk::cover("valid");
                if n < min { vk::check(t.flat() == before, "too short section ignored") }
            }
        }
        1 => {
            // wrong checksum
            let mut s = section(n);
            let e = vk::u32();
            vk::assume(e != 0);
            s[0] = vk::one_of(few);
            sum(&mut s);
            for (i, x) in e.to_be_bytes().iter().enumerate() { s[n - 4 + i] ^= x }
            t.take(&psi(&s));
            vk::cover("wrong checksum");
            vk::check(t.flat() == before, "section with a wrong checksum ignored");
        }
        _ => {
            // not complete
            let mut s = section(n);
            s[0] = vk::one_of(few);
            sum(&mut s);
            let mut p = psi(&s);
            p.buffer.truncate(vk::pick(0, n - 1));
            if p.buffer.len() < 3 { p.size = 0 }
            t.take(&p);
            vk::cover("incomplete");
            vk::check(t.flat() == before, "incomplete section ignored");
        }
    }
}

/// Number of items: a single one in the runs that leave everything to the solver.
fn most(quick: usize, thorough: usize) -> usize {
    vk::param(0, vk::bound(quick, thorough) as u64) as usize
}

fn sum(s: &mut [u8]) {
    let n = s.len();
    let c = crc32b(&s[..n - 4]);
    s[n - 4..].copy_from_slice(&c.to_be_bytes());
}

/// One event: every field, and its bytes.
fn event(full: bool) -> (EitItem, Vec<u8>) {
    let id = vk::u16();
    let (start, sd) = if full { date_time() } else { (1600000000, vec![0xe6, 0xe1, 0x12, 0x26, 0x40]) };
    let (duration, dd) = if full { clock(9) } else { (5025, vec![1, 0x23, 0x45]) };
    let (status, ca) = (vk::bits(3) as u8, vk::bits(1) as u8);
    let (descriptors, raw) = some_loop();
    let mut v = vec![(id >> 8) as u8, id as u8];
    v.extend_from_slice(&sd);
    v.extend_from_slice(&dd);
    v.extend_from_slice(&len12(status << 1 | ca, raw.len()));
    v.extend_from_slice(&raw);
    (EitItem { event_id: id, start, duration, status, ca_mode: ca, descriptors }, v)
}

harness! {
    fn h_c14_pat() {
        vk::covers("valid,other table,wrong checksum,incomplete");
        any_section::<Pat>(filled(&[0, 0xb0, 0, 1, 2, 0xc5, 0, 0, 0, 1, 0xe1, 2]), &[0], &[0], 12, vk::bound(24, 40));
    }

    fn h_c14_pmt() {
        vk::covers("valid,other table,wrong checksum,incomplete");
        any_section::<Pmt>(filled(&[2, 0xb0, 0, 1, 2, 0xc5, 0, 0, 0xe1, 2, 0xf0, 3, 0x52, 1, 7, 2, 0xe1, 3, 0xf0, 3, 0x52, 1, 8]), &[2], &[2], 16, vk::bound(23, 26));
    }

    fn h_c14_sdt() {
        vk::covers("valid,other table,wrong checksum,incomplete");
        any_section::<Sdt>(filled(&[0x42, 0xf0, 0, 1, 2, 0xc5, 0, 0, 0, 9, 0xff, 0, 5, 0xfd, 0x80, 3, 0x52, 1, 8]), &[0x42, 0x46], &[0x42, 0x46], 15, vk::bound(26, 30));
    }

    fn h_c14_nit() {
        vk::covers("valid,other table,wrong checksum,incomplete");
        any_section::<Nit>(filled(&[0x40, 0xf0, 0, 1, 2, 0xc5, 0, 0, 0xf0, 3, 0x52, 1, 7, 0xf0, 9, 0, 1, 0, 2, 0xf0, 3, 0x52, 1, 8]), &[0x40, 0x41], &[0x40, 0x41], 16, vk::bound(23, 26));
    }

    fn h_c14_eit() {
        vk::covers("valid,other table,wrong checksum,incomplete");
        let ids: Vec<u8> = (0x4e..=0x6f).collect();
        let few = if vk::tier() == 0 { &[0x4e, 0x4f, 0x50, 0x5f, 0x60, 0x6f][..] } else { &ids[..] };
        any_event_section(&ids, few);
    }

    fn h_c14_tdt() {
        vk::covers("time,other");
        let mut t = Tdt { time: vk::u64() };
        let before = t.flat();
        let n = vk::pick(0, vk::bound(12, 20));
        let mut p = psi(&vk::bytes(n));
        p.size = match vk::fork(4) { 0 => n, 1 => 8, 2 => 0, _ => n / 2 };
        t.take(&p);
        if p.size == 8 && n >= 8 && p.buffer[0] == 0x70 {
            vk::cover("time");
        } else {
            vk::cover("other");
            vk::check(t.flat() == before, "not a complete time table: ignored");
        }
    }

    fn h_c14_tot() {
        vk::covers("valid,other table,wrong checksum,incomplete");
        any_section::<Tot>(filled(&[0x73, 0x70, 0, 0xe0, 0, 0x12, 0x34, 0x56, 0xf0, 3, 0x52, 1, 7]), &[0x73], &[0x73], 14, vk::bound(22, 26));
    }

    fn h_c15_trip() {
        vk::covers("empty,items");
        let n = vk::pick(0, most(6, 20));
        let mut t = Pat { version: vk::bits(5) as u8, tsid: vk::u16(), items: vec![] };
        let mut want = head(0, 0xb0, t.tsid, t.version, 0, 0);
        for _ in 0..n {
            let (pnr, pid) = (vk::u16(), vk::bits(13) as u16);
            want.extend_from_slice(&be(pnr));
            want.extend_from_slice(&be(0xe000 | pid));
            t.items.push(PatItem { pnr, pid });
        }
        vk::cover(if n == 0 { "empty" } else { "items" });
        let p = one_section(trip(&t), &closed(&want));
        read_back(&p, &t);
    }

    fn h_c15_read() {
        vk::covers("empty,items");
        let n = vk::pick(0, most(6, 20));
        let (mut v, w) = vk::twin_bytes(8 + 4 * n);
        v[0] = 0;
        sealed(&mut v);
        let mut want = vec![w[5] as u64 / 2 % 32, word(&w[3..]), n as u64];
        for c in w[8..].chunks(4) { want.extend_from_slice(&[word(c), word(&c[2..]) % 8192]) }
        vk::cover(if n == 0 { "empty" } else { "items" });
        reads::<Pat>(&v, want);
    }

    fn h_c16_trip() {
        vk::covers("empty,items");
        let n = vk::pick(0, most(2, 3));
        let (descriptors, raw) = some_loop();
        let mut t = Pmt { version: vk::bits(5) as u8, pnr: vk::u16(), pcr: vk::bits(13) as u16, descriptors, items: vec![] };
        let mut want = head(2, 0xb0, t.pnr, t.version, 0, 0);
        want.extend_from_slice(&be(0xe000 | t.pcr));
        want.extend_from_slice(&len12(15, raw.len()));
        want.extend_from_slice(&raw);
        for _ in 0..n {
            let (stream_type, pid) = (vk::u8(), vk::bits(13) as u16);
            let (descriptors, raw) = some_loop();
            want.push(stream_type);
            want.extend_from_slice(&be(0xe000 | pid));
            want.extend_from_slice(&len12(15, raw.len()));
            want.extend_from_slice(&raw);
            t.items.push(PmtItem { stream_type, pid, descriptors });
        }
        vk::cover(if n == 0 { "empty" } else { "items" });
        let p = one_section(trip(&t), &closed(&want));
        read_back(&p, &t);
    }

    fn h_c16_read() {
        vk::covers("empty,items");
        let a = vk::one_of(&[0, 2, 5]);
        let n = vk::pick(0, most(2, 3));
        let sizes: Vec<usize> = (0..n).map(|_| vk::one_of(&[0, 2, 6])).collect();
        let total = 12 + a + sizes.iter().map(|x| 5 + x).sum::<usize>();
        let mut v = vk::bytes(total);
        v[0] = 2;
        put_len(&mut v[10..], a);
        put_loop(&mut v[12..12 + a]);
        let mut at = 12 + a;
        for s in &sizes {
            put_len(&mut v[at + 3..], *s);
            put_loop(&mut v[at + 5..at + 5 + s]);
            at += 5 + s;
        }
        let w = vk::copy(&v);
        let mut want = vec![w[5] as u64 / 2 % 32, word(&w[3..]), word(&w[8..]) % 8192, n as u64];
        want_loop(&w[12..12 + a], &mut want);
        let mut at = 12 + a;
        for s in &sizes {
            want.extend_from_slice(&[w[at] as u64, word(&w[at + 1..]) % 8192]);
            want_loop(&w[at + 5..at + 5 + s], &mut want);
            at += 5 + s;
        }
        sealed(&mut v);
        vk::cover(if n == 0 { "empty" } else { "items" });
        reads::<Pmt>(&v, want);
    }

    fn h_c17_trip() {
        vk::covers("empty,items");
        let n = vk::pick(0, most(2, 3));
        let mut t = Sdt { table_id: vk::one_of(&[0x42, 0x46]), version: vk::bits(5) as u8, tsid: vk::u16(), onid: vk::u16(), items: vec![] };
        let mut want = head(t.table_id, 0xf0, t.tsid, t.version, 0, 0);
        want.extend_from_slice(&be(t.onid));
        want.push(0xff);
        for _ in 0..n {
            let pnr = vk::u16();
            let (s, pf, run, ca) = (vk::bits(1) as u8, vk::bits(1) as u8, vk::bits(3) as u8, vk::bits(1) as u8);
            let (descriptors, raw) = some_loop();
            want.extend_from_slice(&be(pnr));
            want.push(0xfc | s << 1 | pf);
            want.extend_from_slice(&len12(run << 1 | ca, raw.len()));
            want.extend_from_slice(&raw);
            t.items.push(SdtItem { pnr, eit_schedule_flag: s, eit_present_following_flag: pf, running_status: run, free_ca_mode: ca, descriptors });
        }
        vk::cover(if n == 0 { "empty" } else { "items" });
        let p = one_section(trip(&t), &closed(&want));
        read_back(&p, &t);
    }

    fn h_c17_read() {
        vk::covers("empty,items");
        let n = vk::pick(0, most(3, 4));
        let sizes: Vec<usize> = (0..n).map(|_| vk::one_of(&[0, 2, 6])).collect();
        let total = 11 + sizes.iter().map(|x| 5 + x).sum::<usize>();
        let mut v = vk::bytes(total);
        v[0] = vk::one_of(&[0x42, 0x46]);
        let mut at = 11;
        for s in &sizes {
            put_len(&mut v[at + 3..], *s);
            put_loop(&mut v[at + 5..at + 5 + s]);
            at += 5 + s;
        }
        let w = vk::copy(&v);
        let mut want = vec![w[0] as u64, w[5] as u64 / 2 % 32, word(&w[3..]), word(&w[8..]), n as u64];
        let mut at = 11;
        for s in &sizes {
            want.extend_from_slice(&[word(&w[at..]), w[at + 2] as u64 / 2 % 2, w[at + 2] as u64 % 2, w[at + 3] as u64 / 32, w[at + 3] as u64 / 16 % 2]);
            want_loop(&w[at + 5..at + 5 + s], &mut want);
            at += 5 + s;
        }
        sealed(&mut v);
        vk::cover(if n == 0 { "empty" } else { "items" });
        reads::<Sdt>(&v, want);
    }

    fn h_c18_trip() {
        vk::covers("empty,items");
        let n = vk::pick(0, most(2, 3));
        let (descriptors, raw) = some_loop();
        let mut t = Nit { table_id: vk::one_of(&[0x40, 0x41]), version: vk::bits(5) as u8, network_id: vk::u16(), descriptors, items: vec![] };
        let mut want = head(t.table_id, 0xf0, t.network_id, t.version, 0, 0);
        want.extend_from_slice(&len12(15, raw.len()));
        want.extend_from_slice(&raw);
        let mut items = vec![];
        for _ in 0..n {
            let (tsid, onid) = (vk::u16(), vk::u16());
            let (descriptors, raw) = some_loop();
            items.extend_from_slice(&be(tsid));
            items.extend_from_slice(&be(onid));
            items.extend_from_slice(&len12(15, raw.len()));
            items.extend_from_slice(&raw);
            t.items.push(NitItem { tsid, onid, descriptors });
        }
        want.extend_from_slice(&len12(15, items.len()));
        want.extend_from_slice(&items);
        vk::cover(if n == 0 { "empty" } else { "items" });
        let p = one_section(trip(&t), &closed(&want));
        read_back(&p, &t);
    }

    fn h_c18_read() {
        vk::covers("empty,items");
        let a = vk::one_of(&[0, 2, 5]);
        let n = vk::pick(0, most(2, 3));
        let sizes: Vec<usize> = (0..n).map(|_| vk::one_of(&[0, 2, 6])).collect();
        let items = sizes.iter().map(|x| 6 + x).sum::<usize>();
        let mut v = vk::bytes(12 + a + items);
        v[0] = vk::one_of(&[0x40, 0x41]);
        put_len(&mut v[8..], a);
        put_loop(&mut v[10..10 + a]);
        put_len(&mut v[10 + a..], items);
        let mut at = 12 + a;
        for s in &sizes {
            put_len(&mut v[at + 4..], *s);
            put_loop(&mut v[at + 6..at + 6 + s]);
            at += 6 + s;
        }
        let w = vk::copy(&v);
        let mut want = vec![w[0] as u64, w[5] as u64 / 2 % 32, word(&w[3..]), n as u64];
        want_loop(&w[10..10 + a], &mut want);
        let mut at = 12 + a;
        for s in &sizes {
            want.extend_from_slice(&[word(&w[at..]), word(&w[at + 2..])]);
            want_loop(&w[at + 6..at + 6 + s], &mut want);
            at += 6 + s;
        }
        sealed(&mut v);
        vk::cover(if n == 0 { "empty" } else { "items" });
        reads::<Nit>(&v, want);
    }

    fn h_c19_trip() {
        vk::covers("one,several");
        let n = vk::pick(1, most(2, 3));
        let full = vk::fork(n);
        let mut t = Eit { table_id: vk::one_of(&[0x4e, 0x4f]), version: vk::bits(5) as u8, pnr: vk::u16(), tsid: vk::u16(), onid: vk::u16(), items: vec![] };
        let last = n as u8 - 1;
        let mut want = vec![];
        for i in 0..n {
            let (e, raw) = event(i == full);
            let mut v = head(t.table_id, 0xf0, t.pnr, t.version, i as u8, last);
            v.extend_from_slice(&be(t.tsid));
            v.extend_from_slice(&be(t.onid));
            v.extend_from_slice(&[last, t.table_id]);
            v.extend_from_slice(&raw);
            want.push(closed(&v));
            t.items.push(e);
        }
        vk::cover(if n == 1 { "one" } else { "several" });
        let got = trip(&t);
        vk::check(got.len() == n, "one section for each event");
        let mut r = Eit::default();
        for (p, w) in got.iter().zip(&want) {
            vk::check(p.buffer[..p.size] == w[..], "section bytes");
            r.take(p);
        }
        let got = r.flat();
        for x in &got { vk::observe(*x) }
        vk::check(got == t.flat(), "fields read back");
    }

    fn h_c19_read() {
        vk::covers("empty,items");
        let n = vk::pick(0, most(1, 2));
        let mut sizes = vec![];
        let mut times = vec![];
        let mut v = vk::bytes(14);
        v[0] = vk::one_of(&[0x4e, 0x4f]);
        for i in 0..n {
            let s = vk::one_of(&[0, 2, 6]);
            let mut e = vk::bytes(12 + s);
            let (t, td) = if i == 0 { date_time() } else { (1600000000, vec![0xe6, 0xe1, 0x12, 0x26, 0x40]) };
            let (d, dd) = if i == 0 { clock(9) } else { (5025, vec![1, 0x23, 0x45]) };
            e[2..7].copy_from_slice(&td);
            e[7..10].copy_from_slice(&dd);
            put_len(&mut e[10..], s);
            put_loop(&mut e[12..]);
            v.extend_from_slice(&e);
            sizes.push(s);
            times.push((t, d));
        }
        let w = vk::copy(&v);
        let mut want = vec![w[0] as u64, w[5] as u64 / 2 % 32, word(&w[3..]), word(&w[8..]), word(&w[10..]), n as u64];
        let mut at = 14;
        for (s, t) in sizes.iter().zip(&times) {
            want.extend_from_slice(&[word(&w[at..]), t.0, t.1 as u64, w[at + 10] as u64 / 32, w[at + 10] as u64 / 16 % 2]);
            want_loop(&w[at + 12..at + 12 + s], &mut want);
            at += 12 + s;
        }
        sealed(&mut v);
        vk::cover(if n == 0 { "empty" } else { "items" });
        reads::<Eit>(&v, want);
    }

    fn h_c21_trip() {
        vk::covers("done");
        let (time, d) = date_time();
        let t = Tdt { time };
        let mut want = vec![0x70, 0x70, 5];
        want.extend_from_slice(&d);
        vk::cover("done");
        let p = one_section(trip(&t), &vk::copy(&want));
        read_back(&p, &t);
    }

    fn h_c21_read() {
        vk::covers("done");
        // any section with these digits
        let (time, d) = date_time();
        vk::cover("done");
        let (mut v, _) = vk::twin_bytes(3);
        v[0] = 0x70;
        v.extend_from_slice(&d);
        reads::<Tdt>(&v, vec![time, 0]);
    }

    fn h_c22_trip() {
        vk::covers("done");
        let (time, d) = date_time();
        let (mut descriptors, mut raw) = some_loop();
        if vk::fork(2) == 1 {
            // the descriptor this table is made for
            descriptors.push(Desc58 { items: vec![Desc58i { country_code: mpegts::textcode::StringDVB::from(&b"GBR"[..]), region_id: vk::bits(6) as u8, offset_polarity: 1, offset: 60, time_of_change: 0, next_offset: 120 }] });
            let mut v = Vec::new();
            descriptors.assemble(&mut v);
            raw = vk::copy(&v);
        }
        let t = Tot { time, descriptors };
        let mut want = vec![0x73, 0x70, 0];
        want.extend_from_slice(&d);
        want.extend_from_slice(&len12(15, raw.len()));
        want.extend_from_slice(&raw);
        vk::cover("done");
        let p = one_section(trip(&t), &closed(&want));
        vk::check(p.check(), "valid checksum");
        read_back(&p, &t);
    }

    fn h_c22_read() {
        vk::covers("done");
        let (time, d) = date_time();
        let s = vk::one_of(&[0, 2, 7]);
        let mut v = vk::bytes(10 + s);
        v[0] = 0x73;
        v[3..8].copy_from_slice(&d);
        put_len(&mut v[8..], s);
        put_loop(&mut v[10..]);
        let w = vk::copy(&v);
        let mut want = vec![time, 0];
        want_loop(&w[10..], &mut want);
        sealed(&mut v);
        vk::cover("done");
        reads::<Tot>(&v, want);
    }

    fn h_c16_long() {
        vk::covers("program,stream");
        let n = long(980, 256);
        let first = vk::fork(2) == 0;
        let (a, ra) = loop_of(if first { n } else { 0 });
        let (b, rb) = loop_of(if first { 4 } else { n });
        let mut t = Pmt { version: vk::bits(5) as u8, pnr: vk::u16(), pcr: vk::bits(13) as u16, descriptors: a, items: vec![] };
        t.items.push(PmtItem { stream_type: vk::u8(), pid: vk::bits(13) as u16, descriptors: b });
        t.items.push(PmtItem { stream_type: vk::u8(), pid: vk::bits(13) as u16, descriptors: Descriptors::default() });
        let mut want = head(2, 0xb0, t.pnr, t.version, 0, 0);
        want.extend_from_slice(&be(0xe000 | t.pcr));
        want.extend_from_slice(&len12(15, ra.len()));
        want.extend_from_slice(&ra);
        for (i, r) in t.items.iter().zip([&rb[..], &[]]) {
            want.push(i.stream_type);
            want.extend_from_slice(&be(0xe000 | i.pid));
            want.extend_from_slice(&len12(15, r.len()));
            want.extend_from_slice(r);
        }
        vk::cover(if first { "program" } else { "stream" });
        let p = one_section(trip_from(&t, 0, 14), &closed(&want));
        read_back(&p, &t);
    }

    fn h_c16_many() {
        vk::covers("done");
        let mut t = Pmt { version: vk::bits(5) as u8, pnr: vk::u16(), pcr: vk::bits(13) as u16, ..Pmt::default() };
        for _ in 0..vk::one_of(&[198, 440]) { t.items.push(PmtItem { stream_type: vk::u8(), pid: vk::bits(13) as u16, ..PmtItem::default() }) }
        all_back(&t);
    }

    fn h_c17_many() {
        vk::covers("done");
        let mut t = Sdt { table_id: vk::one_of(&[0x42, 0x46]), version: vk::bits(5) as u8, tsid: vk::u16(), onid: vk::u16(), items: vec![] };
        for _ in 0..vk::one_of(&[198, 440]) {
            t.items.push(SdtItem { pnr: vk::u16(), eit_schedule_flag: vk::bits(1) as u8, eit_present_following_flag: vk::bits(1) as u8, running_status: vk::bits(3) as u8, free_ca_mode: vk::bits(1) as u8, ..SdtItem::default() });
        }
        all_back(&t);
    }

    fn h_c18_many() {
        vk::covers("done");
        let mut t = Nit { table_id: vk::one_of(&[0x40, 0x41]), version: vk::bits(5) as u8, network_id: vk::u16(), ..Nit::default() };
        for _ in 0..vk::one_of(&[165, 350]) { t.items.push(NitItem { tsid: vk::u16(), onid: vk::u16(), ..NitItem::default() }) }
        all_back(&t);
    }

    fn h_c19_many() {
        vk::covers("present,schedule");
        // a section full of events
        let id = vk::one_of(&[0x4e, 0x4f, 0x50, 0x6f]);
        let n = vk::one_of(&[65, 339]);
        let mut v = head(id, 0xf0, vk::u16(), vk::bits(5) as u8, 0, 0);
        v.extend_from_slice(&vk::bytes(4));
        v.extend_from_slice(&[0, id]);
        let mut want = vec![id as u64, (v[5] >> 1 & 31) as u64, word(&v[3..]), word(&v[8..]), word(&v[10..]), n as u64];
        for _ in 0..n {
            let (e, status, ca) = (vk::u16(), vk::bits(3) as u8, vk::bits(1) as u8);
            v.extend_from_slice(&be(e));
            v.extend_from_slice(&[0xe6, 0xe1, 0x12, 0x26, 0x40, 1, 0x23, 0x45, status << 5 | ca << 4, 0]);
            want.extend_from_slice(&[e as u64, 1600000000, 5025, status as u64, ca as u64, 0, 0]);
        }
        sealed(&mut v);
        vk::cover(if id < 0x50 { "present" } else { "schedule" });
        reads::<Eit>(&v, want);
    }

    fn h_c17_long() {
        vk::covers("done");
        let (d, r) = loop_of(long(990, 256));
        let mut t = Sdt { table_id: 0x42, version: vk::bits(5) as u8, tsid: vk::u16(), onid: vk::u16(), items: vec![] };
        let mut want = head(t.table_id, 0xf0, t.tsid, t.version, 0, 0);
        want.extend_from_slice(&be(t.onid));
        want.push(0xff);
        for (d, r) in [(d, r), (Descriptors::default(), vec![])] {
            let pnr = vk::u16();
            let (s, pf, run, ca) = (vk::bits(1) as u8, vk::bits(1) as u8, vk::bits(3) as u8, vk::bits(1) as u8);
            want.extend_from_slice(&be(pnr));
            want.push(0xfc | s << 1 | pf);
            want.extend_from_slice(&len12(run << 1 | ca, r.len()));
            want.extend_from_slice(&r);
            t.items.push(SdtItem { pnr, eit_schedule_flag: s, eit_present_following_flag: pf, running_status: run, free_ca_mode: ca, descriptors: d });
        }
        vk::cover("done");
        let p = one_section(trip_from(&t, 0, 14), &closed(&want));
        read_back(&p, &t);
    }

    fn h_c18_long() {
        vk::covers("network,stream");
        let n = long(980, 256);
        let first = vk::fork(2) == 0;
        let (a, ra) = loop_of(if first { n } else { 0 });
        let (b, rb) = loop_of(if first { 4 } else { n });
        let mut t = Nit { table_id: 0x40, version: vk::bits(5) as u8, network_id: vk::u16(), descriptors: a, items: vec![] };
        t.items.push(NitItem { tsid: vk::u16(), onid: vk::u16(), descriptors: b });
        t.items.push(NitItem { tsid: vk::u16(), onid: vk::u16(), descriptors: Descriptors::default() });
        let mut want = head(t.table_id, 0xf0, t.network_id, t.version, 0, 0);
        want.extend_from_slice(&len12(15, ra.len()));
        want.extend_from_slice(&ra);
        want.extend_from_slice(&len12(15, 12 + rb.len()));
        for (i, r) in t.items.iter().zip([&rb[..], &[]]) {
            want.extend_from_slice(&be(i.tsid));
            want.extend_from_slice(&be(i.onid));
            want.extend_from_slice(&len12(15, r.len()));
            want.extend_from_slice(r);
        }
        vk::cover(if first { "network" } else { "stream" });
        let p = one_section(trip_from(&t, 0, 14), &closed(&want));
        read_back(&p, &t);
    }

    fn h_c19_long() {
        vk::covers("done");
        let (d, r) = loop_of(long(4060, vk::bound(1024, 256)));
        let mut t = Eit { table_id: 0x4e, version: vk::bits(5) as u8, pnr: vk::u16(), tsid: vk::u16(), onid: vk::u16(), items: vec![] };
        let (status, ca) = (vk::bits(3) as u8, vk::bits(1) as u8);
        let mut want = head(t.table_id, 0xf0, t.pnr, t.version, 0, 0);
        want.extend_from_slice(&be(t.tsid));
        want.extend_from_slice(&be(t.onid));
        want.extend_from_slice(&[0, t.table_id]);
        let id = vk::u16();
        want.extend_from_slice(&be(id));
        want.extend_from_slice(&[0xe6, 0xe1, 0x12, 0x26, 0x40, 1, 0x23, 0x45]);
        want.extend_from_slice(&len12(status << 1 | ca, r.len()));
        want.extend_from_slice(&r);
        t.items.push(EitItem { event_id: id, start: 1600000000, duration: 5025, status, ca_mode: ca, descriptors: d });
        vk::cover("done");
        let p = one_section(trip_from(&t, 0, 14), &closed(&want));
        read_back(&p, &t);
    }

    fn h_c22_long() {
        vk::covers("done");
        let (descriptors, r) = loop_of(long(1000, 256));
        let t = Tot { time: 1600000000, descriptors };
        let mut want = vec![0x73, 0x70, 0, 0xe6, 0xe1, 0x12, 0x26, 0x40];
        want.extend_from_slice(&len12(15, r.len()));
        want.extend_from_slice(&r);
        vk::cover("done");
        let p = one_section(trip_from(&t, 0, 14), &closed(&want));
        vk::check(p.check(), "valid checksum");
        read_back(&p, &t);
    }
}

/// Sizes of long descriptor loops, up to the most that fits.
fn long(most: usize, step: usize) -> usize {
    let mut v: Vec<usize> = (vk::bound(253, 150)..=vk::bound(259, 280)).collect();
    let mut n = step.max(512);
    while n <= most {
        v.extend_from_slice(&[n - 1, n, n + 1]);
        n += step;
    }
    v.push(most);
    vk::one_of(&v)
}

/// Event sections: times with arbitrary digits are kept apart from the rest.
fn any_event_section(ids: &[u8], few: &[u8]) {
    let mut v = vec![0x4e, 0xf0, 0, 0, 1, 0xc3, 0, 0, 0, 2, 0, 3, 0, 0x4e];
    v.extend_from_slice(&[0, 9, 0xe6, 0xe1, 0x12, 0x26, 0x40, 1, 0x23, 0x45, 0x80, 3, 0x52, 1, 7]);
    any_section::<Eit>(filled(&v), ids, few, 18, vk::bound(36, 40));
}
