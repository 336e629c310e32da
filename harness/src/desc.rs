//! Descriptors: loops of any content, every field of every known type, copies.

use crate::text::selector;
use crate::vk;
use mpegts::psi::*;
use mpegts::textcode::{StringDVB, UTF8};
use std::fmt::{self, Write};

/// Tags with a dedicated type.
pub const KNOWN: [u8; 14] = [0x09, 0x0a, 0x0e, 0x40, 0x41, 0x43, 0x44, 0x48, 0x4d, 0x4e, 0x52, 0x58, 0x5a, 0x83];

/// Length bytes and tags of a loop, as the format defines it.
pub fn walk(v: &[u8]) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut at = 0;
    while v.len() - at >= 2 {
        if v[at + 1] as usize > v.len() - at - 2 { break }
        let next = at + 2 + vk::conc(v[at + 1] as u64) as usize;
        out.push((at, next));
        at = next;
    }
    out
}

pub fn parsed(v: &[u8]) -> Descriptors {
    let mut d = Descriptors::default();
    d.parse(v);
    d
}

/// The loop as written, checked against its announced size and behind
/// existing output.
pub fn written(d: &Descriptors) -> Vec<u8> {
    let at = vk::fork(2) * 3;
    let mut v = vec![0xa5; at];
    let n = d.assemble(&mut v);
    vk::check(v.len() == at + n, "number of bytes reported");
    vk::check(d.size() == n, "announced size");
    vk::check(v[..at] == [0xa5; 3][..at], "existing output kept");
    v.split_off(at)
}

pub fn plain(d: &Descriptors) -> Vec<u8> {
    let mut v = Vec::new();
    d.assemble(&mut v);
    v
}

/// The loop is made of whole descriptors.
fn consistent(v: &[u8]) -> Vec<(usize, usize)> {
    let at = walk(v);
    vk::check(at.last().map_or(0, |x| x.1) == v.len(), "length bytes match the content");
    at
}

/// One descriptor: written as the wanted bytes.
fn writes<T: 'static + Desc>(d: T, want: &[u8]) -> Descriptors {
    let mut l = Descriptors::default();
    l.push(d);
    let got = written(&l);
    vk::observe_bytes(&got);
    vk::check(got == want, "bytes written");
    parsed(&got)
}

/// One descriptor: read from the given bytes.
fn reads(tag: u8, body: &[u8]) -> Descriptors {
    let mut v = vec![tag, body.len() as u8];
    v.extend_from_slice(body);
    let l = parsed(&v);
    vk::check(l.len() == 1, "one descriptor");
    l
}

fn only<T: 'static + Desc + Clone>(l: &mut Descriptors) -> T {
    vk::check(l.len() == 1, "one descriptor");
    l.get(0).unwrap().downcast_ref::<T>().clone()
}

/// Decimal digits, most significant first.
pub fn digits(n: usize) -> Vec<u8> { (0..n).map(|_| vk::range(0, 9) as u8).collect() }

/// Decimal digits of a number not above the given one.
fn digits_upto(top: &[u8]) -> Vec<u8> {
    let k = vk::fork(top.len() + 1);
    vk::assume(k == top.len() || top[k] > 0);
    (0..top.len()).map(|i| if i < k { top[i] } else { vk::range(0, if i == k { top[i] as u64 - 1 } else { 9 }) as u8 }).collect()
}

/// The number with these digits.
pub fn number(d: &[u8]) -> u32 { d.iter().fold(0, |a, x| a * 10 + *x as u32) }

/// Two digits per byte.
pub fn packed(d: &[u8]) -> Vec<u8> { d.chunks(2).map(|x| if x.len() == 2 { x[0] << 4 | x[1] } else { x[0] << 4 }).collect() }

/// Hours, minutes and seconds below the given number of hours, as number and
/// as digits.
pub fn clock(tens: u64) -> (u32, Vec<u8>) {
    let h1 = vk::fork(tens as usize + 1) as u8;
    let h0 = vk::range(0, if tens == 2 && h1 == 2 { 3 } else { 9 }) as u8;
    let (m1, m0, s1, s0) = (vk::range(0, 5) as u8, vk::range(0, 9) as u8, vk::range(0, 5) as u8, vk::range(0, 9) as u8);
    let t = (h1 as u32 * 10 + h0 as u32) * 3600 + (m1 as u32 * 10 + m0 as u32) * 60 + s1 as u32 * 10 + s0 as u32;
    (t, packed(&[h1, h0, m1, m0, s1, s0]))
}

pub fn clock_of(tens: u64) -> u32 { clock(tens).0 }

/// A time from 1970 on, and its five bytes.
pub fn date_time() -> (u64, Vec<u8>) {
    let day = vk::range(0, 65535 - 40587);
    let (t, d) = clock(2);
    let mjd = (day + 40587) as u16;
    (day * 86400 + t as u64, vec![(mjd >> 8) as u8, mjd as u8, d[0], d[1], d[2]])
}

/// A text of n bytes in one of four tables, with its bytes in the format.
pub fn text(n: usize) -> (StringDVB, Vec<u8>) {
    if n == 0 { return (StringDVB::default(), vec![]) }
    let cp = [0, 1, 5, UTF8][vk::fork(4)];
    text_in(cp, n)
}

fn text_in(cp: u8, n: usize) -> (StringDVB, Vec<u8>) {
    let mut v = selector(cp);
    let t = vk::bytes(n);
    if cp == 0 { vk::assume(t[0] >= 0x20) }
    v.extend_from_slice(&t);
    (StringDVB::from(v.as_slice()), vk::copy(&v))
}

/// Three letters, and the value holding them.
fn code() -> (StringDVB, Vec<u8>) {
    let mut v = vec![];
    for _ in 0..3 { v.push(vk::range(0x20, 0x7e) as u8) }
    (StringDVB::from(v.as_slice()), vk::copy(&v))
}

fn sized(v: &[u8]) -> Vec<u8> {
    let mut r = vec![v.len() as u8];
    r.extend_from_slice(v);
    r
}

fn same_text(a: &StringDVB, b: &StringDVB) -> bool {
    (a.as_bytes() == b.as_bytes()) & (a.is_empty() | (a.get_codepage() == b.get_codepage()))
}

/// The text is what these bytes of the format say.
fn is_text(s: &StringDVB, raw: &[u8]) -> bool { same_text(s, &StringDVB::from(raw)) }

/// A text taking this many bytes of the format.
fn text_sized(n: usize) -> (StringDVB, Vec<u8>) {
    if n == 0 { return text(0) }
    let cp = if n > 3 { vk::one_of(&[0, 1, 5]) as u8 } else { 0 };
    text_in(cp, n - selector(cp).len())
}

type Text = (StringDVB, Vec<u8>);

fn name((s, raw): Text) {
    let mut want = vec![0x40];
    want.extend_from_slice(&sized(&raw));
    vk::cover("name");
    let r = only::<Desc40>(&mut writes(Desc40 { name: s.clone() }, &want));
    vk::check(same_text(&r.name, &s), "name read back");
}

fn services(n: usize) {
    let mut want = vec![0x41, n as u8 * 3];
    let mut x = Desc41::default();
    let raw = vk::bytes(n * 3);
    for c in raw.chunks(3) { x.items.push(Desc41i { service_id: (c[0] as u16) << 8 | c[1] as u16, service_type: c[2] }) }
    let raw = vk::copy(&raw);
    want.extend_from_slice(&raw);
    vk::cover("list");
    let r = only::<Desc41>(&mut writes(x, &want));
    vk::check(r.items.len() == n, "number of services");
    for (i, c) in r.items.iter().zip(raw.chunks(3)) {
        vk::check((i.service_id as u32 == c[0] as u32 * 256 + c[1] as u32) & (i.service_type == c[2]), "service read back");
    }
}

fn service((p, a): Text, (s, b): Text) {
    let t = vk::u8();
    let mut want = vec![0x48, (3 + a.len() + b.len()) as u8, t];
    want.extend_from_slice(&sized(&a));
    want.extend_from_slice(&sized(&b));
    vk::cover("service");
    let r = only::<Desc48>(&mut writes(Desc48 { service_type: vk::same(t as u64) as u8, provider: p.clone(), name: s.clone() }, &want));
    vk::check(r.service_type == t, "type read back");
    vk::check(same_text(&r.provider, &p) & same_text(&r.name, &s), "names read back");
}

fn channels(n: usize) {
    let mut want = vec![0x83, n as u8 * 4];
    let mut x = Desc83::default();
    let mut vals = vec![];
    for _ in 0..n {
        let (s, v, l) = (vk::u16(), vk::bits(1) as u8, vk::bits(10) as u16);
        x.items.push(Desc83i { service_id: s, visible: v, lcn: l });
        want.extend_from_slice(&[(s >> 8) as u8, s as u8, v << 7 | 0x7c | (l >> 8) as u8, l as u8]);
        vals.push((s, v, l));
    }
    let want = vk::copy(&want);
    vk::cover("channels");
    let r = only::<Desc83>(&mut writes(x, &want));
    vk::check(r.items.len() == n, "number of channels");
    for (i, c) in r.items.iter().zip(&vals) {
        vk::check((i.service_id == c.0) & (i.visible == c.1) & (i.lcn == c.2), "channel read back");
    }
}

fn short((n, a): Text, (t, b): Text) {
    let (l, lang) = code();
    let mut want = vec![0x4d, (5 + a.len() + b.len()) as u8];
    want.extend_from_slice(&lang);
    want.extend_from_slice(&sized(&a));
    want.extend_from_slice(&sized(&b));
    vk::cover("short");
    let r = only::<Desc4D>(&mut writes(Desc4D { lang: l, name: n.clone(), text: t.clone() }, &want));
    vk::check(r.lang.as_bytes() == &lang[..], "language read back");
    vk::check(same_text(&r.name, &n) & same_text(&r.text, &t), "texts read back");
}

/// A text of n letters.
fn letters(n: usize) -> Text {
    let mut v = vec![];
    for _ in 0..n { v.push(vk::range(0x20, 0x7e) as u8) }
    (StringDVB::from(v.as_slice()), vk::copy(&v))
}

fn extended(list: Vec<(Text, Text)>, (t, b): Text) {
    let (l, lang) = code();
    let (no, last) = (vk::bits(4) as u8, vk::bits(4) as u8);
    let mut items = vec![];
    let mut raw = vec![];
    for ((d, x), (t, y)) in list {
        raw.extend_from_slice(&sized(&x));
        raw.extend_from_slice(&sized(&y));
        items.push((d, t));
    }
    let mut want = vec![0x4e, (6 + raw.len() + b.len()) as u8, no << 4 | last];
    want.extend_from_slice(&lang);
    want.extend_from_slice(&sized(&raw));
    want.extend_from_slice(&sized(&b));
    let want = vk::copy(&want);
    vk::cover(if items.is_empty() { "extended" } else { "items" });
    let r = only::<Desc4E>(&mut writes(Desc4E { number: no, last_number: last, lang: l, items: items.clone(), text: t.clone() }, &want));
    vk::check((r.number == no) & (r.last_number == last), "numbers read back");
    vk::check(r.lang.as_bytes() == &lang[..], "language read back");
    vk::check(same_text(&r.text, &t), "text read back");
    vk::check(r.items.len() == items.len(), "number of items");
    for (i, j) in r.items.iter().zip(&items) {
        vk::check(same_text(&i.0, &j.0) & same_text(&i.1, &j.1), "item read back");
    }
}

fn access(n: usize) {
    let (caid, pid) = (vk::u16(), vk::bits(13) as u16);
    let (data, copy) = vk::twin_bytes(n);
    let mut want = vec![9, 4 + copy.len() as u8, (caid >> 8) as u8, caid as u8, 0xe0 | (pid >> 8) as u8, pid as u8];
    want.extend_from_slice(&copy);
    let want = vk::copy(&want);
    vk::cover("access");
    let r = only::<Desc09>(&mut writes(Desc09 { caid, pid, data }, &want));
    vk::check((r.caid == caid) & (r.pid == pid), "identifiers read back");
    vk::check(r.data == copy, "data read back");
}

fn languages(n: usize) {
    let mut want = vec![0x0a, n as u8 * 4];
    let mut x = Desc0A::default();
    let mut all = vec![];
    for _ in 0..n {
        let (c, raw) = code();
        let t = vk::u8();
        x.items.push(Desc0Ai { code: c, audio_type: vk::same(t as u64) as u8 });
        want.extend_from_slice(&raw);
        want.push(t);
        all.push((raw, t));
    }
    vk::cover("language");
    let r = only::<Desc0A>(&mut writes(x, &want));
    vk::check(r.items.len() == n, "number of languages");
    for (i, j) in r.items.iter().zip(&all) {
        vk::check((i.code.as_bytes() == &j.0[..]) & (i.audio_type == j.1), "language read back");
    }
}

/// Any entry of the local time offset list, and its bytes.
fn offset() -> (Desc58i, Vec<u8>) {
    let (c, mut raw) = code();
    let (region, pol) = (vk::bits(6) as u8, vk::bits(1) as u8);
    let (o, od) = clock_minutes();
    let (t, td) = date_time();
    let (p, pd) = clock_minutes();
    raw.push(region << 2 | 2 | pol);
    raw.extend_from_slice(&od);
    raw.extend_from_slice(&td);
    raw.extend_from_slice(&pd);
    (Desc58i { country_code: c, region_id: region, offset_polarity: pol, offset: o, time_of_change: t, next_offset: p }, vk::copy(&raw))
}

/// Entries equal field by field.
fn same_offset(a: &Desc58i, b: &Desc58i) -> bool {
    (a.country_code.as_bytes() == b.country_code.as_bytes()) & (a.region_id == b.region_id) & (a.offset_polarity == b.offset_polarity) & (a.offset == b.offset) & (a.next_offset == b.next_offset) & (a.time_of_change == b.time_of_change)
}

struct Sink(u64);

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

/// Body of any descriptor of this type with few variable bytes.
fn sample(tag: u8) -> Vec<u8> {
    let any = |n: usize| vk::bytes(n);
    let mut v = vec![];
    match tag {
        0x0a => { v.extend_from_slice(b"eng"); v.extend_from_slice(&any(1)) }
        0x40 => v.extend_from_slice(&any(2)),
        0x48 => { v.extend_from_slice(&any(1)); v.push(1); v.extend_from_slice(&any(1)); v.push(1); v.extend_from_slice(&any(1)) }
        0x4d => { v.extend_from_slice(b"rus\x01"); v.extend_from_slice(&any(1)); v.push(1); v.extend_from_slice(&any(1)) }
        0x4e => { v.extend_from_slice(b"\x01rus\x03\x01"); v.extend_from_slice(&any(1)); v.extend_from_slice(&[0, 1]); v.extend_from_slice(&any(1)) }
        0x58 => { v.extend_from_slice(b"GBR"); v.extend_from_slice(&any(10)) }
        0x41 => v.extend_from_slice(&any(3)),
        0x83 => v.extend_from_slice(&any(4)),
        0x09 => v.extend_from_slice(&any(5)),
        0x0e => v.extend_from_slice(&any(3)),
        0x52 => v.extend_from_slice(&any(1)),
        _ => v.extend_from_slice(&any(11)),
    }
    v
}

harness! {
    fn h_c24_loop() {
        vk::covers("empty,several,truncated,known,other");
        let n = vk::pick(0, vk::bound(7, 10));
        let (v, w) = vk::twin_bytes(n);
        let mut d = parsed(&v);
        let at = walk(&w);
        vk::cover(match at.len() { 0 => "empty", 1 => "other", _ => "several" });
        if at.last().map_or(0, |x| x.1) < n { vk::cover("truncated") }
        vk::check(d.len() == at.len(), "every descriptor present");
        vk::check(d.is_empty() == at.is_empty(), "empty exactly without descriptors");
        for (i, (a, _)) in at.iter().enumerate() {
            let tag = d.get(i).unwrap().tag();
            vk::observe(tag as u64);
            vk::check(tag == w[*a], "tags in order");
            if w[*a] == 0x52 { vk::cover("known") }
        }
    }

    fn h_c24_typed() {
        vk::covers("done,truncated");
        // one whole descriptor of every type, and the start of another
        let tag = vk::one_of(&[0x09, 0x0a, 0x0e, 0x40, 0x41, 0x43, 0x44, 0x48, 0x4d, 0x4e, 0x52, 0x58, 0x5a, 0x83, 0x00, 0x42, 0xff]);
        let most = match tag { 0x4e => vk::bound(16, 20), 0x48 | 0x4d => vk::bound(20, 32), _ => vk::bound(30, 60) };
        let n = vk::pick(0, most);
        let mut v = vec![tag, n as u8];
        v.extend_from_slice(&vk::bytes(n));
        let rest = vk::fork(3);
        v.extend_from_slice(&vk::bytes(rest));
        if rest == 2 { vk::assume(v[n + 3] > 0) }
        let d = parsed(&v);
        vk::cover(if rest > 0 { "truncated" } else { "done" });
        vk::check(d.len() == 1, "the descriptor is present");
        vk::check(d.iter().next().unwrap().tag() == tag, "its tag is kept");
    }

    fn h_c24_print() {
        vk::covers("typed,raw");
        let k = vk::fork(16);
        let (tag, body) = if k < 14 { (KNOWN[k], sample(KNOWN[k])) } else { ([0x42, 0x43][k - 14], vk::bytes(2)) };
        let mut v = vec![tag, body.len() as u8];
        v.extend_from_slice(&body);
        let d = parsed(&v);
        let mut s = Sink(0);
        let ok = write!(s, "{:?}", d).is_ok();
        vk::cover(if k < 14 { "typed" } else { "raw" });
        vk::check(ok, "printed");
        vk::check(s.0 > 0, "not empty");
    }

    fn h_c25_loop() {
        vk::covers("empty,one,several,truncated");
        let n = vk::pick(0, vk::bound(7, 9));
        let (v, w) = vk::twin_bytes(n);
        let d = parsed(&v);
        let at = walk(&w);
        vk::cover(match at.len() { 0 => "empty", 1 => "one", _ => "several" });
        if at.last().map_or(0, |x| x.1) < n { vk::cover("truncated") }
        let out = written(&d);
        vk::observe_bytes(&out);
        let got = consistent(&out);
        vk::check(got.len() == at.len(), "one descriptor written for each");
        for ((a, b), (x, y)) in at.iter().zip(&got) {
            vk::check(w[*a] == out[*x], "tags in order");
            let known = KNOWN.iter().fold(false, |k, t| k | (*t == w[*a]));
            vk::check(known | (w[*a..*b] == out[*x..*y]), "byte for byte");
        }
        let again = parsed(&out);
        vk::check(again.len() == d.len(), "same number when read again");
        vk::check(plain(&again) == out, "same loop when read again");
    }

    fn h_c25_typed() {
        vk::covers("done");
        let tag = vk::one_of(&KNOWN);
        let most = match tag { 0x4e => vk::bound(12, 16), 0x48 | 0x4d => vk::bound(14, 20), _ => vk::bound(28, 41) };
        let n = vk::pick(0, most);
        let mut v = vec![tag, n as u8];
        v.extend_from_slice(&vk::bytes(n));
        let tail = [0x77, 2, vk::u8(), vk::u8()];
        v.extend_from_slice(&tail);
        // dates and times in range, or any digits
        let mut stable = true;
        if tag == 0x58 {
            stable = vk::fork(2) == 0;
            for i in (2..n + 2).step_by(13).filter(|i| stable && i + 13 <= n + 2) {
                v[i + 4..i + 6].copy_from_slice(&clock_minutes().1);
                v[i + 6..i + 11].copy_from_slice(&date_time().1);
                v[i + 11..i + 13].copy_from_slice(&clock_minutes().1);
            }
        }
        // cable frequencies below or above what 32 bits of Hz hold
        if tag == 0x44 && n == 11 { v[2] = if vk::fork(2) == 0 { vk::range(0, 0x41) } else { vk::range(0x43, 0xff) } as u8 }
        let w = vk::copy(&v);
        let d = parsed(&v);
        let out = written(&d);
        vk::observe_bytes(&out);
        let got = consistent(&out);
        vk::check(got.len() == 2, "both written");
        vk::check((out[0] == tag) & (out[got[1].0..] == w[n + 2..]), "in order");
        vk::cover("done");
        if !stable { return }
        let again = parsed(&out);
        vk::check(again.len() == 2, "same number when read again");
        vk::check(plain(&again) == out, "same loop when read again");
    }

    fn h_c25_many() {
        vk::covers("empty,small,large");
        // loops up to the largest a table carries
        let (k, n) = [(0, 2047), (0, 130), (3, 819), (253, 16)][vk::fork(4)];
        let mut v = vec![];
        for _ in 0..n {
            v.extend_from_slice(&[vk::range(0x84, 0xff) as u8, k as u8]);
            v.extend_from_slice(&vk::bytes(k.min(2)));
            v.resize(v.len() + k - k.min(2), 0x5c);
        }
        let w = vk::copy(&v);
        vk::cover(if k == 0 { "empty" } else if k < 10 { "small" } else { "large" });
        let d = parsed(&v);
        vk::check((d.len() == n) & (d.size() == w.len()), "every descriptor read");
        vk::check(written(&d) == w, "byte for byte");
    }

    fn h_c25_large() {
        vk::covers("list,text,data");
        // the largest descriptors the format carries
        let mut d = Descriptors::default();
        let mut lists = true;
        match vk::fork(10) {
            0 => { let mut x = Desc0A::default(); for _ in 0..vk::pick(60, 63) { x.items.push(Desc0Ai { code: StringDVB::from(&b"eng"[..]), audio_type: vk::u8() }) } d.push(x) }
            1 => { let mut x = Desc41::default(); for _ in 0..vk::pick(80, 85) { x.items.push(Desc41i { service_id: vk::u16(), service_type: vk::u8() }) } d.push(x) }
            2 => { let mut x = Desc83::default(); for _ in 0..vk::pick(60, 63) { x.items.push(Desc83i { service_id: vk::u16(), visible: vk::bits(1) as u8, lcn: vk::bits(10) as u16 }) } d.push(x) }
            3 => { let mut x = Desc58::default(); for _ in 0..vk::pick(16, 19) { x.items.push(Desc58i { country_code: StringDVB::from(&b"GBR"[..]), region_id: vk::bits(6) as u8, ..Default::default() }) } d.push(x) }
            k => {
                lists = false;
                let room = vk::pick(0, 2);
                match k {
                    4 => d.push(DescRaw { tag: vk::range(0x84, 0xff) as u8, data: vk::bytes(255 - room) }),
                    5 => d.push(Desc09 { caid: vk::u16(), pid: vk::bits(13) as u16, data: vk::bytes(251 - room) }),
                    6 => d.push(Desc40 { name: text_in(UTF8, 254 - room).0 }),
                    7 => { let a = vk::one_of(&[0, 1, 100, 249]); d.push(Desc48 { service_type: vk::u8(), provider: text_in(5, 250 - a).0, name: if a > room { text_in(5, a - room).0 } else { Default::default() } }) }
                    8 => { let a = vk::one_of(&[0, 1, 100, 246]); d.push(Desc4D { lang: code().0, name: text_in(1, 247 - a).0, text: if a > 3 + room { text_in(1, a - 3 - room).0 } else { Default::default() } }) }
                    _ => {
                        let mut items = vec![];
                        for _ in 0..vk::pick(0, 3) { items.push((text_in(5, 30).0, text_in(0, 29).0)) }
                        let used = items.len() * 62;
                        d.push(Desc4E { number: vk::bits(4) as u8, last_number: vk::bits(4) as u8, lang: code().0, items, text: text_in(5, 248 - used - room).0 })
                    }
                }
                vk::cover(if k < 6 { "data" } else { "text" });
            }
        }
        if lists { vk::cover("list") }
        d.push(Desc52 { tag: vk::u8() });
        let out = written(&d);
        let got = consistent(&out);
        vk::check(got.len() == 2, "length byte matches the content");
        let again = parsed(&out);
        vk::check((again.len() == 2) & (again.size() == out.len()), "same loop when read again");
        vk::check(plain(&again) == out, "same bytes when written again");
    }

    fn h_c51_oversize() {
        vk::covers("list,text,data");
        // one descriptor with more than its length byte can say, between two others
        let mut d = Descriptors::default();
        let (a, b) = (vk::u8(), vk::u8());
        let n = vk::one_of(&[0, 1, 2, 255, 256, 257]);
        d.push(Desc52 { tag: a });
        match vk::fork(10) {
            0 => { let mut x = Desc0A::default(); for _ in 0..64 + n / 4 { x.items.push(Desc0Ai { code: StringDVB::from(&b"eng"[..]), audio_type: vk::u8() }) } d.push(x); vk::cover("list") }
            1 => { let mut x = Desc41::default(); for _ in 0..86 + n / 3 { x.items.push(Desc41i { service_id: vk::u16(), service_type: vk::u8() }) } d.push(x) }
            2 => { let mut x = Desc83::default(); for _ in 0..64 + n / 4 { x.items.push(Desc83i { service_id: vk::u16(), visible: vk::bits(1) as u8, lcn: vk::bits(10) as u16 }) } d.push(x) }
            3 => { let mut x = Desc58::default(); for _ in 0..20 + n / 13 { x.items.push(Desc58i { country_code: StringDVB::from(&b"GBR"[..]), region_id: vk::bits(6) as u8, ..Default::default() }) } d.push(x) }
            4 => { d.push(DescRaw { tag: vk::range(0x84, 0xff) as u8, data: vk::bytes(256 + n) }); vk::cover("data") }
            5 => d.push(Desc09 { caid: vk::u16(), pid: vk::bits(13) as u16, data: vk::bytes(252 + n) }),
            6 => d.push(Desc40 { name: text_in(UTF8, 255 + n).0 }),
            7 => { let k = vk::one_of(&[1, 100, 252]); d.push(Desc48 { service_type: vk::u8(), provider: text_in(5, 253 - k).0, name: text_in(0, k + n).0 }); vk::cover("text") }
            8 => { let k = vk::one_of(&[1, 100, 249]); d.push(Desc4D { lang: code().0, name: text_in(5, 250 - k).0, text: text_in(0, k + n).0 }) }
            _ => {
                let items = vec![(text_in(5, 30).0, text_in(0, 29).0)];
                d.push(Desc4E { number: vk::bits(4) as u8, last_number: vk::bits(4) as u8, lang: code().0, items, text: text_in(5, 187 + n).0 })
            }
        }
        d.push(Desc52 { tag: b });
        let out = written(&d);
        let got = consistent(&out);
        vk::check((got.len() >= 2) && (out[..3] == [0x52, 1, a]) && (out[out.len() - 3..] == [0x52, 1, b]), "neighbours written");
        let again = parsed(&out);
        vk::check(again.len() == got.len(), "same number when read again");
        vk::check(plain(&again) == out, "same loop when read again");
    }

    fn h_c26_write() {
        vk::covers("satellite,cable,terrestrial");
        match vk::fork(3) {
            0 => {
                let (f, o, s) = (digits(8), digits(4), digits(6));
                let b = |n| vk::bits(n) as u8;
                let (we, pol, rof, s2, m, fec) = (b(1), b(2), b(2), b(1), b(2), b(4));
                let mut want = vec![0x43, 11];
                want.extend_from_slice(&packed(&f));
                want.extend_from_slice(&packed(&o));
                want.push(we << 7 | pol << 5 | rof << 3 | s2 << 2 | m);
                want.extend_from_slice(&packed(&s));
                want.push(fec);
                let want = vk::copy(&want);
                let frequency = number(&f) * 10;
                let orbital_position = number(&o) as u16 * 6;
                let symbol_rate = number(&s);
                let x = Desc43 { frequency, orbital_position, west_east_flag: we, polarization: pol, rof, s2, modulation: m, symbol_rate, fec };
                vk::cover("satellite");
                let r = only::<Desc43>(&mut writes(x, &want));
                vk::check(r.frequency == frequency, "frequency read back");
                vk::check(r.orbital_position == orbital_position, "position read back");
                vk::check((r.west_east_flag == we) & (r.polarization == pol) & (r.rof == rof) & (r.s2 == s2) & (r.modulation == m), "flags read back");
                vk::check((r.symbol_rate == symbol_rate) & (r.fec == fec), "rate read back");
            }
            1 => {
                // the field holds 32 bits, the format digits up to 42949.6729 MHz of them
                let (f, s) = (digits_upto(&[4, 2, 9, 4, 9, 6, 7, 2]), digits(6));
                let (fo, m, fec) = (vk::bits(4) as u8, vk::u8(), vk::bits(4) as u8);
                let mut want = vec![0x44, 11];
                want.extend_from_slice(&packed(&f));
                want.extend_from_slice(&[0xff, 0xf0 | fo, m]);
                want.extend_from_slice(&packed(&s));
                want.push(fec);
                let want = vk::copy(&want);
                let frequency = number(&f) * 100;
                let symbol_rate = number(&s);
                let x = Desc44 { frequency, fec_outer: fo, modulation: m, symbol_rate, fec };
                vk::cover("cable");
                let r = only::<Desc44>(&mut writes(x, &want));
                vk::check(r.frequency == frequency, "frequency read back");
                vk::check((r.fec_outer == fo) & (r.modulation == m) & (r.symbol_rate == symbol_rate) & (r.fec == fec), "fields read back");
            }
            _ => {
                let f = vk::range(0, 429496729) as u32;
                let b = |n| vk::bits(n) as u8;
                let (bw, pr, ts, mp, m, h, hp, lp, g, t, o) = (b(3), b(1), b(1), b(1), b(2), b(3), b(3), b(3), b(2), b(2), b(1));
                let want = vk::copy(&[0x5a, 11, (f >> 24) as u8, (f >> 16) as u8, (f >> 8) as u8, f as u8,
                    bw << 5 | pr << 4 | ts << 3 | mp << 2 | 3, m << 6 | h << 3 | hp, lp << 5 | g << 3 | t << 1 | o, 0xff, 0xff, 0xff, 0xff]);
                let frequency = f * 10;
                let x = Desc5A { frequency, bandwidth: bw, priority: pr, time_slicing: ts, mpe_fec: mp, modulation: m, hierarchy: h,
                    code_rate_hp: hp, code_rate_lp: lp, guard_interval: g, transmission: t, other_frequency_flag: o };
                vk::cover("terrestrial");
                let r = only::<Desc5A>(&mut writes(x, &want));
                vk::check(r.frequency == frequency, "frequency read back");
                vk::check((r.bandwidth == bw) & (r.priority == pr) & (r.time_slicing == ts) & (r.mpe_fec == mp), "flags read back");
                vk::check((r.modulation == m) & (r.hierarchy == h) & (r.code_rate_hp == hp), "modulation read back");
                vk::check((r.code_rate_lp == lp) & (r.guard_interval == g) & (r.transmission == t) & (r.other_frequency_flag == o), "coding read back");
            }
        }
    }

    fn h_c26_read() {
        vk::covers("satellite,cable,terrestrial");
        match vk::fork(3) {
            0 => {
                let (f, o, s) = (digits(8), digits(4), digits(6));
                let (a, b) = vk::twin::<2>();
                let mut v = packed(&f);
                v.extend_from_slice(&packed(&o));
                v.push(a[0]);
                v.extend_from_slice(&packed(&s));
                v.push(a[1]);
                vk::cover("satellite");
                let r = only::<Desc43>(&mut reads(0x43, &v));
                vk::observe(r.frequency as u64);
                vk::check(r.frequency == number(&f) * 10, "frequency");
                vk::check(r.orbital_position as u32 == number(&o) * 6, "orbital position");
                vk::check((r.west_east_flag == b[0] / 128) & (r.polarization == b[0] / 32 % 4) & (r.rof == b[0] / 8 % 4), "flags");
                vk::check((r.s2 == b[0] / 4 % 2) & (r.modulation == b[0] % 4), "modulation");
                vk::check((r.symbol_rate == number(&s)) & (r.fec == b[1] % 16), "rate");
            }
            1 => {
                let (f, s) = (digits_upto(&[4, 2, 9, 4, 9, 6, 7, 2]), digits(6));
                let (a, b) = vk::twin::<4>();
                let mut v = packed(&f);
                v.extend_from_slice(&a[..3]);
                v.extend_from_slice(&packed(&s));
                v.push(a[3]);
                vk::cover("cable");
                let r = only::<Desc44>(&mut reads(0x44, &v));
                vk::observe(r.frequency as u64);
                vk::check(r.frequency == number(&f) * 100, "frequency");
                vk::check((r.fec_outer == b[1] % 16) & (r.modulation == b[2]) & (r.symbol_rate == number(&s)) & (r.fec == b[3] % 16), "fields");
            }
            _ => {
                let f = vk::range(0, 429496729) as u32;
                let (a, b) = vk::twin::<7>();
                let mut v = vec![(f >> 24) as u8, (f >> 16) as u8, (f >> 8) as u8, f as u8];
                v.extend_from_slice(&a);
                vk::cover("terrestrial");
                let r = only::<Desc5A>(&mut reads(0x5a, &v));
                vk::observe(r.frequency as u64);
                vk::check(r.frequency == f * 10, "frequency");
                vk::check((r.bandwidth == b[0] / 32) & (r.priority == b[0] / 16 % 2) & (r.time_slicing == b[0] / 8 % 2) & (r.mpe_fec == b[0] / 4 % 2), "flags");
                vk::check((r.modulation == b[1] / 64) & (r.hierarchy == b[1] / 8 % 8) & (r.code_rate_hp == b[1] % 8), "modulation");
                vk::check((r.code_rate_lp == b[2] / 32) & (r.guard_interval == b[2] / 8 % 4) & (r.transmission == b[2] / 2 % 4) & (r.other_frequency_flag == b[2] % 2), "coding");
            }
        }
    }

    fn h_c27_write() {
        vk::covers("name,list,service,channels");
        match vk::fork(4) {
            0 => name(text(vk::pick(0, vk::bound(6, 16)))),
            1 => services(vk::pick(0, vk::bound(4, 12))),
            2 => service(text(vk::pick(0, vk::bound(3, 6))), text(vk::pick(0, vk::bound(3, 6)))),
            _ => channels(vk::pick(0, vk::bound(4, 12))),
        }
    }

    fn h_c27_full() {
        vk::covers("name,list,service,channels");
        match vk::fork(4) {
            0 => name(text_sized(vk::pick(253, 255))),
            1 => services(vk::pick(84, 85)),
            2 => {
                let a = vk::one_of(&[0, 4, 120, 252]);
                service(text_sized(a), text_sized(252 - a - vk::fork(2) * (a < 252) as usize))
            }
            _ => channels(vk::pick(62, 63)),
        }
    }

    fn h_c27_read() {
        vk::covers("name,list,service,channels");
        match vk::fork(4) {
            0 => {
                let (v, w) = vk::twin_bytes(vk::pick(0, vk::bound(8, 20)));
                vk::cover("name");
                let r = only::<Desc40>(&mut reads(0x40, &v));
                vk::check(is_text(&r.name, &w), "name");
            }
            1 => {
                let n = vk::pick(0, vk::bound(5, 16));
                let (v, w) = vk::twin_bytes(n * 3);
                vk::cover("list");
                let r = only::<Desc41>(&mut reads(0x41, &v));
                vk::check(r.items.len() == n, "number of services");
                for (i, c) in r.items.iter().zip(w.chunks(3)) {
                    vk::check((i.service_id as u32 == c[0] as u32 * 256 + c[1] as u32) & (i.service_type == c[2]), "service");
                }
            }
            2 => {
                let (a, b) = (vk::pick(0, vk::bound(5, 10)), vk::pick(0, vk::bound(5, 10)));
                let (mut v, mut w) = vk::twin_bytes(3 + a + b);
                v[1] = a as u8;
                v[2 + a] = b as u8;
                w[1] = a as u8;
                vk::cover("service");
                let r = only::<Desc48>(&mut reads(0x48, &v));
                vk::check(r.service_type == w[0], "type");
                vk::check(is_text(&r.provider, &w[2..2 + a]), "provider");
                vk::check(is_text(&r.name, &w[3 + a..]), "name");
            }
            _ => {
                let n = vk::pick(0, vk::bound(5, 16));
                let (v, w) = vk::twin_bytes(n * 4);
                vk::cover("channels");
                let r = only::<Desc83>(&mut reads(0x83, &v));
                vk::check(r.items.len() == n, "number of channels");
                for (i, c) in r.items.iter().zip(w.chunks(4)) {
                    vk::check((i.service_id as u32 == c[0] as u32 * 256 + c[1] as u32) & (i.visible == c[2] / 128), "channel");
                    vk::check(i.lcn as u32 == (c[2] % 4) as u32 * 256 + c[3] as u32, "channel number");
                }
            }
        }
    }

    fn h_c28_write() {
        vk::covers("short,extended,items");
        if vk::fork(2) == 0 {
            short(text(vk::pick(0, vk::bound(3, 6))), text(vk::pick(0, vk::bound(3, 6))))
        } else {
            let mut items = vec![];
            for _ in 0..vk::pick(0, vk::bound(2, 3)) {
                let d = text_in(vk::one_of(&[0, 5]), 2);
                items.push((d, if vk::fork(2) == 0 { text(0) } else { text_in(0, 1) }));
            }
            extended(items, text(vk::pick(0, vk::bound(2, 4))))
        }
    }

    fn h_c28_full() {
        vk::covers("short,extended,items");
        let room = vk::fork(3);
        if vk::fork(2) == 0 {
            let a = vk::one_of(&[0, 4, 120, 250]);
            if a == 250 { vk::assume(room == 0) }
            short(text_sized(a), text_sized(250 - a - room))
        } else {
            match vk::fork(4) {
                0 => extended(vec![], text_sized(249 - room)),
                3 => {
                    // as many items as there is room for
                    let k = vk::fork(2);
                    let mut items = vec![];
                    for _ in 0..(249 - room) / (2 + 2 * k) { items.push((letters(k), letters(k))) }
                    extended(items, text(0))
                }
                1 => {
                    let mut items = vec![];
                    for _ in 0..vk::pick(1, 3) { items.push((text_sized(30), text_sized(20))) }
                    let used = items.len() * 52;
                    extended(items, text_sized(249 - used - room))
                }
                _ => extended(vec![(text_sized(100), text_sized(147 - room))], text(0)),
            }
        }
    }

    fn h_c28_read() {
        vk::covers("short,extended,items");
        if vk::fork(2) == 0 {
            let (a, b) = (vk::pick(0, vk::bound(5, 10)), vk::pick(0, vk::bound(5, 10)));
            let (mut v, w) = vk::twin_bytes(5 + a + b);
            v[3] = a as u8;
            v[4 + a] = b as u8;
            vk::cover("short");
            let r = only::<Desc4D>(&mut reads(0x4d, &v));
            vk::check(r.lang.as_bytes() == &w[..3], "language");
            vk::check(is_text(&r.name, &w[4..4 + a]), "name");
            vk::check(is_text(&r.text, &w[5 + a..]), "text");
        } else {
            // any item list
            let mut cuts = vec![];
            let mut at = 5;
            for _ in 0..vk::pick(0, 2) {
                let (a, b) = (vk::fork(vk::bound(3, 4)), vk::fork(vk::bound(3, 4)));
                cuts.push((at + 1, at + 1 + a, at + 2 + a, at + 2 + a + b));
                at += 2 + a + b;
            }
            let t = vk::fork(vk::bound(3, 5));
            let (mut v, w) = vk::twin_bytes(at + 1 + t);
            v[4] = (at - 5) as u8;
            for c in &cuts {
                v[c.0 - 1] = (c.1 - c.0) as u8;
                v[c.1] = (c.3 - c.2) as u8;
            }
            v[at] = t as u8;
            vk::cover(if cuts.is_empty() { "extended" } else { "items" });
            let r = only::<Desc4E>(&mut reads(0x4e, &v));
            vk::check((r.number == w[0] / 16) & (r.last_number == w[0] % 16), "numbers");
            vk::check(r.lang.as_bytes() == &w[1..4], "language");
            vk::check(r.items.len() == cuts.len(), "number of items");
            for (i, c) in r.items.iter().zip(&cuts) {
                vk::check(is_text(&i.0, &w[c.0..c.1]), "item name");
                vk::check(is_text(&i.1, &w[c.2..c.3]), "item text");
            }
            vk::check(is_text(&r.text, &w[at + 1..]), "text");
        }
    }

    fn h_c29_write() {
        vk::covers("access,language,bitrate,identifier");
        match vk::fork(4) {
            0 => access(vk::pick(0, vk::bound(8, 40))),
            1 => languages(vk::pick(0, vk::bound(4, 12))),
            2 => {
                let b = vk::bits(22) as u32;
                let want = vk::copy(&[0x0e, 3, 0xc0 | (b >> 16) as u8, (b >> 8) as u8, b as u8]);
                vk::cover("bitrate");
                let r = only::<Desc0E>(&mut writes(Desc0E { bitrate: b }, &want));
                vk::check(r.bitrate == b, "bitrate read back");
            }
            _ => {
                let t = vk::u8();
                let want = vk::copy(&[0x52, 1, t]);
                vk::cover("identifier");
                let r = only::<Desc52>(&mut writes(Desc52 { tag: t }, &want));
                vk::check(r.tag == t, "identifier read back");
            }
        }
    }

    fn h_c29_full() {
        vk::covers("access,language");
        if vk::fork(2) == 0 { access(vk::pick(249, 251)) } else { languages(vk::pick(62, 63)) }
    }

    fn h_c29_read() {
        vk::covers("access,language,bitrate,identifier");
        match vk::fork(4) {
            0 => {
                let (v, w) = vk::twin_bytes(vk::pick(4, vk::bound(16, 60)));
                vk::cover("access");
                let r = only::<Desc09>(&mut reads(0x09, &v));
                vk::check(r.caid as u32 == w[0] as u32 * 256 + w[1] as u32, "system");
                vk::check(r.pid as u32 == (w[2] % 32) as u32 * 256 + w[3] as u32, "packet identifier");
                vk::check(r.data[..] == w[4..], "data");
            }
            1 => {
                let n = vk::pick(0, vk::bound(5, 16));
                let (v, w) = vk::twin_bytes(n * 4);
                vk::cover("language");
                let r = only::<Desc0A>(&mut reads(0x0a, &v));
                vk::check(r.items.len() == n, "number of languages");
                for (i, c) in r.items.iter().zip(w.chunks(4)) {
                    vk::check((i.code.as_bytes() == &c[..3]) & (i.audio_type == c[3]), "language");
                }
            }
            2 => {
                let (v, w) = vk::twin::<3>();
                vk::cover("bitrate");
                let r = only::<Desc0E>(&mut reads(0x0e, &v));
                vk::check(r.bitrate == (w[0] % 64) as u32 * 65536 + w[1] as u32 * 256 + w[2] as u32, "bitrate");
            }
            _ => {
                let (v, w) = vk::twin::<1>();
                vk::cover("identifier");
                let r = only::<Desc52>(&mut reads(0x52, &v));
                vk::check(r.tag == w[0], "identifier");
            }
        }
    }

    fn h_c30_write() {
        vk::covers("done");
        let n = vk::pick(0, vk::bound(2, 3));
        let mut x = Desc58::default();
        let mut want = vec![0x58, n as u8 * 13];
        for _ in 0..n {
            let (i, raw) = offset();
            x.items.push(i);
            want.extend_from_slice(&raw);
        }
        vk::cover("done");
        let all = x.items.clone();
        let r = only::<Desc58>(&mut writes(x, &want));
        vk::check(r.items.len() == n, "number of countries");
        for (i, j) in r.items.iter().zip(&all) { vk::check(same_offset(i, j), "country read back") }
    }

    fn h_c30_full() {
        vk::covers("done");
        // the largest lists; any one of the entries with any values
        let n = vk::pick(18, 19);
        let at = vk::one_of(&[0, 9, n - 1]);
        let mut x = Desc58::default();
        let mut want = vec![0x58, n as u8 * 13];
        for i in 0..n {
            let (item, raw) = if i == at { offset() } else {
                let r = i as u8;
                (Desc58i { country_code: StringDVB::from(&b"GBR"[..]), region_id: r, offset_polarity: 1, offset: 90, time_of_change: 365 * 86400, next_offset: 60 },
                    vec![b'G', b'B', b'R', r << 2 | 3, 0x01, 0x30, 0x9f, 0xf8, 0, 0, 0, 0x01, 0x00])
            };
            x.items.push(item);
            want.extend_from_slice(&raw);
        }
        vk::cover("done");
        let all = x.items.clone();
        let r = only::<Desc58>(&mut writes(x, &want));
        vk::check(r.items.len() == n, "number of countries");
        for (i, j) in r.items.iter().zip(&all) { vk::check(same_offset(i, j), "country read back") }
    }

    fn h_c30_read() {
        vk::covers("done");
        let n = vk::pick(0, vk::bound(2, 3));
        let mut v = vec![];
        let mut all = vec![];
        for _ in 0..n {
            let (a, b) = vk::twin::<4>();
            let (o, od) = clock_minutes();
            let (t, td) = date_time();
            let (p, pd) = clock_minutes();
            v.extend_from_slice(&a);
            v.extend_from_slice(&od);
            v.extend_from_slice(&td);
            v.extend_from_slice(&pd);
            all.push((b, o, t, p));
        }
        vk::cover("done");
        let r = only::<Desc58>(&mut reads(0x58, &v));
        vk::check(r.items.len() == n, "number of countries");
        for (i, j) in r.items.iter().zip(&all) {
            vk::check(i.country_code.as_bytes() == &j.0[..3], "country");
            vk::check((i.region_id == j.0[3] / 4) & (i.offset_polarity == j.0[3] % 2), "region");
            vk::check((i.offset == j.1) & (i.next_offset == j.3), "offsets");
            vk::check(i.time_of_change == j.2, "time of change");
        }
    }

    fn h_c31_loop() {
        vk::covers("empty,one,several");
        let n = vk::pick(0, vk::bound(7, 9));
        let v = vk::bytes(n);
        copied(parsed(&v));
    }

    fn h_c31_typed() {
        vk::covers("empty,one,several");
        let k = vk::fork(16);
        if k == 15 { vk::cover("empty") }
        let tag = if k < 14 { KNOWN[k] } else { 0x42 };
        let most = match tag { 0x4e => vk::bound(12, 16), 0x48 | 0x4d => vk::bound(12, 18), _ => vk::bound(28, 41) };
        let n = vk::pick(0, most);
        let mut v = vec![tag, n as u8];
        v.extend_from_slice(&vk::bytes(n));
        if k < 7 { v.extend_from_slice(&[0x52, 1, vk::u8()]) }
        copied(parsed(&v));
    }

    fn h_c31_print() {
        vk::covers("typed,raw");
        let k = vk::fork(16);
        let (tag, body) = if k < 14 { (KNOWN[k], sample(KNOWN[k])) } else { ([0x42, 0x43][k - 14], vk::bytes(2)) };
        let mut v = vec![tag, body.len() as u8];
        v.extend_from_slice(&body);
        let d = parsed(&v);
        let c = d.clone();
        vk::cover(if k < 14 { "typed" } else { "raw" });
        vk::check(format!("{:?}", c) == format!("{:?}", d), "same printed form");
    }

    fn h_c31_independent() {
        vk::covers("done");
        let (a, b, x) = (vk::u8(), vk::bytes(3), vk::u8());
        let mut d = Descriptors::default();
        d.push(Desc52 { tag: a });
        d.push(DescRaw { tag: 0x43, data: b.clone() });
        d.push(Desc41 { items: vec![Desc41i { service_id: 1, service_type: a }] });
        d.push(Desc40 { name: StringDVB::from(&b"net"[..]) });
        let before = plain(&d);
        let mut c = d.clone();
        vk::cover("done");
        let (one, other) = if vk::fork(2) == 0 { (&mut d, &mut c) } else { (&mut c, &mut d) };
        match vk::fork(5) {
            0 => one.get_mut(0).unwrap().downcast_mut::<Desc52>().tag = x,
            1 => one.get_mut(1).unwrap().downcast_mut::<DescRaw>().data[1] = x,
            2 => one.get_mut(2).unwrap().downcast_mut::<Desc41>().items[0].service_type = x,
            3 => one.get_mut(3).unwrap().downcast_mut::<Desc40>().name = StringDVB::from(&b"other"[..]),
            _ => one.push(Desc52 { tag: x }),
        }
        vk::check(plain(other) == before, "the other is unchanged");
        vk::check(other.len() == 4, "same number");
    }
}

/// Hours and minutes below one day, as minutes and as digits.
fn clock_minutes() -> (u16, Vec<u8>) {
    let h1 = vk::fork(3) as u8;
    let h0 = vk::range(0, if h1 == 2 { 3 } else { 9 }) as u8;
    let (m1, m0) = (vk::range(0, 5) as u8, vk::range(0, 9) as u8);
    ((h1 as u16 * 10 + h0 as u16) * 60 + m1 as u16 * 10 + m0 as u16, packed(&[h1, h0, m1, m0]))
}

fn copied(mut d: Descriptors) {
    let mut c = d.clone();
    vk::cover(match d.len() { 0 => "empty", 1 => "one", _ => "several" });
    vk::check(c.len() == d.len(), "same number");
    vk::check(c.size() == d.size(), "same size");
    vk::check(plain(&c) == plain(&d), "same bytes");
    for i in 0..d.len() {
        vk::check(c.get(i).unwrap().tag() == d.get(i).unwrap().tag(), "same tags");
    }
}
