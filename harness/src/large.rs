//! Tables of several sections: building, schedules, reading one after another.

use crate::tables::{be, loop_of, psi, put_len, put_loop, sealed, trip_from, Table};
use crate::vk;
use mpegts::psi::*;

/// Takes the sections of a table apart: what every one of them has to be,
/// and all of them read one after another.
fn split<T: Table + PsiDemux>(t: &T, id: u8, ext: u16, version: u8, fits: usize) -> Vec<Psi> {
    let got = trip_from(t, 5, 13);
    vk::cover(match got.len() { 1 => "one section", 2 => "two sections", _ => "several sections" });
    let last = got.len() - 1;
    let mut r = T::default();
    for (i, p) in got.iter().enumerate() {
        let b = &p.buffer;
        vk::check(p.size <= fits, "within the size limit");
        vk::check(p.check(), "valid");
        vk::check((b[0] == id) & (b[1] & 0x80 == 0x80) & (b[3..5] == be(ext)) & (b[5] == 0xc1 | version << 1), "header repeated");
        vk::check((b[6] == i as u8) & (b[7] == last as u8), "numbered");
        r.take(p);
    }
    vk::check(r.parts().1 == t.parts().1, "descriptors of the table read back");
    let (x, y) = (r.flat(), t.flat());
    vk::check(x.len() == y.len(), "number of items read back");
    vk::check(x == y, "fields read back");
    got
}

/// Loop sizes that fill a first section up to about its end, and a second
/// one. `a`, `b`: bytes before the items; `c`: bytes of an item.
fn sizes(a: usize, b: usize, c: usize) -> Vec<usize> {
    let d = vk::pick(0, 5);
    // end of the third item: 1018..=1023 bytes before the checksum
    let used = a + 3 * c + 300 + 257;
    let mut v = if used + 2 > 1018 { vec![2, 5] } else { vec![300, 257, 1018 + d - used] };
    match vk::fork(if vk::tier() == 0 { 3 } else { 4 }) {
        0 => v.push(20),
        2 => (),
        1 => {
            // when the last one fits no more, it starts the second section
            v.push(514);
            let e = vk::one_of(&[0, 2, 3, 4, 5, 6]);
            v.push(1018 + e - b - 2 * c - 514);
            v.push(0);
        }
        _ => v.extend_from_slice(&[900, 900, 0, 0, 900]),
    }
    v
}

harness! {
    fn h_c23_pat() {
        vk::covers("one section,two sections,several sections");
        let n = vk::one_of(if vk::tier() == 0 { &[252, 253, 254, 506, 507][..] } else { &[252, 253, 254, 255, 505, 506, 507, 759, 760, 1012, 1013, 2530, 2531] });
        let mut t = Pat { version: vk::bits(5) as u8, tsid: vk::u16(), items: vec![] };
        for i in 0..n {
            // any values next to the ends of sections
            let any = i < 2 || i + 2 >= n || (i + 2) % 253 < 4;
            t.items.push(if any { PatItem { pnr: vk::u16(), pid: vk::bits(13) as u16 } } else { PatItem { pnr: i as u16, pid: (7 * i % 8192) as u16 } });
        }
        let (a, b) = (t.tsid, t.version);
        split(&t, 0, a, b, 1024);
    }

    fn h_c23_pmt() {
        vk::covers("one section,two sections,several sections");
        let p = vk::one_of(&[0, 9, 1000]);
        let (descriptors, _) = loop_of(p);
        let mut t = Pmt { version: vk::bits(5) as u8, pnr: vk::u16(), pcr: vk::bits(13) as u16, descriptors, items: vec![] };
        for n in sizes(12 + p, 12, 5) {
            t.items.push(PmtItem { stream_type: vk::u8(), pid: vk::bits(13) as u16, descriptors: loop_of(n).0 });
        }
        let (a, b) = (t.pnr, t.version);
        split(&t, 2, a, b, 1024);
    }

    fn h_c23_sdt() {
        vk::covers("one section,two sections,several sections");
        let mut t = Sdt { table_id: vk::one_of(&[0x42, 0x46]), version: vk::bits(5) as u8, tsid: vk::u16(), onid: vk::u16(), items: vec![] };
        for n in sizes(11, 11, 5) {
            t.items.push(SdtItem { pnr: vk::u16(), eit_schedule_flag: vk::bits(1) as u8, eit_present_following_flag: vk::bits(1) as u8,
                running_status: vk::bits(3) as u8, free_ca_mode: vk::bits(1) as u8, descriptors: loop_of(n).0 });
        }
        let (a, b, c) = (t.tsid, t.version, t.onid);
        let id = t.table_id;
        for p in split(&t, id, a, b, 1024) {
            vk::check(p.buffer[8..10] == be(c), "network repeated");
        }
    }

    fn h_c23_nit() {
        vk::covers("one section,two sections,several sections");
        let p = vk::one_of(&[0, 9, 1000]);
        let (descriptors, _) = loop_of(p);
        let mut t = Nit { table_id: vk::one_of(&[0x40, 0x41]), version: vk::bits(5) as u8, network_id: vk::u16(), descriptors, items: vec![] };
        for n in sizes(12 + p, 12, 6) {
            t.items.push(NitItem { tsid: vk::u16(), onid: vk::u16(), descriptors: loop_of(n).0 });
        }
        let (a, b) = (t.network_id, t.version);
        let id = t.table_id;
        split(&t, id, a, b, 1024);
    }

    fn h_c20_few() {
        vk::covers("together,apart,next day");
        let n = vk::pick(1, vk::bound(3, 4));
        let day = vk::range(0, 20000);
        let mut days = 0;
        let mut t = schedule();
        for i in 0..n {
            if i == 1 { days = vk::one_of(&[0, 1, 4]) }
            if i == 3 { days += 1 }
            let hour = vk::pick(0, 7) as u64 * 3 + vk::range(0, 2);
            let start = (day + days) * 86400 + hour * 3600 + vk::range(0, 5) * 600 + vk::range(0, 9) * 60 + vk::range(0, 5) * 10 + vk::range(0, 9);
            if i > 0 { vk::assume(start >= t.items[i - 1].start) }
            t.items.push(event(start, &[]));
        }
        let got = scheduled(&t);
        vk::cover(if days > 0 { "next day" } else if filled(&got) > 1 { "apart" } else { "together" });
    }

    fn h_c20_sizes() {
        vk::covers("one section,several sections");
        // three events of one hour; the end of the second near the limit
        let d = vk::pick(0, 6);
        let l = match vk::fork(4) {
            0 => vec![2000, 4092 - 3 - 38 - 2000 + d, 30],
            1 => vec![4092 - 3 - 26 + d - 4, 0, 4000],
            2 => vec![1000, 1000, 1000, 4092 - 3 - 62 - 3000 + d, 1000, 2500, 40],
            _ => vec![2000; 1 + d],
        };
        let day = vk::range(0, 20000);
        let mut t = schedule();
        for (i, n) in l.iter().enumerate() {
            let start = day * 86400 + 12 * 3600 + i as u64 * 600 + vk::range(0, 9) * 60;
            t.items.push(event(start, &[*n]));
        }
        let got = scheduled(&t);
        vk::cover(if filled(&got) > 1 { "several sections" } else { "one section" });
    }

    fn h_c20_long() {
        vk::covers("several tables");
        // an event in every segment of several days
        let n = vk::bound(40, 75) as u64;
        let day = vk::one_of(&[0, 18506, 24800]);
        let first = vk::one_of(&[0, 5, 7]);
        let at = vk::pick(25, 33) as u64;
        let mut t = schedule();
        for i in 0..n {
            let mut start = day * 86400 + (first + i) * 10800;
            // any time within its segment
            if i == 0 || i == at || i + 1 == n { start += vk::range(0, 2) * 3600 + vk::range(0, 5) * 600 + vk::range(0, 9) * 60 + vk::range(0, 59) }
            t.items.push(event(start, if i % 7 == 3 { &[3] } else { &[] }));
        }
        let got = scheduled(&t);
        if got[0].buffer[0] != got[got.len() - 1].buffer[0] { vk::cover("several tables") }
        placed(&t, &got);
    }

    fn h_c20_place() {
        vk::covers("first segment,last segment,gap,several tables");
        // any time within segments some of which have no event
        let day = vk::range(0, 20000);
        let first = vk::pick(0, 7) as u64;
        let mut at = first;
        let mut t = schedule();
        for i in 0..vk::bound(3, 4) {
            if i == 1 { at += vk::one_of(&[0, 1, 2, 7, 8, 25, 32, 40]) }
            if i > 1 { at += vk::one_of(&[0, 1, 5]) }
            let start = day * 86400 + at * 10800 + vk::range(0, 2) * 3600 + vk::range(0, 5) * 600 + vk::range(0, 9) * 60 + vk::range(0, 5) * 10 + vk::range(0, 9);
            if i > 0 { vk::assume(start >= t.items[i - 1].start) }
            t.items.push(event(start, &[]));
        }
        if first == 0 { vk::cover("first segment") }
        if first == 7 { vk::cover("last segment") }
        if at > first + 3 { vk::cover("gap") }
        if at > 40 { vk::cover("several tables") }
        placed(&t, &scheduled(&t));
    }

    fn h_c46_pat() {
        vk::covers("nothing,one,several,rejected");
        accumulate::<Pat>(&[0], |n, _| {
            let mut v = vk::bytes(8 + 4 * n);
            v[0] = 0;
            v
        });
    }

    fn h_c46_pmt() {
        vk::covers("nothing,one,several,rejected");
        accumulate::<Pmt>(&[2], |n, first| {
            let p = if first { 3 } else { 0 };
            let mut v = vk::bytes(12 + p);
            v[0] = 2;
            put_len(&mut v[10..], p);
            put_loop(&mut v[12..]);
            for _ in 0..n { items(&mut v, 5) }
            v
        });
    }

    fn h_c46_sdt() {
        vk::covers("nothing,one,several,rejected");
        accumulate::<Sdt>(&[0x42, 0x46], |n, _| {
            let mut v = vk::bytes(11);
            v[0] = vk::one_of(&[0x42, 0x46]);
            for _ in 0..n { items(&mut v, 5) }
            v
        });
    }

    fn h_c46_nit() {
        vk::covers("nothing,one,several,rejected");
        accumulate::<Nit>(&[0x40, 0x41], |n, first| {
            let p = if first { 3 } else { 0 };
            let mut v = vk::bytes(12 + p);
            v[0] = vk::one_of(&[0x40, 0x41]);
            put_len(&mut v[8..], p);
            put_loop(&mut v[10..10 + p]);
            let at = v.len();
            for _ in 0..n { items(&mut v, 6) }
            let k = v.len() - at;
            put_len(&mut v[10 + p..], k);
            v
        });
    }

    fn h_c46_eit() {
        vk::covers("nothing,one,several,rejected");
        accumulate::<Eit>(&[], |n, _| {
            let mut v = vk::bytes(14);
            v[0] = vk::one_of(&[0x4e, 0x4f, 0x50, 0x6f]);
            for _ in 0..n {
                let at = v.len();
                items(&mut v, 12);
                // a fixed time, any other field
                v[at + 2..at + 10].copy_from_slice(&[0xe6, 0xe1, 0x12, 0x26, 0x40, 1, 0x23, 0x45]);
            }
            v
        });
    }
}

/// An item whose last two bytes are the length of its loop.
fn items(v: &mut Vec<u8>, head: usize) {
    let p = 3;
    let at = v.len();
    v.extend_from_slice(&vk::bytes(head + p));
    put_len(&mut v[at + head - 2..], p);
    put_loop(&mut v[at + head..]);
}

/// Events of a schedule without gaps are in the segment of their start, or
/// the one behind.
fn placed(t: &Eit, got: &[Psi]) {
    let mut k = 0;
    let last = got[got.len() - 1].buffer[0];
    let midnight = t.items[0].start / 86400 * 86400;
    let first = (t.items[0].start - midnight) / 10800;
    for p in got {
        let b = &p.buffer;
        vk::check(b[13] == last, "last table announced");
        let segment = (b[0] & 15) as u64 * 32 + (b[6] / 8) as u64;
        for _ in 0..Eit::from(p).items.len() {
            let want = (t.items[k].start - midnight) / 10800;
            // the events of the first segment may come one behind
            vk::check((segment == want) | (want == first) & (segment == want + 1), "in its segment");
            k += 1;
        }
    }
}

/// Sections of one table one after another, some of them not acceptable.
fn accumulate<T: Table>(ids: &[u8], make: impl Fn(usize, bool) -> Vec<u8>) {
    let steps = vk::bound(3, 4);
    let mut t = T::default();
    let mut head = t.parts().0;
    let mut table = t.parts().1;
    let mut all: Vec<Vec<u64>> = vec![];
    let (mut taken, mut refused) = (0, 0);
    for k in 0..steps {
        let mut v = make(if k == 1 { 2 } else { 1 }, taken == 0);
        let kind = vk::fork(if ids.is_empty() { 3 } else { 4 });
        sealed(&mut v);
        let n = v.len();
        match kind {
            1 => {
                let x = vk::u8();
                vk::assume(x != 0);
                v[n - 1] ^= x;
            }
            2 => v.truncate(n - 1),
            3 => {
                v.truncate(n - 4);
                v[0] ^= 0x80;
                sealed(&mut v);
            }
            _ => (),
        }
        let mut p = psi(&v);
        if kind == 2 { p.size = n }
        t.take(&p);
        if kind == 0 {
            let mut one = T::default();
            one.take(&p);
            let (h, d, i) = one.parts();
            head = h;
            if taken == 0 { table = d }
            all.extend(i);
            taken += 1;
        } else {
            refused += 1;
        }
        let (h, d, i) = t.parts();
        vk::check(i.len() == all.len(), "number of items");
        vk::check(h == head, "header of the last accepted section");
        vk::check(d == table, "descriptors of the table");
        vk::check(i == all, "items in order");
    }
    vk::cover(match taken { 0 => "nothing", 1 => "one", _ => "several" });
    if refused > 0 { vk::cover("rejected") }
}

fn schedule() -> Eit {
    Eit { table_id: vk::one_of(&[0x50, 0x60, 0x6f]), version: vk::bits(5) as u8, pnr: vk::u16(), tsid: vk::u16(), onid: vk::u16(), items: vec![] }
}

fn event(start: u64, sizes: &[usize]) -> EitItem {
    let mut d = Descriptors::default();
    for n in sizes { d = loop_of(*n).0 }
    EitItem { event_id: vk::u16(), start, duration: 5025, status: vk::bits(3) as u8, ca_mode: vk::bits(1) as u8, descriptors: d }
}

/// Number of sections with events.
fn filled(v: &[Psi]) -> usize { v.iter().filter(|p| p.size > 18).count() }

/// The sections of a schedule, and what holds for all of them.
fn scheduled(t: &Eit) -> Vec<Psi> {
    let got = trip_from(t, 5, 13);
    let mut r = Eit::default();
    let mut last = [0u8; 256];
    let mut ends = vec![0u8; 256 * 32];
    for p in &got {
        last[p.buffer[0] as usize] = p.buffer[6];
        ends[p.buffer[0] as usize * 32 + p.buffer[6] as usize / 8] = p.buffer[6];
    }
    for (i, p) in got.iter().enumerate() {
        let b = &p.buffer;
        vk::check((p.size <= 4096) & (p.size >= 18), "within the size limit");
        vk::check(p.check(), "valid");
        vk::check((b[0] & 0xf0 == t.table_id & 0xf0) & (b[1] & 0x80 == 0x80) & (b[3..5] == be(t.pnr)) & (b[5] == 0xc1 | t.version << 1)
            & (b[8..10] == be(t.tsid)) & (b[10..12] == be(t.onid)), "identifiers repeated");
        vk::check(b[7] == last[b[0] as usize], "last section of its table");
        vk::check(b[12] == ends[b[0] as usize * 32 + b[6] as usize / 8], "last section of its segment");
        if i == 0 {
            vk::check(b[0] == t.table_id & 0xf0, "starts in the first table");
        } else {
            let a = &got[i - 1].buffer;
            // the next one of the segment or the first one of the next segment
            let next = a[6] as usize / 8 * 8 + 8;
            vk::check((b[0] == a[0]) & ((b[6] == a[6] + 1) | (b[6] as usize == next)) | (b[0] == a[0] + 1) & (next == 256) & (b[6] == 0), "sections in order");
        }
        r.take(p);
    }
    let (x, y) = (r.parts().2, t.parts().2);
    vk::check(x.len() == y.len(), "every event exactly once");
    vk::check(x == y, "events read back in order");
    got
}
