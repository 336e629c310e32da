//! Text fields: character tables, selectors, splitting, language codes.

use crate::chars::TABLES;
use crate::codes::CODES;
use crate::vk;
use mpegts::textcode::{lang, StringDVB, UTF8};

/// The selector of a character table in EN 300 468 annex A.
pub fn selector(table: u8) -> Vec<u8> {
    match table {
        0 => vec![],
        1..=4 => vec![0x10, 0, table],
        5..=15 => vec![table - 4],
        _ => vec![0x15],
    }
}

/// UTF-8 form of a character below 0x10000.
pub fn utf8(c: u32) -> Vec<u8> {
    if c < 0x80 {
        vec![c as u8]
    } else if c < 0x800 {
        vec![0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8]
    } else {
        vec![0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]
    }
}

/// Any character whose UTF-8 form has n bytes, with that form.
pub fn any_char(n: usize) -> (u32, Vec<u8>) {
    match n {
        1 => { let c = vk::range(0, 0x7f) as u32; (c, vec![c as u8]) }
        2 => { let c = vk::range(0x80, 0x7ff) as u32; (c, vec![0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8]) }
        3 => {
            let c = if vk::fork(2) == 0 { vk::range(0x800, 0xd7ff) } else { vk::range(0xe000, 0xffff) } as u32;
            (c, vec![0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8])
        }
        _ => {
            let c = vk::range(0x10000, 0x10ffff) as u32;
            (c, vec![0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8])
        }
    }
}

fn string(table: u8, text: &[u8]) -> StringDVB {
    let mut v = selector(table);
    v.extend_from_slice(text);
    StringDVB::from(v.as_slice())
}

fn written(s: &StringDVB) -> Vec<u8> {
    let mut v = Vec::new();
    s.assemble(&mut v);
    v
}

/// Characters of a UTF-8 text, `wide` of them longer than one byte, around
/// position `at` of ASCII filler.
fn mixed(at: usize, tail: usize) -> Vec<u8> {
    let mut v = vec![b'a'; at];
    for _ in 0..vk::bound(3, 4) { v.extend_from_slice(&any_char(1 + vk::fork(4)).1) }
    v.resize(v.len() + tail, b'z');
    v
}

/// No piece of UTF-8 text starts inside a character.
fn clean_start(v: &[u8]) -> bool { v.is_empty() || v[0] & 0xc0 != 0x80 }

harness! {
    fn h_c32_read() {
        vk::covers("plain,selected,unicode,unknown,empty");
        let n = vk::pick(0, vk::bound(16, 40));
        let (raw, copy) = vk::twin_bytes(n);
        let s = StringDVB::from(raw.as_slice());
        let cp = s.get_codepage();
        vk::observe(cp as u64);
        if n == 0 {
            vk::cover("empty");
            vk::check(s.is_empty(), "empty text");
        } else if copy[0] >= 0x20 {
            vk::cover("plain");
            vk::check((cp == 0) & (s.as_bytes() == &copy[..]), "text without selector");
        } else if copy[0] == 0x15 {
            vk::cover("unicode");
            vk::check((cp == UTF8) & (s.as_bytes() == &copy[1..]), "UTF-8 text");
        } else if (copy[0] >= 1) & (copy[0] <= 0x0b) {
            vk::cover("selected");
            vk::check((cp == copy[0] + 4) & (s.as_bytes() == &copy[1..]), "text with one selector byte");
        } else if (copy[0] == 0x10) && n > 2 && (copy[1] == 0) & (copy[2] >= 1) & (copy[2] <= 15) {
            vk::check((cp == copy[2]) & (s.as_bytes() == &copy[3..]), "text with three selector bytes");
        } else {
            vk::cover("unknown");
            let other = (copy[0] >= 0x0c) & (copy[0] != 0x10);
            vk::check(!other | (cp == 0) & (s.as_bytes() == &b"?"[..]), "question mark for a table that is not supported");
        }
        let out = written(&s);
        vk::check(s.size() == out.len(), "size is that of the written form");
        let again = StringDVB::from(out.as_slice());
        vk::check(again.as_bytes() == s.as_bytes(), "text kept");
        vk::check(s.is_empty() | (again.get_codepage() == cp), "table kept");
        vk::check(written(&again) == out, "written form is stable");
        vk::check(s == s.clone(), "equal to its copy");
    }

    fn h_c32_write() {
        vk::covers("plain,table,unicode");
        let cp = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, UTF8][vk::fork(16)];
        let n = vk::pick(1, vk::bound(3, 8));
        let (text, copy) = vk::twin_bytes(n);
        for x in &text { vk::assume(*x < 0x80) }
        vk::assume(text[0] >= 0x20);
        let s = StringDVB::from_str(unsafe { std::str::from_utf8_unchecked(&text) }, cp);
        vk::cover(match cp { 0 => "plain", UTF8 => "unicode", _ => "table" });
        let want = selector(cp);
        let mut out = vec![7; vk::fork(2)];
        let at = out.len();
        s.assemble(&mut out);
        vk::check(out[at..at + want.len()] == want[..], "selector of the table");
        vk::check(out[at + want.len()..] == copy[..], "text behind the selector");
        vk::check(s.size() == out.len() - at, "size is that of the written form");
        let back = StringDVB::from(&out[at..]);
        vk::check((back.get_codepage() == cp) & (back.as_bytes() == &copy[..]), "read back");
        let mut sized = vec![9; at];
        s.assemble_sized(&mut sized);
        vk::check(sized[at] as usize == out.len() - at, "size byte");
        vk::check(sized[at + 1..] == out[at..], "text behind the size byte");
    }

    fn h_c32_sized() {
        vk::covers("done");
        // lengths up to the largest the size byte holds
        let cp = [0, 1, 5, UTF8][vk::fork(4)];
        let n = vk::pick(0, 255 - selector(cp).len());
        let text = vec![b'x'; n];
        let s = string(cp, &text);
        let mut v = vec![];
        s.assemble_sized(&mut v);
        let want = if n == 0 { 0 } else { n + selector(cp).len() };
        vk::check((v.len() == want + 1) & (v[0] as usize == want) & (s.size() == want), "announced size");
        vk::cover("done");
    }

    fn h_c33_byte() {
        vk::covers("ascii,control,assigned,unassigned");
        let (cp, map) = &TABLES[vk::fork(15)];
        let b = vk::u8();
        let s = string(*cp, &[b'A', b, b'z']);
        let out = s.to_string();
        vk::observe_bytes(out.as_bytes());
        let b = vk::same(b as u64) as u8;
        let mut want = vec![b'A'];
        if b < 0x80 {
            vk::cover("ascii");
            want.push(b);
        } else if b < 0xa0 {
            vk::cover("control");
        } else {
            let c = map[b as usize - 0xa0];
            if c == 0 {
                vk::cover("unassigned");
                want.push(b'?');
            } else {
                vk::cover("assigned");
                want.extend_from_slice(&utf8(c as u32));
            }
        }
        want.push(b'z');
        vk::check(out.as_bytes() == &want[..], "character of the published table");
    }

    fn h_c33_long() {
        vk::covers("done");
        // long texts in both halves of the table, any byte at one place
        let (cp, map) = &TABLES[vk::fork(15)];
        let n = vk::one_of(&[31, 64, 127, 128, 200, 251]);
        let at = [0, n / 2, n - 1][vk::fork(3)];
        let mut v: Vec<u8> = (0..n).map(|i| if i % 3 == 0 { b'a' + (i % 26) as u8 } else { 0xc0 + (i % 48) as u8 }).collect();
        v[at] = vk::range(0xa0, 0xff) as u8;
        let out = string(*cp, &v).to_string();
        let mut want = vec![];
        for b in vk::copy(&v) {
            if b < 0x80 { want.push(b); continue }
            let c = map[b as usize - 0xa0];
            if c == 0 { want.push(b'?') } else { want.extend_from_slice(&utf8(c as u32)) }
        }
        vk::cover("done");
        vk::check(out.as_bytes() == &want[..], "characters of the published table");
    }

    fn h_c33_total() {
        vk::covers("single byte,unicode");
        let n = vk::pick(0, vk::bound(4, 6));
        let raw = vk::bytes(n);
        let s = StringDVB::from(raw.as_slice());
        let out = s.to_string();
        vk::observe(out.len() as u64);
        vk::cover(if s.get_codepage() == UTF8 { "unicode" } else { "single byte" });
        vk::check(std::str::from_utf8(out.as_bytes()).is_ok(), "printed text is valid");
        vk::check(out.len() <= 3 * n + 1, "printed text is bounded");
    }

    fn h_c33_unicode() {
        vk::covers("done");
        // valid UTF-8 is printed as it is
        let (_, a) = any_char(1 + vk::fork(4));
        let (_, b) = any_char(1 + vk::fork(4));
        let mut v = a;
        v.extend_from_slice(&b);
        let want = vk::copy(&v);
        let s = string(UTF8, &v);
        vk::check(s.to_string().as_bytes() == &want[..], "UTF-8 text unchanged");
        vk::cover("done");
    }

    fn h_c34_char() {
        vk::covers("in table,replaced,unknown,control");
        let (cp, map) = &TABLES[vk::fork(15)];
        let (c, form) = any_char(1 + vk::fork(4));
        let mut text = vec![b'A'];
        text.extend_from_slice(&form);
        text.push(b'z');
        let s = StringDVB::from_str(unsafe { std::str::from_utf8_unchecked(&text) }, *cp);
        vk::check(s.get_codepage() == *cp, "table as asked for");
        let c = vk::same(c as u64) as u32;
        let d = s.as_bytes();
        vk::check((d.len() >= 2) && d[0] == b'A' && d[d.len() - 1] == b'z', "characters around kept");
        let d = &d[1..d.len() - 1];
        vk::observe_bytes(d);
        if c < 0x80 {
            vk::check(d.len() == 1 && d[0] as u32 == c, "ASCII kept");
        } else if c < 0xa0 {
            vk::cover("control");
            vk::check(d.is_empty(), "control characters dropped");
        } else if d.len() == 1 && d[0] >= 0xa0 {
            vk::cover("in table");
            vk::check(map[d[0] as usize - 0xa0] as u32 == c, "byte of the published table");
        } else {
            // not in the table
            let mut found = false;
            for x in map.iter() { found |= *x as u32 == c }
            vk::check(!found, "characters of the table are found");
            let quote = (c == 0xab) | (c == 0xbb) | (c == 0x201c) | (c == 0x201d) | (c == 0x201f);
            let single = (c == 0x2018) | (c == 0x2019) | (c == 0x201b);
            if quote { vk::check(d == b"\"", "double quote") }
            else if single { vk::check(d == b"'", "single quote") }
            else if c == 0x2026 { vk::check(d == b"...", "ellipsis") }
            else { vk::check(d == b"?", "question mark") }
            vk::cover(if quote | single { "replaced" } else { "unknown" });
        }
    }

    fn h_c34_inverse() {
        vk::covers("done");
        // text made of characters of the table comes back
        let (cp, map) = &TABLES[vk::fork(15)];
        let b = vk::range(0xa0, 0xff) as usize;
        let c = map[b - 0xa0] as u32;
        vk::assume(c != 0);
        let ascii = vk::range(0x20, 0x7f) as u8;
        let mut text = vec![ascii];
        text.extend_from_slice(&utf8(c));
        let want = vk::copy(&text);
        let s = StringDVB::from_str(unsafe { std::str::from_utf8_unchecked(&text) }, *cp);
        vk::check(s.as_bytes().len() == 2, "one byte per character");
        vk::check(s.to_string().as_bytes() == &want[..], "decodes to the same text");
        vk::cover("done");
    }

    fn h_c34_long() {
        vk::covers("done");
        let (cp, map) = &TABLES[vk::fork(15)];
        let n = vk::one_of(&[31, 128, 251, 64, 127, 200][..vk::bound(3, 6)]);
        let at = [0, n / 2, n - 1][vk::fork(3)];
        let mut want = vec![];
        let mut text = vec![];
        for i in 0..n {
            let b = if i == at { vk::range(0xa0, 0xff) as u8 } else if i % 3 == 0 { b'a' + (i % 26) as u8 } else { 0xc0 + (i % 48) as u8 };
            if b < 0x80 { want.push(b); text.push(b); continue }
            let c = map[b as usize - 0xa0] as u32;
            if i == at { vk::assume(c != 0) } else if c == 0 { continue }
            want.push(b);
            text.extend_from_slice(&utf8(c));
        }
        let s = StringDVB::from_str(unsafe { std::str::from_utf8_unchecked(&text) }, *cp);
        vk::cover("done");
        vk::check(s.as_bytes() == &vk::copy(&want)[..], "one byte per character");
        vk::check(s.to_string().as_bytes() == &vk::copy(&text)[..], "decodes to the same text");
    }

    fn h_c34_longer() {
        vk::covers("utf8,table");
        // texts beyond any field, one character any
        let n = vk::one_of(&[300, 1100, 4200]);
        let cp = vk::one_of(&[UTF8, 0, 5]);
        let mut text: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        text[n - 2] = vk::range(0x20, 0x7e) as u8;
        let want = vk::copy(&text);
        let s = StringDVB::from_str(unsafe { std::str::from_utf8_unchecked(&text) }, cp);
        vk::cover(if cp == UTF8 { "utf8" } else { "table" });
        vk::check((s.get_codepage() == cp) & (s.as_bytes() == &want[..]), "one byte per character");
        vk::check(s.to_string().as_bytes() == &want[..], "decodes to the same text");
    }

    fn h_c34_unicode() {
        vk::covers("utf8,unknown table");
        let cp = vk::u8();
        vk::assume((cp > 15) | (cp == 12));
        let (_, mut text) = any_char(1 + vk::fork(4));
        text.extend_from_slice(&any_char(1 + vk::fork(4)).1);
        let want = vk::copy(&text);
        let s = StringDVB::from_str(unsafe { std::str::from_utf8_unchecked(&text) }, cp);
        vk::cover(if cp == UTF8 { "utf8" } else { "unknown table" });
        vk::check((s.get_codepage() == UTF8) & (s.as_bytes() == &want[..]), "kept as UTF-8");
    }

    fn h_c35_split() {
        vk::covers("one piece,pieces");
        let size = [5, 6, 7, 8, 12][vk::fork(vk::bound(3, 5))];
        let text = mixed(vk::pick(0, size), [0, 1, 6][vk::fork(3)]);
        let copy = vk::copy(&text);
        let s = string(UTF8, &text);
        let parts = s.split(size);
        vk::cover(if parts.len() == 1 { "one piece" } else { "pieces" });
        let mut all = Vec::new();
        for p in &parts {
            vk::check(p.get_codepage() == UTF8, "table kept");
            vk::check(p.size() <= size, "piece fits");
            vk::check(!p.is_empty() | copy.is_empty(), "no empty piece");
            vk::check(clean_start(p.as_bytes()), "no cut character");
            all.extend_from_slice(p.as_bytes());
        }
        vk::check(all == copy, "pieces make up the text");
        vk::observe(parts.len() as u64);
    }

    fn h_c35_split_any() {
        vk::covers("done");
        // any bytes in any table, valid or not
        let cp = [0, 2, 5, UTF8][vk::fork(4)];
        let lo = match cp { 0 => 1, UTF8 => 5, _ => 4 };
        let size = lo + vk::fork(3);
        let n = vk::pick(0, vk::bound(11, 16));
        let (text, copy) = vk::twin_bytes(n);
        if cp == 0 && n > 0 { vk::assume(text[0] >= 0x20) }
        let s = string(cp, &text);
        let mut all = Vec::new();
        for p in s.split(size) {
            vk::check(p.size() <= size, "piece fits");
            all.extend_from_slice(p.as_bytes());
        }
        vk::check(all == copy, "pieces make up the text");
        vk::cover("done");
    }

    fn h_c35_long() {
        vk::covers("done");
        // descriptor-sized pieces of a long text
        let size = [249, 255, 130][vk::fork(vk::bound(2, 3))];
        let at = size - 1 - vk::fork(6);
        let text = mixed(at, 300);
        let copy = vk::copy(&text);
        let mut all = Vec::new();
        for p in string(UTF8, &text).split(size) {
            vk::check((p.size() <= size) & clean_start(p.as_bytes()), "piece fits, no cut character");
            all.extend_from_slice(p.as_bytes());
        }
        vk::check(all == copy, "pieces make up the text");
        vk::cover("done");
    }

    fn h_c35_truncate() {
        vk::covers("kept,shortened,tiny");
        let size = vk::pick(0, vk::bound(8, 12));
        let text = mixed(vk::pick(0, 5), [0, 1, 6][vk::fork(3)]);
        let copy = vk::copy(&text);
        let mut s = string(UTF8, &text);
        s.truncate(size);
        let out = s.as_bytes();
        if copy.len() <= size {
            vk::cover("kept");
            vk::check(out == &copy[..], "short text kept");
        } else {
            vk::check(out.len() <= size, "fits");
            let dots = size >= 3;
            vk::cover(if dots { "shortened" } else { "tiny" });
            let k = out.len() - if dots { 3 } else { 0 };
            if dots { vk::check(&out[k..] == b"...", "ends with an ellipsis") }
            vk::check(out[..k] == copy[..k], "start of the text kept");
            vk::check(clean_start(&copy[k..]), "no cut character");
            vk::check(k + 4 > size - if dots { 3 } else { 0 }, "no more dropped than needed");
        }
        vk::observe(out.len() as u64);
    }

    fn h_c35_truncate_any() {
        vk::covers("done");
        let cp = [0, 5, UTF8][vk::fork(3)];
        let n = vk::pick(0, vk::bound(11, 16));
        let size = vk::pick(0, n + 1);
        let (text, copy) = vk::twin_bytes(n);
        if cp == 0 && n > 0 { vk::assume(text[0] >= 0x20) }
        let mut s = string(cp, &text);
        s.truncate(size);
        let out = s.as_bytes();
        vk::check(out.len() <= size.max(n.min(size)), "fits");
        if n <= size { vk::check(out == &copy[..], "short text kept") }
        else if cp != UTF8 && size >= 3 { vk::check(out[..size - 3] == copy[..size - 3] && &out[size - 3..] == b"...", "start of the text and ellipsis") }
        vk::cover("done");
    }

    fn h_c36_codes() {
        vk::covers("two,three,unknown");
        let n = vk::pick(0, 4);
        let (raw, copy) = vk::twin_bytes(n);
        for x in &raw { vk::assume(*x < 0x80) }
        let r = lang::convert(unsafe { std::str::from_utf8_unchecked(&raw) });
        let code = copy;
        match r {
            None => {
                vk::cover("unknown");
                let mut known = false;
                for (a, b, c) in CODES.iter() {
                    for x in [a, b, c] {
                        if x.len() == n {
                            let mut same = true;
                            for i in 0..n { same &= x.as_bytes()[i] == code[i] }
                            known |= same;
                        }
                    }
                }
                vk::check(!known, "known codes are converted");
            }
            Some(x) => {
                let code: Vec<u8> = code.iter().map(|x| vk::conc(*x as u64) as u8).collect();
                vk::check((n == 2) & (x.len() == 3) | (n == 3) & (x.len() == 2), "two letters to three or back");
                vk::cover(if n == 2 { "two" } else { "three" });
                let back = lang::convert(x);
                vk::check(back.is_some(), "result is a known code");
                if n == 2 { vk::check(back.unwrap().as_bytes() == &code[..], "there and back") }
                else {
                    // the bibliographic variant of the same language
                    let again = lang::convert(back.unwrap());
                    vk::check(again.is_some() && again.unwrap() == x, "both variants belong to one language");
                }
                for (a, b, c) in CODES.iter() {
                    let (a, b, c) = (a.as_bytes(), b.as_bytes(), c.as_bytes());
                    if n == 2 && a == &code[..] { vk::check(x.as_bytes() == c, "code of the standard") }
                    if n == 3 && (b == &code[..] || c == &code[..]) { vk::check(x.as_bytes() == a, "two-letter code of the standard") }
                }
            }
        }
    }

    fn h_c36_any() {
        vk::covers("done");
        // strings with other than ASCII letters
        let (_, a) = any_char(1 + vk::fork(4));
        let mut v = a;
        if vk::fork(2) == 1 { v.push(vk::range(0, 0x7f) as u8) }
        let r = lang::convert(unsafe { std::str::from_utf8_unchecked(&v) });
        if v[0] >= 0x80 { vk::check(r.is_none(), "no code") }
        vk::cover("done");
    }
}
