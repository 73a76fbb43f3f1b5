//! Text: character conversion, sprites, errors, listings and dumps.
use crate::loc;
use crate::recs::*;
use crate::util::*;
use crate::vx;
use cbm::disk::directory::FileType;
use cbm::disk::file::*;
use cbm::disk::*;
use cbm::{Petscii, Sprite};
use std::fmt::Write as _;

const NONE: u32 = 0xFFFD;
/// What each PETSCII code (lower/upper case set) looks like, as a code point.
pub fn chart() -> Vec<u32> {
    let right: [u32; 32] = [
        0xA0, 0x258C, 0x2584, 0x2594, 0x2581, 0x258E, 0x2592, 0x2595, NONE, NONE, 0x2595, 0x2523, 0x2597, 0x2517, 0x2513, 0x2582, 0x250F, 0x253B, 0x2533, 0x252B, 0x258E,
        0x258D, 0x2595, 0x2594, 0x2594, 0x2583, 0x2713, 0x2596, 0x259D, 0x2518, 0x2598, 0x259A,
    ];
    let mut v = vec![NONE; 256];
    for i in 0..256usize {
        v[i] = match i {
            0x20..=0x40 => i as u32,
            0x41..=0x5A => i as u32 + 0x20,
            0x5B | 0x5D => i as u32,
            0x5C => 0xA3,
            0x5E => 0x2191,
            0x5F => 0x2190,
            0x60 | 0xC0 => 0x2501,
            0x61..=0x7A => i as u32 - 0x20,
            0xC1..=0xDA => i as u32 - 0x80,
            0x7B | 0xDB => 0x254B,
            0x7D | 0xDD => 0x2503,
            0x7E | 0xDE | 0xFF => 0x2592,
            0xA0..=0xBF => right[i - 0xA0],
            0xE0..=0xFE => right[i - 0xE0],
            _ => NONE,
        };
    }
    v
}
fn utf8(out: &mut Vec<u8>, c: u32) {
    if c < 0x80 {
        out.push(c as u8);
    } else if c < 0x800 {
        out.extend_from_slice(&[0xC0 | (c >> 6) as u8, 0x80 | (c & 63) as u8]);
    } else if c < 0x10000 {
        out.extend_from_slice(&[0xE0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]);
    } else {
        out.extend_from_slice(&[0xF0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]);
    }
}
fn shown(b: &[u8]) -> Vec<u8> {
    let t = chart();
    let mut v = vec![];
    for x in b {
        utf8(&mut v, t[*x as usize]);
    }
    v
}
fn dec(out: &mut Vec<u8>, v: u32) -> usize {
    let mut n = 0;
    let mut p = 1;
    while p <= 1_000_000_000 && v / p >= 10 {
        p *= 10;
    }
    loop {
        out.push(b'0' + (v / p % 10) as u8);
        n += 1;
        if p == 1 {
            return n;
        }
        p /= 10;
    }
}
fn dec0(out: &mut Vec<u8>, v: u32, width: usize) {
    let mut d = vec![];
    let n = dec(&mut d, v);
    for _ in n..width {
        out.push(b'0');
    }
    out.extend_from_slice(&d);
}
fn hexd(x: u8) -> u8 {
    if x < 10 {
        b'0' + x
    } else {
        b'a' - 10 + x
    }
}
fn hex2(out: &mut Vec<u8>, v: u8) {
    out.push(hexd(v >> 4));
    out.push(hexd(v & 15));
}
fn loc_text(out: &mut Vec<u8>, l: (u8, u8)) {
    out.push(b'(');
    dec(out, l.0 as u32);
    out.push(b',');
    dec(out, l.1 as u32);
    out.push(b')');
}
fn locs_text(out: &mut Vec<u8>, v: &[(u8, u8)]) {
    for (i, l) in v.iter().enumerate() {
        if i > 0 {
            out.push(b' ');
        }
        loc_text(out, *l);
    }
}
fn dump_text(out: &mut Vec<u8>, b: &[u8]) {
    if b.is_empty() {
        out.extend_from_slice(b"0000: ");
    }
    let mut o = 0;
    while o < b.len() {
        if o > 0 {
            out.push(b'\n');
        }
        hex2(out, (o >> 8) as u8);
        hex2(out, o as u8);
        out.extend_from_slice(b": ");
        for i in o..o + 16 {
            if i < b.len() {
                hex2(out, b[i]);
                out.push(b' ');
            } else {
                out.extend_from_slice(b"   ");
            }
        }
        for i in o..(o + 16).min(b.len()) {
            out.push(if b[i] >= 0x20 && b[i] <= 0x7E { b[i] } else { b'.' });
        }
        o += 16;
    }
}
fn escaped(out: &mut Vec<u8>, b: &[u8]) {
    for &c in b {
        match c {
            0 => return,
            9 => out.extend_from_slice(b"\\t"),
            10 => out.extend_from_slice(b"\\n"),
            13 => out.extend_from_slice(b"\\r"),
            b'\'' | b'"' | b'\\' => out.extend_from_slice(&[b'\\', c]),
            0x20..=0x7E => out.push(c),
            _ => {
                out.extend_from_slice(b"\\x");
                hex2(out, c);
            }
        }
    }
}
/// The glyph for four pixels: upper left, upper right, lower left, lower right.
fn glyph(ul: bool, ur: bool, ll: bool, lr: bool) -> u32 {
    const G: [u32; 16] = [
        0x20, 0x2597, 0x2596, 0x2584, 0x259D, 0x2590, 0x259E, 0x259F, 0x2598, 0x259A, 0x258C, 0x2599, 0x2580, 0x259C, 0x259B, 0x2588,
    ];
    G[(ul as usize) << 3 | (ur as usize) << 2 | (ll as usize) << 1 | lr as usize]
}
fn sprite_lines(b: &[u8]) -> Vec<Vec<u8>> {
    let px = |x: usize, y: usize| y < 21 && b[y * 3 + x / 8] >> (7 - x % 8) & 1 == 1;
    (0..11)
        .map(|r| {
            let mut l = vec![];
            for c in 0..12 {
                utf8(&mut l, glyph(px(2 * c, 2 * r), px(2 * c + 1, 2 * r), px(2 * c, 2 * r + 1), px(2 * c + 1, 2 * r + 1)));
            }
            l
        })
        .collect()
}
fn geos_type(out: &mut Vec<u8>, t: u8) {
    let n = [
        "Non-GEOS", "BASIC", "Assembler", "Data file", "System File", "Desk Accessory", "Application", "Application Data", "Font File", "Printer Driver", "Input Driver", "Disk Driver",
        "System Boot File", "Temporary", "Auto-Execute File",
    ];
    if (t as usize) < n.len() {
        out.extend_from_slice(n[vx::split_u8(t) as usize].as_bytes());
    } else {
        out.extend_from_slice(b"Unknown(0x");
        hex2(out, t);
        out.push(b')');
    }
}
fn structure(out: &mut Vec<u8>, t: u8) {
    match t {
        0 => out.extend_from_slice(b"Sequential"),
        1 => out.extend_from_slice(b"VLIR"),
        _ => {
            out.extend_from_slice(b"Unknown(0x");
            hex2(out, t);
            out.push(b')');
        }
    }
}
const ERRORS: [(DiskError, u8); 25] = [
    (DiskError::Unknown, 0),
    (DiskError::ReadOnly, 0),
    (DiskError::DiskFull, 0),
    (DiskError::InvalidLocation, 1),
    (DiskError::InvalidOffset, 1),
    (DiskError::InvalidRecord, 1),
    (DiskError::ReadOverflow, 1),
    (DiskError::ReadUnderrun, 1),
    (DiskError::WriteUnderrun, 1),
    (DiskError::Unpositioned, 1),
    (DiskError::FilenameTooLong, 1),
    (DiskError::FileExists, 1),
    (DiskError::InvalidRecordIndex, 1),
    (DiskError::NonLinearFile, 1),
    (DiskError::NotFound, 2),
    (DiskError::InvalidHeader, 3),
    (DiskError::InvalidBAM, 3),
    (DiskError::InvalidLayout, 3),
    (DiskError::Unformatted, 3),
    (DiskError::ChainLoop, 3),
    (DiskError::InvalidChainLink, 3),
    (DiskError::InvalidRelativeFile, 3),
    (DiskError::UnknownFormat, 3),
    (DiskError::GEOSInfoNotFound, 3),
    (DiskError::RecordTooLarge, 3),
];

harnesses! {
    /// Every code is shown as the right character, in any surroundings.
    fn h_pet_show() {
        let x = vx::u8("code");
        let b = [0x41, x, 0xC2];
        let p = Petscii::from_bytes(&b);
        let t = chart();
        let c = t[x as usize];
        let mut want = b"a".to_vec();
        utf8(&mut want, c);
        want.push(b'B');
        vx::check(p.to_string().as_bytes() == &want[..], "shown as the character of the chart");
        let s: String = p.clone().into();
        vx::check(s.as_bytes() == &want[..], "converted to the same text");
        let mut q = b"\"a".to_vec();
        if x == 0x22 {
            q.push(b'\\');
        }
        utf8(&mut q, c);
        q.extend_from_slice(b"B\"");
        let mut d = String::new();
        write!(d, "{:?}", p).unwrap();
        vx::check(d.as_bytes() == &q[..], "quoted form");
        // and back
        let back = Petscii::from_str_lossy(&s);
        vx::check(back.len() == 3 && back[0] == 0x41 && back[2] == 0x62, "one code per character");
        vx::check(t[back[1] as usize] == c, "conversion to text and back keeps what is shown");
        vx::check(Petscii::from(s.as_str()) == back && Petscii::from(&s) == back && Petscii::from(s) == back, "all conversions agree");
        vx::reach(1);
    }

    /// Every Unicode character is converted to the first code that shows it, or else to the substitute.
    fn h_pet_from() {
        let v = u32::from_le_bytes(vx::any::<4>("char"));
        vx::assume(v <= 0x10FFFF && !(v >= 0xD800 && v <= 0xDFFF));
        let c = char::from_u32(v).unwrap();
        let mut s = String::from("x");
        s.push(c);
        s.push('Y');
        let p = Petscii::from_str_lossy(&s);
        vx::check(p.len() == 3 && p[0] == 0x58 && p[2] == 0x79, "one code per character");
        let t = chart();
        let got = p[1];
        let back = t[got as usize];
        if v == NONE {
            vx::check(back == NONE, "the replacement character stays one");
            vx::reach(3);
        } else {
            let mut first = 0x7F;
            let mut found = false;
            for i in (0..256).rev() {
                let e = t[i] == v;
                found |= e;
                first = if e { i as u8 } else { first };
            }
            vx::check(got == first, "the first code that shows the character, or 7F");
            vx::check(back == if found { v } else { NONE }, "what is shown");
            if found {
                vx::reach(1);
            } else {
                vx::reach(2);
            }
        }
    }

    /// params: length. Raw bytes, padding and ids.
    fn h_pet_bytes() {
        let n = vx::param(0) as usize;
        let mut b = vec![0u8; n];
        vx::bytes(&mut b, "b");
        let p = Petscii::from_bytes(&b);
        vx::check(p.as_bytes() == &b[..] && p.len() == n && p.is_empty() == (n == 0), "bytes are kept");
        vx::check((&p).into_iter().copied().eq(b.iter().copied()) && p.clone().into_iter().eq(b.iter().copied()), "iteration");
        let r: &[u8] = p.as_ref();
        vx::check(r == &b[..], "as bytes");
        for i in 0..n {
            vx::check(p[i] == b[i], "index");
        }
        let mut id: Id = Petscii::from_bytes(&b).into();
        for i in 0..2 {
            vx::check(id[i] == if i < n { b[i] } else { 0 }, "id");
        }
        id[1] = 0x33;
        vx::check(id[1] == 0x33 && AsRef::<[u8]>::as_ref(&id)[0] == id[0], "id change");
        vx::check(Id::from_bytes(&b)[0] == id[0], "id from bytes");
        // padded fields
        let pad = vx::u8("pad");
        for m in 0..=n + 3 {
            let mut f = vec![0xEEu8; m];
            let r = p.write_bytes_with_padding(&mut f, pad);
            vx::check(r.is_ok() == (n <= m), "fits");
            if n <= m {
                vx::check(f[..n] == b[..] && f[n..].iter().all(|x| *x == pad), "bytes, then padding");
                let q = Petscii::from_padded_bytes(&f, pad);
                let e = (0..n).rev().find(|i| b[*i] != pad).map(|i| i + 1).unwrap_or(0);
                vx::check(q.as_bytes() == &b[..e], "padding is removed at the end only");
            } else {
                vx::check(f.iter().all(|x| *x == 0xEE), "nothing is written");
            }
        }
        vx::check((p == Petscii::from_bytes(&b[..n / 2])) == (n == n / 2), "equality");
        vx::reach(1);
    }

    /// params: background. Each block of four pixels is shown by its own character.
    fn h_sprite() {
        let mut b = [[0u8, 0xFF, 0x6C][vx::param(0) as usize]; 63];
        let r = vx::pick("row", 11) as usize;
        let c = vx::pick("col", 12) as usize;
        let (o, sh) = (c / 4, 6 - c % 4 * 2);
        let v = vx::u8("pixels");
        b[r * 6 + o] = b[r * 6 + o] & !(3 << sh) | (v >> 2 & 3) << sh;
        if r < 10 {
            b[r * 6 + 3 + o] = b[r * 6 + 3 + o] & !(3 << sh) | (v & 3) << sh;
        }
        let s = Sprite::from_bytes(&b);
        let mut c = [0u8; 63];
        s.to_bytes(&mut c);
        vx::check(b == c, "bytes are kept");
        let mut want = vec![];
        for l in sprite_lines(&b) {
            want.extend_from_slice(&l);
            want.push(b'\n');
        }
        vx::check(s.to_unicode().as_bytes() == &want[..], "every pixel is where it belongs");
        vx::reach(1);
    }

    fn h_sprite_bytes() {
        let b = vx::any::<63>("b");
        let s = Sprite::from_bytes(&b);
        let mut c = [0u8; 63];
        s.to_bytes(&mut c);
        vx::check(b == c, "bytes are kept");
        vx::reach(1);
    }

    /// Errors travel through std::io::Error unchanged.
    fn h_errors() {
        use std::io::{Error, ErrorKind};
        let i = vx::pick("error", 25) as usize;
        let (e, kind) = ERRORS[i].clone();
        let io: Error = e.clone().into();
        let kinds = [ErrorKind::Other, ErrorKind::InvalidInput, ErrorKind::NotFound, ErrorKind::InvalidData];
        vx::check(io.kind() == kinds[kind as usize], "kind of error");
        vx::check(e.to_io_error().kind() == io.kind(), "both conversions agree");
        vx::check(DiskError::from_io_error(&io) == Some(e.clone()), "the error can be recovered");
        vx::check(e == io && io == e, "comparison");
        let j = vx::pick("other", 25) as usize;
        vx::check((ERRORS[j].0 == io) == (i == j) && (io == ERRORS[j].0) == (i == j), "equal to no other error");
        let (m, n) = (e.to_string(), ERRORS[j].0.to_string());
        vx::check((m == n) == (i == j), "every error has its own message");
        vx::check(io.to_string() == m, "message is kept");
        vx::check(DiskError::from(io) == e, "the error can be recovered by conversion");
        let foreign = Error::new(ErrorKind::Other, "x");
        vx::check(DiskError::from_io_error(&foreign).is_none() && e != foreign && foreign != e, "foreign errors are none of ours");
        vx::check(DiskError::from(foreign) == DiskError::Unknown, "foreign errors are unknown");
        let os = Error::from_raw_os_error(2);
        vx::check(DiskError::from_io_error(&os).is_none() && DiskError::from(os) == DiskError::Unknown, "system errors");
        vx::reach(1);
    }

    /// params: kind, scheme 0 linear 1 relative 2 GEOS, border, what is arbitrary (1 size, 2 name, 4 type, 8 the rest). A directory entry as it is listed.
    fn h_show_entry() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let border = if vx::param(2) == 1 { Some(make_geos(&mut *d, k, None)) } else { None };
        let sch = vx::param(1);
        let any = vx::param(3);
        let size = if any & 1 != 0 { vx::u16("size") } else { 664 };
        let n = if any & 2 != 0 { [0usize, 1, 7, 15, 16][vx::pick("length", 5) as usize] } else { 11 };
        let at = if any & 2 != 0 { vx::pick("at", 3) as usize } else { 3 };
        let mut name = vec![0x53u8; n];
        if n > 0 && at < 3 {
            name[[0, n / 2, n - 1][at]] = vx::u8("char");
            vx::assume(name[n - 1] != 0xA0);
        }
        let ty = if any & 4 != 0 { vx::u8("type") } else { [0x82, 0x84, 0x83][sch as usize] };
        match sch {
            0 => vx::assume(ty & 15 != 4),
            1 => vx::assume(ty & 15 == 4),
            _ => vx::assume(ty & 7 < 4),
        }
        vx::assume(!(ty & 15 == 0 && ty & 0x80 == 0));
        let mut x = [0u8; 9];
        let mut extra = vec![];
        match sch {
            0 => extra.extend_from_slice(b"REGULAR"),
            1 => {
                x[..3].copy_from_slice(&[17, 9, 100]);
                if any & 8 != 0 {
                    let w = vx::pick("field", 3) as usize;
                    x[w] = vx::u8("x");
                }
                extra.extend_from_slice(b"REL(side=");
                loc_text(&mut extra, (x[0], x[1]));
                extra.extend_from_slice(b" rec_len=");
                dec(&mut extra, x[2] as u32);
                extra.push(b')');
            }
            _ => {
                x.copy_from_slice(&[1, 0, 1, 6, 99, 12, 1, 0, 59]);
                if any & 8 != 0 {
                    let w = 2 + vx::pick("field", 7) as usize;
                    x[w] = vx::u8("x");
                    vx::assume(x[2] <= 1);
                }
                extra.extend_from_slice(b"GEOS(");
                structure(&mut extra, x[2]);
                extra.extend_from_slice(b", ");
                geos_type(&mut extra, x[3]);
                extra.extend_from_slice(b", ");
                dec0(&mut extra, 1900 + x[4] as u32, 4);
                extra.push(b'-');
                dec0(&mut extra, x[5] as u32, 2);
                extra.push(b'-');
                dec0(&mut extra, x[6] as u32, 2);
                extra.push(b'-');
                dec0(&mut extra, x[7] as u32, 2);
                extra.push(b':');
                dec0(&mut extra, x[8] as u32, 2);
                extra.push(b')');
            }
        }
        let (t, s) = border.unwrap_or(first_dir(k));
        let mut raw = [0u8; 30];
        raw[0] = ty;
        raw[1] = 1;
        for j in 0..16 {
            raw[3 + j] = if j < n { name[j] } else { 0xA0 };
        }
        raw[19..28].copy_from_slice(&x);
        raw[28..].copy_from_slice(&size.to_le_bytes());
        poke(&mut *d, t, s, 2, &raw);
        d.initialize();
        let e = &d.directory().unwrap()[0];
        let mut want = vec![];
        let w = dec(&mut want, size as u32);
        for _ in w..4 {
            want.push(b' ');
        }
        want.extend_from_slice(b" \"");
        want.extend_from_slice(&shown(&name));
        want.push(b'"');
        for _ in n + 2..18 {
            want.push(b' ');
        }
        want.push(if ty & 0x80 != 0 { b' ' } else { b'*' });
        want.extend_from_slice(match ty & 15 {
            0 => b"del",
            1 => b"seq",
            2 => b"prg",
            3 => b"usr",
            4 => b"rel",
            _ => b"unk",
        });
        want.extend_from_slice(match ty >> 5 & 3 {
            0 => b" ",
            1 => b"@",
            2 => b"<",
            _ => b"<@",
        });
        let mut full = want.clone();
        full.push(b' ');
        full.extend_from_slice(&extra);
        if border.is_some() {
            want.extend_from_slice(b" (GEOS border)");
            full.extend_from_slice(b" (GEOS border)");
        }
        vx::check(format!("{}", e).as_bytes() == &want[..], "listing line");
        vx::check(format!("{:#}", e).as_bytes() == &full[..], "verbose listing line");
        vx::reach(1);
    }

    /// params: kind, GEOS, what is arbitrary. The disk's title line.
    fn h_show_disk() {
        let sym = |i: u64, c: u8| if vx::param(2) == i { vx::u8("x") } else { c };
        let k = vx::param(0);
        let mut d = fresh(k);
        let mut name = [0xA0u8; 16];
        name[..9].copy_from_slice(b"SOME NAME");
        name[4] = sym(0, b'-');
        let h = header_at(k);
        let (no, io, vo) = if k == D81K { (0x04, 0x16, 0x19) } else { (0x90, 0xA2, 0xA5) };
        let id = [sym(1, 0x41), sym(2, 0x42)];
        let ver = [sym(3, 0x32), sym(4, 0x41)];
        poke(&mut *d, h.0, h.1, no, &name);
        poke(&mut *d, h.0, h.1, io, &id);
        poke(&mut *d, h.0, h.1, vo, &ver);
        let mut tail = vec![];
        if vx::param(1) == 1 {
            make_geos(&mut *d, k, None);
            let v = sym(5, b'1');
            poke(&mut *d, h.0, h.1, GEOS_SIG + 13, &[v]);
            tail.extend_from_slice(b" (");
            escaped(&mut tail, &[b'G', b'E', b'O', b'S', b' ', b'f', b'o', b'r', b'm', b'a', b't', b' ', b'V', v, b'.', b'0']);
            tail.push(b')');
        }
        d.initialize();
        let s = format!("{}", d);
        let s = s.as_bytes();
        let mut head = b"0 \"".to_vec();
        head.extend_from_slice(&shown(&name[..9]));
        let mut rest = b"\" ".to_vec();
        rest.extend_from_slice(&shown(&id));
        rest.push(b' ');
        rest.extend_from_slice(&shown(&ver));
        rest.extend_from_slice(&tail);
        let ok = s.len() >= head.len() + rest.len() && s[..head.len()] == head[..] && s[s.len() - rest.len()..] == rest[..] && s[head.len()..s.len() - rest.len()].iter().all(|c| *c == b' ' || *c == 0xC2 || *c == 0xA0);
        vx::check(ok, "title line");
        vx::reach(1);
    }

    /// params: kind, bytes in the file, first arbitrary byte. The dump of a file.
    fn h_dump_file() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let n = vx::param(1) as usize;
        let at = vx::param(2) as usize;
        let mut b: Vec<u8> = (0..n).map(|i| (i * 11 + 3) as u8).collect();
        for i in at..(at + 3).min(n) {
            b[i] = vx::u8("b");
        }
        let f = d.create_file(&pet(b"DUMP"), FileType::SEQ, Scheme::Linear).unwrap();
        std::io::Write::write_all(&mut f.writer().unwrap(), &b).unwrap();
        let mut got = vec![];
        f.dump(&mut got).unwrap();
        let mut want = b"Filename: \"dump\"\nRecord: 0\n".to_vec();
        dump_text(&mut want, &b);
        want.push(b'\n');
        vx::check(got == want, "dump");
        vx::reach(1);
    }

    /// params: kind, error table, track and sector with two arbitrary bytes. The dump of the disk.
    fn h_dump_disk() {
        let k = vx::param(0);
        let e = vx::param(1) == 1;
        let mut d = blank_e(k, e);
        let (t, s) = (vx::param(2) as u8, vx::param(3) as u8);
        let x = vx::any::<2>("x");
        poke(&mut *d, t, s, 200, &x);
        let y = vx::u8("error");
        if e {
            if let Ok(Some(tab)) = d.blocks_ref_mut().error_table_mut() {
                tab[index(k, t, s)] = y;
            }
        }
        let mut got = vec![];
        vx::check(d.dump(&mut got).is_ok(), "dumped");
        let mut want = vec![];
        for l in locations(k) {
            want.extend_from_slice(b"\ntrack ");
            dec0(&mut want, l.0 as u32, 2);
            want.extend_from_slice(b" sector ");
            dec0(&mut want, l.1 as u32, 2);
            want.push(b'\n');
            let mut b = [0u8; 256];
            if l == (t, s) {
                b[200..202].copy_from_slice(&x);
            }
            dump_text(&mut want, &b);
            want.push(b'\n');
        }
        if e {
            want.extend_from_slice(b"\nError table:\n");
            for tr in 1..=tracks(k) {
                want.extend_from_slice(b"track ");
                dec0(&mut want, tr as u32, 2);
                want.extend_from_slice(b": ");
                for sc in 0..nsec(k, tr) {
                    hex2(&mut want, if (tr, sc) == (t, s) { y } else { 0 });
                    want.push(b' ');
                }
                want.push(b'\n');
            }
        }
        vx::check(got.len() == want.len(), "length of the dump");
        vx::check(got == want, "dump");
        vx::reach(1);
    }

    /// params: kind, shape. What is told about files.
    fn h_show_details() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let slot = vx::pick("slot", 8) as usize;
        let fd = first_dir(k);
        let mut pos = b"Directory position: (".to_vec();
        dec(&mut pos, fd.0 as u32);
        pos.push(b',');
        dec(&mut pos, fd.1 as u32);
        pos.extend_from_slice(b"@0x");
        hex2(&mut pos, (slot * 32) as u8);
        pos.extend_from_slice(b")\n");
        let mut brief = vec![];
        let mut full = pos.clone();
        let sh = vx::param(1);
        if sh < 2 {
            let n = [1usize, 4][sh as usize];
            let s = scatter(k, 3, n);
            put_chain(&mut *d, &s, 17, "data");
            put_entry(&mut *d, k, slot, 0x82, s[0], b"FILEX", [0; 9], n);
            full.extend_from_slice(b"Occupied sectors: ");
            locs_text(&mut full, &s);
            full.push(b'\n');
        } else if sh == 2 {
            let s = scatter(k, 3, 3);
            put_chain(&mut *d, &s[..2], 246, "data");
            put_side(&mut *d, &s[2..], &s[..2], 100);
            put_entry(&mut *d, k, slot, 0x84, s[0], b"FILEX", [s[2].0, s[2].1, 100, 0, 0, 0, 0, 0, 0], 3);
            full.extend_from_slice(b"Data sectors: ");
            locs_text(&mut full, &s[..2]);
            full.extend_from_slice(b"\nSide sectors: ");
            locs_text(&mut full, &s[2..]);
            full.push(b'\n');
        } else {
            // index, two records with a gap between them, unavailable ones at the end
            let s = scatter(k, 3, 5);
            put_chain(&mut *d, &s[1..3], 9, "r0");
            put_chain(&mut *d, &s[3..5], 9, "r2");
            let mut b = [0u8; 256];
            b[1] = 255;
            let extra = vx::pick("unavailable", 3) as usize;
            let ix = [s[1], (0, 255), s[3], (0, 255), (0, 255)];
            for i in 0..3 + extra {
                b[2 + 2 * i] = ix[i].0;
                b[3 + 2 * i] = ix[i].1;
            }
            wr(&mut *d, s[0].0, s[0].1, &b);
            put_entry(&mut *d, k, slot, 0x83, s[0], b"FILEX", [0, 0, 1, 6, 1, 1, 1, 1, 1], 5);
            brief.extend_from_slice(b"VLIR records: 3\n");
            full.extend_from_slice(b"VLIR record sector: ");
            loc_text(&mut full, s[0]);
            full.extend_from_slice(b"\nRecord 0 sectors: ");
            locs_text(&mut full, &s[1..3]);
            full.extend_from_slice(b"\nRecord 1 sectors: \nRecord 2 sectors: ");
            locs_text(&mut full, &s[3..5]);
            full.push(b'\n');
            if extra > 0 {
                dec(&mut full, extra as u32);
                full.extend_from_slice(b" unavailable records follow...\n");
            }
        }
        d.initialize();
        let f = d.open_file(&pet(b"FILEX")).unwrap();
        let (mut a, mut b) = (vec![], vec![]);
        f.details(&mut a, 0).unwrap();
        f.details(&mut b, 1).unwrap();
        vx::check(a == brief, "brief details");
        vx::check(b == full, "full details");
        vx::reach(1);
    }

    /// params: kind, field 0..5. What is shown of an info block.
    fn h_show_info() {
        let mut b = [0u8; 256];
        b[1] = 255;
        b[2..5].copy_from_slice(&[3, 21, 0xBF]);
        for i in 0..63 {
            b[5 + i] = (i * 37) as u8;
        }
        b[0x44] = 0x83;
        b[0x45] = 6;
        b[0x47..0x4D].copy_from_slice(&[0, 4, 0xFF, 0x3F, 0x12, 0xA0]);
        b[0x4D..0x4D + 5].copy_from_slice(b"Class");
        b[0x61..0x61 + 6].copy_from_slice(b"Author");
        b[0x75..0x75 + 11].copy_from_slice(b"Application");
        b[0xA0..0xA0 + 4].copy_from_slice(b"Desc");
        let f = vx::param(0);
        let (o, n) = [(0x45, 1), (0x46, 1), (0x47, 2), (0x49, 2), (0x4B, 2), (0x4E, 2), (0x63, 2), (0x77, 2), (0xA1, 2), (5 + 17, 1)][f as usize];
        for i in 0..n {
            let x = vx::u8("x");
            b[o + i] = if f == 9 { b[o + i] & 0xC3 | x & 0x3C } else { x };
        }
        let info = cbm::disk::geos::GEOSInfo::from_bytes(&b);
        let mut text: Vec<Vec<u8>> = vec![];
        let mut l = b"Type: ".to_vec();
        geos_type(&mut l, b[0x45]);
        l.extend_from_slice(b" (");
        structure(&mut l, b[0x46]);
        l.push(b')');
        text.push(l);
        let mut l = b"Program addresses: load=0x".to_vec();
        for (i, w) in [" end=0x", " start=0x", ""].iter().enumerate() {
            hex2(&mut l, b[0x48 + 2 * i]);
            hex2(&mut l, b[0x47 + 2 * i]);
            l.extend_from_slice(w.as_bytes());
        }
        text.push(l);
        for (w, o, n) in [("Class: ", 0x4D, 20), ("Author: ", 0x61, 20), ("Application: ", 0x75, 20), ("Description: ", 0xA0, 96)] {
            let mut l = w.as_bytes().to_vec();
            escaped(&mut l, &b[o..o + n]);
            text.push(l);
        }
        let mut want = vec![];
        for (i, l) in sprite_lines(&b[5..68]).iter().enumerate() {
            want.extend_from_slice(l);
            want.push(b' ');
            if i < text.len() {
                want.extend_from_slice(&text[i]);
            }
            want.push(b'\n');
        }
        vx::check(format!("{}", info).as_bytes() == &want[..], "info block as text");
        vx::reach(1);
    }

    /// Locations in messages of the consistency check.
    fn h_show_validation() {
        let d = fresh(0);
        let (t, s) = (vx::u8("t"), vx::u8("s"));
        let l = loc!(d, t, s);
        let mut at = vec![];
        loc_text(&mut at, (t, s));
        let cat = |p: &[&[u8]]| p.concat();
        let (a, b) = (pet(b"ONE"), pet(b"TWO"));
        let i = vx::pick("which", 5);
        let (e, want) = match i {
            0 => (ValidationError::SystemSectorNotAllocated(l), cat(&[b"System sector not allocated: ", &at])),
            1 => (ValidationError::SectorMisallocated(l), cat(&[b"Sector misallocated: ", &at])),
            2 => (ValidationError::SectorMisoccupied(l, a), cat(&[b"Sector ", &at, b" misoccupied by file: \"one\""])),
            3 => (ValidationError::SectorOveroccupied(l, a, b), cat(&[b"Sector ", &at, b" occupied by multiple files, including at least: \"one\" \"two\""])),
            _ => (ValidationError::FileScanError(DiskError::ChainLoop, a), b"Error scanning \"one\": chain loop detected".to_vec()),
        };
        vx::check(e.to_string().as_bytes() == &want[..], "message");
        vx::reach(1);
    }
}
