//! Any image contents: every operation returns.
use crate::chain::alloc_raw;
use crate::recs::*;
use crate::util::*;
use crate::vx;
use crate::loc;
use cbm::disk::file::*;
use cbm::disk::*;
use std::io::{Read, Write};

struct Null(usize);
impl Write for Null {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Read to the end or the first error; the stream must be finite.
fn drain(r: &mut dyn Read) {
    let mut b = [0u8; 300];
    let mut n = 0usize;
    for _ in 0..6000 {
        match r.read(&mut b) {
            Ok(0) => return,
            Ok(k) => n += k,
            Err(_) => {
                // an error does not make the reader unusable
                let _ = r.read(&mut b[..7]);
                return;
            }
        }
    }
    vx::check(n == 0, "reading ends");
}
fn use_file(f: &File, show: bool) {
    let _ = f.name();
    let n = f.record_count();
    if let Ok(n) = n {
        vx::check(n < 900000, "a bounded number of records");
        let _ = f.record(0);
        for i in [1, n.wrapping_sub(1), n, usize::MAX] {
            let _ = f.record(i);
        }
    }
    let _ = f.occupied_sectors();
    if let Ok(mut r) = f.reader() {
        drain(&mut *r);
    }
    match f {
        File::GEOSSequential(g) | File::GEOSVLIR(g) => {
            if let Ok(mut r) = g.reader() {
                drain(&mut r);
            }
        }
        _ => (),
    }
    let _ = f.geos_info();
    if show {
        let _ = f.details(&mut Null(0), 0);
        let _ = f.details(&mut Null(0), 1);
        let _ = f.dump(&mut Null(0));
    }
}
/// Everything that only looks at the disk.
fn look(d: &(dyn Disk + 'static), k: u64, show: bool) {
    let before = snap(d, k);
    let _ = d.header();
    let _ = d.name();
    let _ = d.blocks_free();
    let _ = d.disk_format();
    if show {
        let _ = write!(Null(0), "{}", d);
        let _ = write!(Null(0), "{:?}", d.bam());
    }
    let mut it = d.iter();
    let mut i = 0;
    loop {
        match it.next() {
            None => break,
            Some(Ok(e)) => {
                if show {
                    let _ = write!(Null(0), "{} {:?} {:#}", e, e, e);
                }
                if let Ok(f) = d.open_file_from_entry(&e) {
                    use_file(&f, show);
                }
            }
            Some(Err(_)) => (),
        }
        i += 1;
        vx::check(i < 4000, "the listing ends");
        if i >= 4000 {
            break;
        }
    }
    let _ = d.directory();
    let _ = d.open_file(&pet(b"FILEX"));
    if let Ok(v) = d.validate() {
        for e in v {
            if show {
                let _ = write!(Null(0), "{} {:?}", e, e);
            }
        }
    }
    vx::check(snap(d, k).data == before.data, "looking changes nothing");
    vx::reach(1);
}
/// Everything that changes it.
fn change(d: &mut dyn Disk, what: u64) {
    match what {
        0 => {
            if let Ok(f) = d.create_file(&pet(b"NEW"), FileType::PRG, Scheme::Linear) {
                if let Ok(mut w) = f.writer() {
                    let _ = w.write(&[7u8; 600]);
                    let _ = w.flush();
                }
            }
        }
        1 => {
            let _ = d.rename(&pet(b"FILEX"), &pet(b"FILEY"));
            if let Ok(f) = d.open_file(&pet(b"FILEY")) {
                if let Ok(mut w) = f.writer() {
                    let _ = w.write(&[7u8; 600]);
                    let _ = w.flush();
                }
            }
        }
        2 => {
            if let Ok(mut f) = d.open_file(&pet(b"FILEX")) {
                let _ = f.delete();
            }
        }
        _ => {
            let mut all = vec![];
            for e in d.iter() {
                if let Ok(e) = e {
                    all.push(e);
                } else {
                    break;
                }
            }
            for e in all {
                if let Ok(mut f) = d.open_file_from_entry(&e) {
                    let _ = f.delete();
                }
            }
        }
    }
    let _ = d.directory();
    let _ = d.blocks_free();
    let _ = d.validate();
    vx::reach(2);
}
use cbm::disk::directory::FileType;

/// Sectors worth pointing at, and pointers that are wrong.
fn targets(k: u64) -> Vec<(u8, u8)> {
    let s = scatter(k, 3, 2);
    vec![s[0], s[1], first_dir(k), header_at(k), (0, 0), (0, 0xFF), (1, nsec(k, 1)), (tracks(k) + 1, 0), (255, 255), (0, 1), (dos_tracks(k), 0), (35, 17)]
}
fn target(k: u64, name: &str) -> (u8, u8) {
    let t = targets(k);
    t[vx::pick(name, t.len() as u64) as usize]
}
fn act(d: &mut (dyn Disk + 'static), k: u64, mode: u64) {
    d.initialize();
    if mode == 9 {
        look(d, k, true);
    } else {
        change(d, mode);
    }
}

/// A chain of fixed contents.
fn plain(d: &mut dyn Disk, secs: &[(u8, u8)], last: u8) {
    for i in 0..secs.len() {
        let mut b = [0u8; 256];
        for j in 0..256 {
            b[j] = (j * 7 + 0x30) as u8;
        }
        let n = if i + 1 < secs.len() { secs[i + 1] } else { (0, last + 1) };
        b[0] = n.0;
        b[1] = n.1;
        wr(d, secs[i].0, secs[i].1, &b);
    }
}
fn from(v: &[(u8, u8)], name: &str) -> (u8, u8) {
    v[vx::pick(name, v.len() as u64) as usize]
}

/// Any block count in the entry; where it is printed only the extremes, a digit count each.
fn any_blocks() -> [u8; 2] {
    if vx::param(1) == 9 {
        [[0; 2], [255; 2]][vx::pick("blocks", 2) as usize]
    } else {
        vx::any::<2>("blocks")
    }
}

harnesses! {
    /// params: kind, mode (0-3 change, 9 look), GEOS?, all pointers?. An arbitrary directory entry.
    fn h_any_entry() {
        let k = vx::param(0);
        let mut d = fresh(k);
        if vx::param(2) == 1 {
            make_geos(&mut *d, k, None);
        }
        let s = scatter(k, 3, 2);
        plain(&mut *d, &s, 60);
        alloc_raw(&mut *d, &s);
        let ty = vx::u8("type");
        let full = vx::param(3) == 1;
        let bad = (tracks(k) + 1, 0);
        let first = if full { target(k, "first") } else { from(&[s[0], first_dir(k), (0, 0), (1, nsec(k, 1)), bad, (255, 255)], "first") };
        let x = if full { from(&[s[0], s[1], first_dir(k), (0, 0), (0, 0xFF), bad], "extra") } else { from(&[s[0], s[1], (0, 0), bad], "extra") };
        let mut extra = [0u8; 9];
        extra[0] = x.0;
        extra[1] = x.1;
        // record length or file structure, and GEOS type
        let (e2, e3) = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (60, 6), (254, 0)][vx::pick("kind", 7) as usize];
        extra[2] = e2;
        extra[3] = e3;
        extra[4..].copy_from_slice(&[1, 2, 3, 4, 5]);
        let nb = any_blocks();
        put_entry(&mut *d, k, 0, ty, first, b"FILEX", extra, 0);
        poke(&mut *d, first_dir(k).0, first_dir(k).1, 30, &nb);
        act(&mut *d, k, vx::param(1));
    }

    /// params: kind, mode, all pointers?. A relative file with arbitrary side sectors.
    fn h_any_side() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let s = scatter(k, 3, 4);
        plain(&mut *d, &s[..2], 100);
        put_side(&mut *d, &s[2..3], &s[..2], 118);
        let full = vx::param(2) == 1;
        alloc_raw(&mut *d, &s);
        let rl = [118, 1, 0, 255, 254][vx::pick("reclen", if full { 5 } else { 3 }) as usize];
        put_entry(&mut *d, k, 0, 0x84, s[0], b"FILEX", [s[2].0, s[2].1, rl, 0, 0, 0, 0, 0, 0], 0);
        let nb = any_blocks();
        poke(&mut *d, first_dir(k).0, first_dir(k).1, 30, &nb);
        let bad = (tracks(k) + 1, 0);
        let mut b = rd(&*d, s[2].0, s[2].1);
        let link = from(&[(0, 19), (0, 0), (0, 15), (0, 17), (0, 18), (0, 255), s[2], s[3], bad], "link");
        let l0 = from(&[s[2], (0, 0), bad], "list");
        let d0 = from(&[s[0], s[1], bad, (0, 0)][..if full { 4 } else { 3 }], "d0");
        let d1 = from(&[s[1], bad, s[0], (0, 5), s[2], first_dir(k)][..if full { 6 } else { 4 }], "d1");
        b[0] = link.0;
        b[1] = link.1;
        b[4] = l0.0;
        b[5] = l0.1;
        b[16] = d0.0;
        b[17] = d0.1;
        b[18] = d1.0;
        b[19] = d1.1;
        wr(&mut *d, s[2].0, s[2].1, &b);
        if full {
            let n = vx::u8("tail");
            poke(&mut *d, s[1].0, s[1].1, 0, &[0, n]);
        }
        act(&mut *d, k, vx::param(1));
    }

    /// params: kind, mode, all pointers?. A GEOS file with an arbitrary index and info block.
    fn h_any_index() {
        let full = vx::param(2) == 1;
        let k = vx::param(0);
        let mut d = fresh(k);
        make_geos(&mut *d, k, None);
        let s = scatter(k, 3, 5);
        plain(&mut *d, &s[..2], 100);
        alloc_raw(&mut *d, &s);
        let bad = (tracks(k) + 1, 0);
        let info = from(&[s[3], bad, s[2]][..if full { 3 } else { 2 }], "info");
        put_entry(&mut *d, k, 0, 0x83, s[2], b"FILEX", [info.0, info.1, 1, 6, 90, 200, 255, 255, 255], 0);
        let nb = any_blocks();
        poke(&mut *d, first_dir(k).0, first_dir(k).1, 30, &nb);
        let mut b = [0u8; 256];
        let link = from(&[(0, 255), s[2], bad, (0, 0)][..if full { 4 } else { 3 }], "link");
        b[0] = link.0;
        b[1] = link.1;
        let set = [s[0], (0, 0), (0, 0xFF), bad, s[2], (0, 7), first_dir(k)];
        for i in 0..3 {
            let n = from(&set[..if full { [7, 5, 4] } else { [6, 4, 3] }[i]], ["e0", "e1", "e2"][i]);
            b[2 + 2 * i] = n.0;
            b[3 + 2 * i] = n.1;
        }
        wr(&mut *d, s[2].0, s[2].1, &b);
        let mut i = [0x41u8; 256];
        i[0..5].copy_from_slice(&[0, 255, 3, 21, 0xBF]);
        i[160] = 0;
        wr(&mut *d, s[3].0, s[3].1, &i);
        act(&mut *d, k, vx::param(1));
    }

    /// params: kind, mode. Arbitrary links of the directory and contents of its second sector.
    fn h_any_dir() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let s = scatter(k, 3, 2);
        plain(&mut *d, &s, 60);
        alloc_raw(&mut *d, &s);
        put_entry(&mut *d, k, 1, 0x82, s[0], b"FILEX", [0; 9], 2);
        let f = first_dir(k);
        let bad = (tracks(k) + 1, 0);
        let l = from(&[(f.0, f.1 + 3), (0, 0), (0, 255), (0, 1), (0, 31), (0, 32), (0, 40), bad, f, s[0], header_at(k), (1, nsec(k, 1))], "link");
        poke(&mut *d, f.0, f.1, 0, &[l.0, l.1]);
        let mut b = [0u8; 256];
        let n = from(&[(0, 255), (f.0, f.1 + 3), f, bad, (0, 0), (0, 66)], "next");
        b[0] = n.0;
        b[1] = n.1;
        b[34] = vx::u8("t1");
        b[34 + 3..34 + 8].copy_from_slice(b"FILEY");
        b[35] = s[0].0;
        b[36] = s[0].1;
        wr(&mut *d, f.0, f.1 + 3, &b);
        act(&mut *d, k, vx::param(1));
    }

    /// params: kind, mode. Arbitrary header fields.
    fn h_any_header() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let s = scatter(k, 3, 2);
        plain(&mut *d, &s, 60);
        alloc_raw(&mut *d, &s);
        put_entry(&mut *d, k, 1, 0x82, s[0], b"FILEX", [0; 9], 2);
        let h = header_at(k);
        let bd = target(k, "border");
        if vx::pick("sig", 2) == 1 {
            poke(&mut *d, h.0, h.1, GEOS_SIG, b"GEOS format V1.0");
        } else {
            let x = vx::any::<2>("signature");
            poke(&mut *d, h.0, h.1, GEOS_SIG, b"GEOS format V1.0");
            poke(&mut *d, h.0, h.1, GEOS_SIG + 12, &x);
        }
        poke(&mut *d, h.0, h.1, GEOS_BORDER, &[bd.0, bd.1]);
        let x = if bd == h { [b'A', 0x80] } else { vx::any::<2>("start") };
        let l = from(&[first_dir(k), (0, 0), bd], "link");
        poke(&mut *d, h.0, h.1, 0, &[l.0, l.1, x[0], x[1]]);
        act(&mut *d, k, vx::param(1));
    }

    /// params: kind, mode. Arbitrary counts with several kinds of bitmaps.
    fn h_any_bam() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let s = scatter(k, 3, 2);
        plain(&mut *d, &s, 60);
        put_entry(&mut *d, k, 1, 0x82, s[0], b"FILEX", [0; 9], 2);
        let n = bitmap_size(k);
        let dt = dir_track(k);
        let m: [u8; 5] = [[0; 5], [255; 5], [0, 0, 0x80, 0, 0], [4, 0, 0, 0, 0], [0, 0, 0, 0, 0x80]][vx::pick("map", 5) as usize];
        let c = vx::pick("count", 3);
        for t in 1..=dos_tracks(k) {
            let x = match c {
                0 => 0,
                1 => 255,
                _ if t == dt - 1 || t == 1 => vx::u8("n"),
                _ => 1,
            };
            set_bam_raw(&mut *d, k, t, x, &m[..n]);
        }
        if vx::pick("dirtrack", 2) == 1 {
            set_bam_raw(&mut *d, k, dt, 1, &[0, 0, 0, 0, 0][..n]);
        }
        act(&mut *d, k, vx::param(1));
    }

    /// params: kind, mode. An image full of one byte.
    fn h_any_fill() {
        let k = vx::param(0);
        let mut d = blank(k);
        let x = [0u8, 1, 3, 0x11, 0x12, 0x15, 0x23, 0x28, 0x35, 0x41, 0x4F, 0x82, 0x84, 0xA0, 0xC4, 0xFF][vx::pick("byte", 16) as usize];
        let mut b = [x; 256];
        for (t, s) in locations(k) {
            wr(&mut *d, t, s, &b);
        }
        // give it a format mark, in case that is what stops everything
        if vx::pick("mark", 2) == 1 {
            let h = header_at(k);
            b[2] = if k == D81K { b'D' } else { b'A' };
            if k == D71K {
                b[3] = 0x80;
            }
            wr(&mut *d, h.0, h.1, &b);
        }
        act(&mut *d, k, vx::param(1));
    }

    /// params: kind, mode. A plain file with arbitrary links.
    fn h_any_chain() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let s = scatter(k, 3, 3);
        plain(&mut *d, &s, 60);
        alloc_raw(&mut *d, &s[..2]);
        put_entry(&mut *d, k, 1, 0x82, s[0], b"FILEX", [0; 9], 2);
        for i in 0..3 {
            let t = targets(k);
            let n = if i == 2 { from(&[s[0], s[2], (0, 200), (0, 0)], "l2") } else { from(&t[..9], ["l0", "l1"][i]) };
            poke(&mut *d, s[i].0, s[i].1, 0, &[n.0, n.1]);
            if n == (0, 1) {
                let x = vx::u8("tail");
                poke(&mut *d, s[i].0, s[i].1, 1, &[x]);
            }
        }
        act(&mut *d, k, vx::param(1));
    }

    /// Arguments at the edge: indices, names and types, on a good disk.
    fn h_any_args() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let t = vx::u8("t");
        let s = vx::u8("s");
        let l = loc!(d, t, s);
        let _ = d.read_sector(l);
        let _ = d.write_sector(l, &[1u8; 256]);
        let n = [0, 1, 15, 16, 17, 18, 30, 31, 32, 255, 256, 300][vx::pick("len", 12) as usize];
        let name = vec![0x41u8; n];
        let _ = d.open_file(&pet(&name));
        let _ = d.rename(&pet(&name), &pet(b"X"));
        let _ = d.rename(&pet(b"X"), &pet(&name));
        let _ = d.check_filename_availability(&pet(&name));
        vx::reach(1);
    }
}
