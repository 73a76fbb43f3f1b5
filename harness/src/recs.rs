//! Relative and GEOS files: records, Convert stream, info blocks, deletion.
use crate::chain::alloc_raw;
use crate::util::*;
use crate::vx;
use cbm::disk::directory::*;
use cbm::disk::file::*;
use cbm::disk::geos::*;
use cbm::disk::*;
use std::io::Read;

/// n data sectors all over the disk.
pub fn scatter(k: u64, from: usize, n: usize) -> Vec<(u8, u8)> {
    let all: Vec<(u8, u8)> = locations(k).into_iter().filter(|l| l.0 != dir_track(k) && l.0 <= dos_tracks(k) && !is_system(k, l.0, l.1)).collect();
    (from..from + n).map(|i| all[(i * 37 + 5) % all.len()]).collect()
}
/// The same, among the sectors that are free now.
pub fn scatter_free(d: &dyn Disk, k: u64, from: usize, n: usize) -> Vec<(u8, u8)> {
    let s = snap(d, k);
    let all: Vec<(u8, u8)> = locations(k).into_iter().filter(|l| l.0 != dir_track(k) && l.0 <= dos_tracks(k) && s.free_bit(l.0, l.1)).collect();
    vx::check(n <= all.len(), "fits");
    (from..from + n).map(|i| all[(i * 37 + 5) % all.len()]).collect()
}
/// Write a chain: full blocks, then `last` bytes in the last one. Returns the data.
pub fn put_chain(d: &mut dyn Disk, secs: &[(u8, u8)], last: usize, name: &str) -> Vec<u8> {
    let mut out = vec![];
    for i in 0..secs.len() {
        let mut b = vec![0u8; 256];
        vx::bytes(&mut b, name);
        let n = if i + 1 < secs.len() {
            b[0] = secs[i + 1].0;
            b[1] = secs[i + 1].1;
            254
        } else {
            b[0] = 0;
            b[1] = (last + 1) as u8;
            last
        };
        out.extend_from_slice(&b[2..2 + n]);
        wr(d, secs[i].0, secs[i].1, &b);
    }
    out
}
/// Fill a directory slot.
pub fn put_entry(d: &mut dyn Disk, k: u64, slot: usize, attr: u8, first: (u8, u8), name: &[u8], extra: [u8; 9], blocks: usize) {
    let f = first_dir(k);
    let mut raw = [0u8; 30];
    raw[0] = attr;
    raw[1] = first.0;
    raw[2] = first.1;
    for j in 0..16 {
        raw[3 + j] = if j < name.len() { name[j] } else { 0xA0 };
    }
    raw[19..28].copy_from_slice(&extra);
    raw[28] = blocks as u8;
    raw[29] = (blocks >> 8) as u8;
    poke(d, f.0, f.1, slot * 32 + 2, &raw);
}
/// Side sectors for a relative file.
pub fn put_side(d: &mut dyn Disk, side: &[(u8, u8)], data: &[(u8, u8)], rl: u8) {
    for i in 0..side.len() {
        let mut b = vec![0u8; 256];
        let part = &data[(i * 120).min(data.len())..((i + 1) * 120).min(data.len())];
        if i + 1 < side.len() {
            b[0] = side[i + 1].0;
            b[1] = side[i + 1].1;
        } else {
            b[1] = (15 + 2 * part.len()) as u8;
        }
        b[2] = i as u8;
        b[3] = rl;
        for (j, s) in side.iter().take(6).enumerate() {
            b[4 + 2 * j] = s.0;
            b[5 + 2 * j] = s.1;
        }
        for (j, s) in part.iter().enumerate() {
            b[16 + 2 * j] = s.0;
            b[17 + 2 * j] = s.1;
        }
        wr(d, side[i].0, side[i].1, &b);
    }
}
fn rel_extra(side: (u8, u8), rl: u8) -> [u8; 9] {
    [side.0, side.1, rl, 0, 0, 0, 0, 0, 0]
}
fn sorted(v: &[(u8, u8)]) -> Vec<(u8, u8)> {
    let mut v = v.to_vec();
    v.sort();
    v
}
fn occupies(f: &File, want: &[(u8, u8)]) -> bool {
    let w = sorted(want);
    match f.occupied_sectors() {
        Ok(v) => v.len() == w.len() && v.iter().zip(&w).all(|(a, b)| a.0 == b.0 && a.1 == b.1),
        Err(_) => false,
    }
}
fn err<T>(r: std::io::Result<T>, e: DiskError) -> bool {
    matches!(r, Err(ref x) if is(x, e))
}
/// Two bystanders: a linear file made by the library and an allocated sector nobody owns.
fn bystander(d: &mut dyn Disk) -> Vec<u8> {
    let b = vx::any::<270>("bystander").to_vec();
    let f = d.create_file(&pet(b"BYSTANDER"), FileType::SEQ, Scheme::Linear).unwrap();
    std::io::Write::write_all(&mut f.writer().unwrap(), &b).unwrap();
    b
}
/// Delete the file and compare everything with what deletion must do.
fn check_delete(d: &mut dyn Disk, k: u64, name: &[u8], slot: usize, owned: &[(u8, u8)], by: &[u8]) {
    let before = snap(d, k);
    let free = d.blocks_free().unwrap();
    let mut f = d.open_file(&pet(name)).unwrap();
    vx::check(f.delete().is_ok(), "deleted");
    let after = snap(d, k);
    let fd = first_dir(k);
    for (t, s) in locations(k) {
        if (t, s) == fd {
            let (a, b) = (before.sec(t, s), after.sec(t, s));
            let mut want = a.to_vec();
            want[slot * 32 + 2] &= 0x70;
            vx::check(b == &want[..], "the directory entry is marked deleted and otherwise kept");
        } else if !bam_sectors(k).contains(&(t, s)) {
            vx::check(before.sec(t, s) == after.sec(t, s), "no other sector is written");
        }
    }
    for t in 1..=dos_tracks(k) {
        let mut freed = 0;
        for s in 0..nsec(k, t) {
            let own = owned.contains(&(t, s));
            vx::check(after.free_bit(t, s) == (before.free_bit(t, s) || own), "exactly the sectors of the file are freed");
            freed += own as u8;
        }
        vx::check(after.free_count(t) == before.free_count(t) + freed, "free counts");
    }
    for i in 0..2 {
        if i == 1 {
            d.initialize();
        }
        vx::check(d.blocks_free().unwrap() == free + owned.len(), "blocks free");
        vx::check(err(d.open_file(&pet(name)), DiskError::NotFound), "gone");
        let l = d.directory().unwrap();
        vx::check(l.len() == 1 && l[0].filename.as_bytes() == b"BYSTANDER", "the other file is listed");
        vx::check(read_all(&d.open_file(&pet(b"BYSTANDER")).unwrap()) == by, "the other file is intact");
    }
    vx::check(matches!(d.validate(), Ok(ref e) if e.is_empty()), "the disk is valid");
}

/// A GEOS file at slot 1: what it owns and its pieces.
pub struct Geos {
    pub owned: Vec<(u8, u8)>,
    pub info: Option<[u8; 256]>,
    pub index: Vec<Option<usize>>,
    pub records: Vec<Vec<u8>>,
    pub blocks: Vec<usize>,
    pub first: (u8, u8),
    pub extra: [u8; 9],
}
/// shape: blocks of each record (0 = empty record); `last` bytes in each last block; VLIR or sequential.
pub fn put_geos(d: &mut dyn Disk, k: u64, vlir: bool, with_info: bool, shape: &[usize], last: usize) -> Geos {
    let mut next = 3;
    let total = shape.iter().sum::<usize>() + 2;
    // scattered, or the first sectors of the first tracks
    let low = total <= 10 && last > 0 && vx::pick("place", 2) == 1;
    // 0: any number of bytes
    let last = if last > 0 { last } else { 1 + vx::pick("last", 254) as usize };
    let mut g = Geos { owned: vec![], info: None, index: vec![], records: vec![], blocks: vec![], first: (0, 0), extra: [0; 9] };
    let mut take = |n: usize, g: &mut Geos| {
        let v = if low { (0..n).map(|i| ((next - 2 + i) as u8, 0)).collect() } else { scatter(k, next, n) };
        next += n;
        g.owned.extend_from_slice(&v);
        v
    };
    let date = vx::any::<5>("date");
    g.extra[3] = 1 + vx::u8("type") % 64;
    g.extra[4..].copy_from_slice(&date);
    if with_info {
        let l = take(1, &mut g)[0];
        let mut b = vx::any::<256>("info");
        b[0] = 0;
        b[1] = 0xFF;
        wr(d, l.0, l.1, &b);
        g.info = Some(b);
        g.extra[0] = l.0;
        g.extra[1] = l.1;
    }
    if vlir {
        g.extra[2] = 1;
        let l = take(1, &mut g)[0];
        let mut b = [0u8; 256];
        b[1] = 0xFF;
        for (i, n) in shape.iter().enumerate() {
            if *n == 0 {
                b[2 + 2 * i + 1] = 0xFF;
                g.index.push(None);
            } else {
                let s = take(*n, &mut g);
                b[2 + 2 * i] = s[0].0;
                b[2 + 2 * i + 1] = s[0].1;
                let l = if i % 2 == 0 { last } else { 254 - last + 1 };
                let data = put_chain(d, &s, l, ["r0", "r1", "r2", "r3", "r4", "r5"][i % 6]);
                g.index.push(Some(g.records.len()));
                g.records.push(data);
                g.blocks.push(*n);
            }
        }
        wr(d, l.0, l.1, &b);
        g.first = l;
    } else {
        let s = take(shape[0], &mut g);
        g.first = s[0];
        let data = put_chain(d, &s, last, "r0");
        g.index.push(Some(0));
        g.records.push(data);
        g.blocks.push(shape[0]);
    }
    alloc_raw(d, &g.owned);
    put_entry(d, k, 1, 0x83, g.first, b"GEOSFILE", g.extra, g.owned.len());
    d.initialize();
    g
}
/// Record shapes selected by a harness parameter.
pub fn shape(i: u64) -> (bool, &'static [usize]) {
    match i {
        0 => (false, &[1]),
        1 => (false, &[3]),
        2 => (true, &[1]),
        3 => (true, &[2, 0, 1]),
        4 => (true, &[0, 0, 1, 2]),
        5 => (true, &[]),
        6 => (true, &[0, 0]),
        7 => (true, &[1, 1, 1, 0]),
        8 => (true, &[9, 1]),
        10 => (true, &[255, 1]),
        11 => (true, &[1, 256]),
        12 => (true, &[260]),
        13 => (true, &LATE),
        14 => (true, &[1; 127]),
        _ => (true, &[1, 0, 1, 0, 1, 1]),
    }
}
/// Only the last of the 127 records is there.
static LATE: [usize; 127] = {
    let mut v = [0; 127];
    v[126] = 2;
    v
};
/// The Convert stream of the file, put together by hand.
pub fn cvt(g: &Geos, vlir: bool, blocks: usize) -> Vec<u8> {
    let mut v = vec![0u8; 254];
    v[0] = 0x83;
    v[1] = g.first.0;
    v[2] = g.first.1;
    v[3..19].copy_from_slice(b"GEOSFILE\xA0\xA0\xA0\xA0\xA0\xA0\xA0\xA0");
    v[19..28].copy_from_slice(&g.extra);
    v[28] = blocks as u8;
    v[29] = (blocks >> 8) as u8;
    v[30..33].copy_from_slice(if vlir { b"PRG" } else { b"SEQ" });
    v[33..58].copy_from_slice(b" formatted GEOS file V1.0");
    v.extend_from_slice(&g.info.unwrap()[2..]);
    if vlir {
        let mut ix = vec![0u8; 254];
        for (i, r) in g.index.iter().enumerate() {
            match r {
                None => ix[2 * i + 1] = 0xFF,
                Some(r) => {
                    ix[2 * i] = g.blocks[*r] as u8;
                    ix[2 * i + 1] = (g.records[*r].len() - 254 * (g.blocks[*r] - 1) + 1) as u8;
                }
            }
        }
        v.extend_from_slice(&ix);
    }
    for (i, r) in g.records.iter().enumerate() {
        v.extend_from_slice(r);
        if i + 1 < g.records.len() {
            while v.len() % 254 != 0 {
                v.push(0);
            }
        }
    }
    v
}
fn geos_of(f: &File) -> &GEOSFile {
    match f {
        File::GEOSVLIR(g) => g,
        File::GEOSSequential(g) => g,
        _ => {
            vx::check(false, "a GEOS file");
            loop {}
        }
    }
}

harnesses! {
    /// params: kind, data blocks, bytes in the last block, record length range lo, hi.
    fn h_rel() {
        let k = vx::param(0);
        let n = vx::param(1) as usize;
        let last = if vx::param(2) > 0 { vx::param(2) as usize } else { 1 + vx::pick("last", 254) as usize };
        let mut d = fresh(k);
        let side = scatter(k, 3 + n, (n + 119) / 120);
        let secs = scatter(k, 3, n);
        let rl = vx::u8("reclen");
        vx::assume(rl as u64 >= vx::param(3) && rl as u64 <= vx::param(4));
        let rl = vx::split_u8(rl);
        let data = put_chain(&mut *d, &secs, last, "data");
        put_side(&mut *d, &side, &secs, rl);
        let mut owned = secs.clone();
        owned.extend_from_slice(&side);
        alloc_raw(&mut *d, &owned);
        put_entry(&mut *d, k, 0, 0x84, secs[0], b"RELFILE", rel_extra(side[0], rl), n + side.len());
        d.initialize();
        let before = snap(&*d, k);
        let r = d.open_file(&pet(b"RELFILE"));
        if rl == 0 || data.len() % rl as usize != 0 {
            vx::check(err(r, DiskError::InvalidRelativeFile), "data that is not a whole number of records is refused");
            vx::reach(2);
            return;
        }
        let f = match r {
            Ok(f) => f,
            Err(_) => {
                vx::check(false, "opens");
                return;
            }
        };
        vx::check(matches!(f, File::Relative(_)), "a relative file");
        let c = data.len() / rl as usize;
        vx::check(f.record_count().unwrap() == c, "record count");
        for i in 0..c {
            let r = f.record(i);
            vx::check(matches!(r, Ok(ref v) if v[..] == data[i * rl as usize..(i + 1) * rl as usize]), "each record is its slice of the data");
        }
        let far = vx::u16("index") as usize;
        vx::assume(far >= c);
        vx::check(err(f.record(c), DiskError::InvalidRecordIndex), "no record past the end");
        vx::check(err(f.record(far), DiskError::InvalidRecordIndex), "no record past the end");
        vx::check(err(f.reader().map(|_| ()), DiskError::NonLinearFile) && err(f.writer().map(|_| ()), DiskError::NonLinearFile), "not a linear file");
        vx::check(occupies(&f, &owned), "data and side sectors");
        vx::check(snap(&*d, k).data == before.data, "reading changes nothing");
        vx::reach(1);
    }

    /// params: kind, part (0 list bytes, 1 tail byte, 2 last data block link, 3 a list entry of one of several side sectors). Inconsistent relative files.
    fn h_rel_bad() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let n = if vx::param(1) >= 3 { vx::param(2) as usize } else { 3 };
        let side = scatter(k, 3 + n, (n + 119) / 120);
        let secs = scatter(k, 3, n);
        let data = put_chain(&mut *d, &secs, if n % 2 == 0 { 102 } else { 100 }, "data");
        put_side(&mut *d, &side, &secs, 4);
        put_entry(&mut *d, k, 0, 0x84, secs[0], b"RELFILE", rel_extra(side[0], 4), n + side.len());
        let ok;
        match vx::param(1) {
            0 => {
                // the list of side sectors
                let mut l = vx::any::<12>("list");
                let lo = vx::param(2) as usize;
                for i in 0..6 {
                    if i < lo || i > lo + 2 {
                        l[2 * i] = if i == 0 { side[0].0 } else { 0 };
                        l[2 * i + 1] = if i == 0 { side[0].1 } else { 0 };
                    }
                }
                poke(&mut *d, side[0].0, side[0].1, 4, &l);
                let mut seen = 0;
                let mut good = true;
                for i in 0..6 {
                    if l[2 * i] != 0 {
                        good &= l[2 * i] == side[0].0 && l[2 * i + 1] == side[0].1;
                        seen += 1;
                    }
                }
                ok = good && seen == 1;
            }
            1 => {
                let t = vx::split_u8(vx::u8("tail"));
                poke(&mut *d, side[0].0, side[0].1, 0, &[0, t]);
                if t == 0 {
                    vx::check(err(d.open_file(&pet(b"RELFILE")), DiskError::InvalidChainLink), "impossible length");
                    vx::reach(1);
                    return;
                }
                // an even number of bytes, 16 of them before the sector list, ending with the last block
                let size = t as usize + 1;
                if size < 16 || size % 2 == 1 {
                    vx::check(err(d.open_file(&pet(b"RELFILE")), DiskError::InvalidRelativeFile), "impossible length");
                    vx::reach(1);
                    return;
                }
                let m = (size - 16) / 2;
                if m > n {
                    vx::check(err(d.open_file(&pet(b"RELFILE")), DiskError::InvalidLocation), "no such data sector");
                    return;
                }
                if m == 0 {
                    vx::check(d.open_file(&pet(b"RELFILE")).unwrap().record_count().unwrap() == 0, "no data");
                    return;
                }
                ok = m == n;
            }
            3 => {
                // one list entry of any side sector; with more than six side sectors there is no room for all
                let i = vx::pick("side", side.len() as u64) as usize;
                let j = vx::pick("entry", 6) as usize;
                let x = vx::any::<2>("pair");
                poke(&mut *d, side[i].0, side[i].1, 4 + 2 * j, &x);
                let same = j < side.len() && x[0] == side[j].0 && x[1] == side[j].1;
                ok = side.len() <= 6 && (same || (j >= side.len() && x[0] == 0));
            }
            _ => {
                let x = vx::any::<2>("link");
                vx::assume(x[0] != 0);
                poke(&mut *d, secs[2].0, secs[2].1, 0, &x);
                ok = false;
            }
        }
        match d.open_file(&pet(b"RELFILE")) {
            Ok(f) => {
                vx::check(ok, "an inconsistent relative file is refused");
                vx::check(f.record(5).unwrap() == data[20..24], "record");
                vx::reach(1);
            }
            Err(e) => {
                vx::check(!ok, "a consistent relative file opens");
                vx::check(is(&e, DiskError::InvalidRelativeFile), "refused as such");
                vx::reach(2);
            }
        }
    }

    /// params: kind, data blocks. Deleting a relative file.
    fn h_rel_delete() {
        let k = vx::param(0);
        let n = vx::param(1) as usize;
        let mut d = fresh(k);
        let by = bystander(&mut *d);
        let side = scatter_free(&*d, k, 3 + n, (n + 119) / 120);
        let secs = scatter_free(&*d, k, 3, n);
        put_chain(&mut *d, &secs, 100, "data");
        put_side(&mut *d, &side, &secs, 2);
        let mut owned = secs.clone();
        owned.extend_from_slice(&side);
        alloc_raw(&mut *d, &owned);
        put_entry(&mut *d, k, 1, 0x84 | vx::u8("flags") & 0x70, secs[0], b"RELFILE", rel_extra(side[0], 2), n + side.len());
        d.initialize();
        check_delete(&mut *d, k, b"RELFILE", 1, &owned, &by);
        vx::reach(1);
    }

    /// params: kind, shape, last bytes, info. Records of a GEOS file.
    fn h_geos_records() {
        let k = vx::param(0);
        let (vlir, sh) = shape(vx::param(1));
        let mut d = fresh(k);
        let g = put_geos(&mut *d, k, vlir, vx::param(3) == 1, sh, vx::param(2) as usize);
        let before = snap(&*d, k);
        let f = d.open_file(&pet(b"GEOSFILE")).unwrap();
        vx::check(matches!(f, File::GEOSVLIR(_)) == vlir && (vlir || matches!(f, File::GEOSSequential(_))), "a GEOS file of its kind");
        vx::check(f.record_count().unwrap() == g.index.len(), "record count");
        for (i, r) in g.index.iter().enumerate() {
            let x = f.record(i);
            match r {
                Some(r) => vx::check(matches!(x, Ok(ref v) if *v == g.records[*r]), "each record is its chain's data"),
                None => vx::check(matches!(x, Ok(ref v) if v.is_empty()), "an unavailable record is empty"),
            }
        }
        let far = vx::u16("index") as usize;
        vx::assume(far >= g.index.len());
        vx::check(err(f.record(far), DiskError::InvalidRecordIndex), "no record past the end");
        match f.reader() {
            Ok(mut r) => {
                let mut v = vec![];
                vx::check(!vlir && r.read_to_end(&mut v).is_ok() && v == g.records[0], "a sequential file can be read");
            }
            Err(e) => vx::check(vlir && is(&e, DiskError::NonLinearFile), "a VLIR file is not linear"),
        }
        vx::check(err(f.writer().map(|_| ()), if vlir { DiskError::NonLinearFile } else { DiskError::ReadOnly }), "GEOS files are not written");
        vx::check(occupies(&f, &g.owned), "index, info block and records");
        match (f.geos_info().unwrap(), g.info) {
            (Some(i), Some(b)) => check_info(&i, &b),
            (None, None) => {}
            _ => vx::check(false, "info block exactly if there is one"),
        }
        vx::check(snap(&*d, k).data == before.data, "reading changes nothing");
        vx::reach(1);
    }

    /// params: kind, index bytes with arbitrary values from this pair on, pairs. Any index block entries.
    fn h_vlir_index() {
        let k = vx::param(0);
        let at = vx::param(1) as usize;
        let n = vx::param(2) as usize;
        let mut d = fresh(k);
        let secs = scatter(k, 3, 2);
        let mut a = put_chain(&mut *d, &secs[..1], 30, "a");
        a.truncate(30);
        let ix = scatter(k, 9, 1)[0];
        let mut b = [0u8; 256];
        let link = vx::any::<2>("link");
        // the link bytes belong to the chain, not to the index
        b[0] = 0;
        b[1] = link[1] | 1;
        for i in 0..at {
            b[2 + 2 * i] = secs[0].0;
            b[3 + 2 * i] = secs[0].1;
        }
        let mut kinds = vec![1u64; at];
        for i in at..127 {
            if i < at + n {
                let x = vx::pick("entry", 4);
                kinds.push(x);
                let v = [[0, 0], [secs[0].0, secs[0].1], [0, 0xFF], [0, 0xFE]][x as usize];
                b[2 + 2 * i] = v[0];
                b[3 + 2 * i] = v[1];
            } else {
                kinds.push(0);
            }
        }
        wr(&mut *d, ix.0, ix.1, &b);
        put_entry(&mut *d, k, 0, 0x83, ix, b"GEOSFILE", [0, 0, 1, 7, 0, 0, 0, 0, 0], 1);
        d.initialize();
        let f = d.open_file(&pet(b"GEOSFILE")).unwrap();
        let c = kinds.iter().position(|x| *x == 0).unwrap_or(127);
        vx::check(f.record_count().unwrap() == c, "records up to the end mark");
        for i in 0..c {
            if kinds[i] == 3 {
                vx::check(err(f.record(i), DiskError::InvalidLocation), "an entry that leads nowhere is an error");
                continue;
            }
            let want: &[u8] = if kinds[i] == 1 { &a } else { &[] };
            vx::check(f.record(i).unwrap() == want, "record");
        }
        vx::check(err(f.record(c), DiskError::InvalidRecordIndex), "no record past the end");
        vx::reach(1);
    }

    /// params: kind, shape, last bytes, buffer size. The Convert stream.
    fn h_cvt() {
        let k = vx::param(0);
        let (vlir, sh) = shape(vx::param(1));
        let mut d = fresh(k);
        let g = put_geos(&mut *d, k, vlir, true, sh, vx::param(2) as usize);
        let before = snap(&*d, k);
        let f = d.open_file(&pet(b"GEOSFILE")).unwrap();
        let want = cvt(&g, vlir, g.owned.len());
        let mut r = geos_of(&f).reader().unwrap();
        let n = vx::param(3) as usize;
        let got = if n == 0 {
            let mut v = vec![];
            r.read_to_end(&mut v).unwrap();
            v
        } else {
            read_chunked(&mut r, n, want.len())
        };
        vx::check(got.len() == want.len(), "length of the Convert stream");
        vx::check(got == want, "directory entry, info block, index and records");
        let mut more = [0u8; 8];
        vx::check(r.read(&mut more).unwrap() == 0 && r.read(&mut more).unwrap() == 0, "the end is the end");
        vx::check(snap(&*d, k).data == before.data, "reading changes nothing");
        vx::reach(1);
    }

    /// params: kind, shape, last bytes. Any sequence of read sizes gives the same stream.
    fn h_cvt_split() {
        let k = vx::param(0);
        let (vlir, sh) = shape(vx::param(1));
        let mut d = fresh(k);
        let g = put_geos(&mut *d, k, vlir, true, sh, vx::param(2) as usize);
        let f = d.open_file(&pet(b"GEOSFILE")).unwrap();
        let want = cvt(&g, vlir, g.owned.len());
        let mut r = geos_of(&f).reader().unwrap();
        let cut = vx::u16("cut") as usize;
        vx::assume(cut <= want.len() + 1);
        let cut = vx::split(cut as u64) as usize;
        let mut b = vec![0u8; cut];
        let m = r.read(&mut b).unwrap();
        vx::check(m == cut.min(want.len()), "a read fills the buffer as far as there is data");
        let mut v = b[..m].to_vec();
        // an empty read changes nothing
        vx::check(r.read(&mut []).unwrap() == 0, "empty read");
        r.read_to_end(&mut v).unwrap();
        vx::check(v == want, "the same stream");
        vx::reach(1);
    }

    /// params: kind, shape. A record with more blocks than the index of the stream can tell.
    fn h_cvt_big() {
        let k = vx::param(0);
        let (vlir, sh) = shape(vx::param(1));
        let mut d = fresh(k);
        let g = put_geos(&mut *d, k, vlir, true, sh, 77);
        let before = snap(&*d, k);
        let f = d.open_file(&pet(b"GEOSFILE")).unwrap();
        vx::check(f.record_count().unwrap() == sh.len(), "records");
        vx::check(f.record(sh.len() - 1).unwrap() == g.records[sh.len() - 1], "the record itself can be read");
        let mut r = geos_of(&f).reader().unwrap();
        let mut v = vec![];
        vx::check(err(r.read_to_end(&mut v), DiskError::RecordTooLarge), "refused as too large");
        vx::check(snap(&*d, k).data == before.data, "reading changes nothing");
        vx::reach(1);
    }

    /// params: kind, vlir. No info block.
    fn h_cvt_noinfo() {
        let k = vx::param(0);
        let (vlir, sh) = shape(if vx::param(1) == 1 { 3 } else { 1 });
        let mut d = fresh(k);
        let _g = put_geos(&mut *d, k, vlir, false, sh, 10);
        let f = d.open_file(&pet(b"GEOSFILE")).unwrap();
        vx::check(err(geos_of(&f).reader().map(|_| ()), DiskError::GEOSInfoNotFound), "no Convert stream without info block");
        vx::reach(1);
    }

    /// params: kind, shape, info. Deleting a GEOS file.
    fn h_geos_delete() {
        let k = vx::param(0);
        let (vlir, sh) = shape(vx::param(1));
        let mut d = fresh(k);
        let by = bystander(&mut *d);
        let g = put_geos(&mut *d, k, vlir, vx::param(2) == 1, sh, 99);
        check_delete(&mut *d, k, b"GEOSFILE", 1, &g.owned, &by);
        vx::reach(1);
    }

    /// params: kind, blocks. Deleting a linear file with any flags.
    fn h_linear_delete() {
        let k = vx::param(0);
        let n = vx::param(1) as usize;
        let mut d = fresh(k);
        let by = bystander(&mut *d);
        let secs = scatter_free(&*d, k, 3, n);
        put_chain(&mut *d, &secs, 100, "data");
        alloc_raw(&mut *d, &secs);
        let a = vx::u8("type");
        vx::assume(a & 15 != 4 && a & 0x8F != 0);
        put_entry(&mut *d, k, 1, a, secs[0], b"FILE", [0; 9], n);
        d.initialize();
        check_delete(&mut *d, k, b"FILE", 1, &secs, &by);
        vx::reach(1);
    }

    /// Info block bytes.
    fn h_info() {
        let b = vx::any::<256>("info");
        let i = GEOSInfo::from_bytes(&b);
        check_info(&i, &b);
        let mut out = vx::any::<256>("out");
        let keep = [out[0], out[1], out[2], out[3], out[4]];
        i.to_bytes(&mut out);
        vx::check(out[..5] == keep, "bytes that are not part of the info are kept");
        vx::check(out[5..] == b[5..], "to_bytes is the inverse of reading");
        vx::reach(1);
    }

    /// params: kind. Border entries of a GEOS disk.
    fn h_border() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let (lt, dt) = (dos_tracks(k), dir_track(k));
        let place = [(dt + 1, 8), (dt + 1, 0), (lt, nsec(k, lt) - 1), (dt, nsec(k, dt) - 1), (lt, 0)][vx::pick("border", 5) as usize];
        let bl = make_geos(&mut *d, k, Some(place));
        let by = bystander(&mut *d);
        let a = vx::any::<3>("types");
        for i in 0..3 {
            let mut raw = [0u8; 30];
            raw[0] = a[i];
            raw[1] = 17;
            raw[2] = i as u8;
            raw[3..19].copy_from_slice(b"BORDER          ");
            raw[9] = b'0' + i as u8;
            poke(&mut *d, bl.0, bl.1, [0, 3, 7][i] * 32 + 2, &raw);
        }
        // unused slots of the block are free
        d.initialize();
        let l = d.directory().unwrap();
        let mut want = vec![];
        for i in 0..3 {
            if vx::split((a[i] & 0x8F != 0) as u64) == 1 {
                want.push(i);
            }
        }
        vx::check(l.len() == 1 + want.len(), "directory entries, then border entries");
        vx::check(l[0].filename.as_bytes() == b"BYSTANDER" && !l[0].is_geos_border(), "directory entry");
        for (e, i) in l[1..].iter().zip(&want) {
            let p = e.position.unwrap();
            vx::check(e.is_geos_border() && e.first_sector.1 as usize == *i && e.file_attributes.to_byte() == a[*i], "border entry");
            vx::check(p.location.0 == bl.0 && p.location.1 == bl.1 && p.offset as usize == [0, 3, 7][*i] * 32, "position in the border block");
        }
        vx::check(read_all(&d.open_file(&pet(b"BYSTANDER")).unwrap()) == by, "contents");
        // a border file can be renamed where it is
        if !want.is_empty() {
            let i = want[0];
            let old = l[1].filename.clone();
            let before = snap(&*d, k);
            vx::check(d.rename(&old, &pet(b"RENAMED")).is_ok(), "renamed");
            let after = snap(&*d, k);
            crate::ops::check_untouched(&before, &after, &[bl]);
            let mut w = before.sec(bl.0, bl.1).to_vec();
            w[[0, 3, 7][i] * 32 + 5..][..16].copy_from_slice(b"RENAMED\xA0\xA0\xA0\xA0\xA0\xA0\xA0\xA0\xA0");
            vx::check(after.sec(bl.0, bl.1) == &w[..], "only its name changes");
            vx::reach(2);
        }
        // free directory slots are not taken from the border
        let e = d.next_free_directory_entry().unwrap().position.unwrap();
        vx::check((e.location.0, e.location.1) == first_dir(k) && e.offset == 32, "new files go to the directory");
        vx::reach(1);
    }
}
fn check_info(i: &GEOSInfo, b: &[u8]) {
    let mut icon = [0u8; 63];
    i.icon.to_bytes(&mut icon);
    vx::check(icon == b[5..68], "icon");
    vx::check(i.file_attributes.to_byte() == b[0x44] && i.geos_file_type.to_byte() == b[0x45] && i.structure.to_byte() == b[0x46], "types");
    let w = |o: usize| b[o] as u16 | (b[o + 1] as u16) << 8;
    vx::check(i.program_load_address == w(0x47) && i.program_end_address == w(0x49) && i.program_start_address == w(0x4B), "addresses");
    let s = |x: &GEOSString, o: usize, n: usize| {
        let mut v = vec![0u8; n];
        x.to_bytes(&mut v);
        v[..] == b[o..o + n]
    };
    vx::check(s(&i.class, 0x4D, 20) && s(&i.author, 0x61, 20) && s(&i.application, 0x75, 20), "texts");
    vx::check(i.reserved == b[0x89..0xA0], "reserved");
    vx::check(s(&i.description, 0xA0, 96), "description");
}
