//! The consistency check.
use crate::chain::{alloc_raw, walk};
use crate::recs::*;
use crate::util::*;
use crate::vx;
use cbm::disk::directory::*;
use cbm::disk::*;

#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
struct Finding {
    code: u8,
    t: u8,
    s: u8,
    a: Vec<u8>,
    b: Vec<u8>,
}
fn fi(code: u8, l: (u8, u8), a: &[u8], b: &[u8]) -> Finding {
    Finding { code, t: l.0, s: l.1, a: a.to_vec(), b: b.to_vec() }
}
fn errcode(e: &DiskError) -> u8 {
    match e {
        DiskError::InvalidLocation => 1,
        DiskError::ChainLoop => 2,
        DiskError::InvalidChainLink => 3,
        DiskError::InvalidRelativeFile => 4,
        _ => 9,
    }
}
fn reported(v: &[ValidationError]) -> Vec<Finding> {
    let mut out = vec![];
    for e in v {
        out.push(match e {
            ValidationError::SystemSectorNotAllocated(l) => fi(1, (l.0, l.1), &[], &[]),
            ValidationError::SectorMisallocated(l) => fi(2, (l.0, l.1), &[], &[]),
            ValidationError::SectorMisoccupied(l, a) => fi(3, (l.0, l.1), a.as_bytes(), &[]),
            ValidationError::SectorOveroccupied(l, a, b) => fi(4, (l.0, l.1), a.as_bytes(), b.as_bytes()),
            ValidationError::FileScanError(e, a) => fi(5, (errcode(e), 0), a.as_bytes(), &[]),
            ValidationError::Unknown => fi(6, (0, 0), &[], &[]),
        });
    }
    out.sort();
    out
}
struct Owned {
    name: Vec<u8>,
    secs: Result<Vec<(u8, u8)>, DiskError>,
}
/// What must be reported, given the system's directory sectors and the files in directory order.
fn expected(s: &Snap, dir: &[(u8, u8)], files: &[Owned]) -> Vec<Finding> {
    let k = s.k;
    let sys: Vec<u8> = Petscii::from("CBM DOS").as_bytes().to_vec();
    let mut own: Vec<((u8, u8), Vec<u8>)> = vec![];
    let all = locations(k);
    for (t, c) in all.iter().filter(|l| l.0 <= dos_tracks(k)) {
        if is_system(k, *t, *c) || dir.contains(&(*t, *c)) {
            own.push(((*t, *c), sys.clone()));
        }
    }
    let mut out = vec![];
    for f in files {
        match &f.secs {
            Err(e) => out.push(fi(5, (errcode(e), 0), &f.name, &[])),
            Ok(v) => {
                let mut v = v.clone();
                v.sort();
                for l in v {
                    match own.iter().find(|o| o.0 == l) {
                        Some(o) => out.push(fi(4, l, &o.1.clone(), &f.name)),
                        None => own.push((l, f.name.clone())),
                    }
                }
            }
        }
    }
    for (t, c) in all {
        if t > dos_tracks(k) {
            continue;
        }
        let free = vx::split(s.free_bit(t, c) as u64) == 1;
        let owner = own.iter().find(|o| o.0 == (t, c)).map(|o| o.1.clone());
        if is_system(k, t, c) {
            if free {
                out.push(fi(1, (t, c), &[], &[]));
            }
        } else if let Some(o) = owner {
            if free {
                out.push(fi(3, (t, c), &o, &[]));
            }
        } else if !free {
            out.push(fi(2, (t, c), &[], &[]));
        }
    }
    out.sort();
    out
}
use cbm::Petscii;

/// Two linear files, one relative; returns the sector lists.
fn populate(d: &mut dyn Disk, k: u64, rel: bool) -> (Vec<(u8, u8)>, Vec<(u8, u8)>, Vec<(u8, u8)>) {
    let a = scatter(k, 3, 2);
    let b = scatter(k, 7, 1);
    put_chain(d, &a, 50, "a");
    put_chain(d, &b, 9, "b");
    put_entry(d, k, 0, 0x82, a[0], b"FILEA", [0; 9], 2);
    put_entry(d, k, 2, 0xC1, b[0], b"FILEB", [0; 9], 1);
    alloc_raw(d, &a);
    alloc_raw(d, &b);
    let mut r = vec![];
    if rel {
        let c = scatter(k, 11, 3);
        put_chain(d, &c[..2], 254, "c");
        put_side(d, &c[2..], &c[..2], 127);
        put_entry(d, k, 3, 0x84, c[0], b"FILEC", [c[2].0, c[2].1, 127, 0, 0, 0, 0, 0, 0], 3);
        alloc_raw(d, &c);
        r = c;
    }
    d.initialize();
    (a, b, r)
}
fn compare(d: &mut dyn Disk, k: u64, dir: &[(u8, u8)], files: &[Owned]) -> usize {
    let before = snap(d, k);
    let want = expected(&before, dir, files);
    let got = match d.validate() {
        Ok(v) => reported(&v),
        Err(_) => {
            vx::check(false, "validation completes");
            return 0;
        }
    };
    vx::note("expected", want.len() as u64);
    vx::note("reported", got.len() as u64);
    vx::check(got == want, "exactly the inconsistencies of the disk are reported");
    vx::check(snap(d, k).data == before.data, "validation is read-only");
    want.len()
}

harnesses! {
    /// params: kind, candidate set, GEOS. Arbitrary allocation bits of six sectors.
    fn h_validate() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let geos = vx::param(2) == 1;
        let mut dir = vec![first_dir(k)];
        if geos {
            dir.push(make_geos(&mut *d, k, None));
        }
        let (a, b, c) = populate(&mut *d, k, true);
        let lt = dos_tracks(k);
        let dt = dir_track(k);
        let last = (lt, nsec(k, lt) - 1);
        let cand: Vec<(u8, u8)> = match vx::param(1) {
            0 => vec![header_at(k), first_dir(k), a[0], a[1], (1, 0), last],
            1 => vec![b[0], c[0], c[1], c[2], (dt, nsec(k, dt) - 1), (dt + 1, 0)],
            2 => vec![bam_sectors(k)[bam_sectors(k).len() - 1], (dt, 5), (1, nsec(k, 1) - 1), (lt, 0), a[0], c[2]],
            _ => vec![dir[dir.len() - 1], (dt - 1, 0), (17, 20.min(nsec(k, 17) - 1)), (31, 16), (2, 8), (2, 7)],
        };
        let mut done: Vec<(u8, u8)> = vec![];
        for l in cand {
            if done.contains(&l) {
                continue;
            }
            done.push(l);
            let (bl, o) = bitmap_at(k, l.0);
            let x = vx::u8("bit") & 1;
            let cur = rd(&*d, bl.0, bl.1)[o + l.1 as usize / 8];
            poke(&mut *d, bl.0, bl.1, o + l.1 as usize / 8, &[cur & !(1 << (l.1 % 8)) | x << (l.1 % 8)]);
        }
        d.initialize();
        let files = [
            Owned { name: b"FILEA".to_vec(), secs: Ok(a.clone()) },
            Owned { name: b"FILEB".to_vec(), secs: Ok(b.clone()) },
            Owned { name: b"FILEC".to_vec(), secs: Ok(c.clone()) },
        ];
        let n = compare(&mut *d, k, &dir, &files);
        if n == 0 {
            vx::reach(2);
        }
        vx::reach(1);
    }

    /// params: kind, GEOS. A file that shares sectors with another, the directory or the system, or is damaged.
    fn h_validate_cross() {
        let k = vx::param(0);
        let geos = vx::param(1) == 1;
        let mut d = fresh(k);
        let mut dir = vec![first_dir(k)];
        if geos {
            dir.push(make_geos(&mut *d, k, None));
        }
        let (a, b, c) = populate(&mut *d, k, true);
        let mut bx = vec![0u8; 256];
        vx::bytes(&mut bx, "b");
        let bad = (1, nsec(k, 1));
        let n1 = [a[0], a[1], b[0], c[0], c[2], dir[dir.len() - 1], first_dir(k), bad, (0, 0), (0, 200)];
        let first = [b[0], a[0], a[1], c[2], dir[dir.len() - 1], (0, 5), (lt_of(k) + 1, 0), header_at(k)][vx::pick("first", 8) as usize];
        let next = n1[vx::pick("next", 10) as usize];
        bx[0] = next.0;
        bx[1] = next.1;
        wr(&mut *d, b[0].0, b[0].1, &bx);
        let f = first_dir(k);
        poke(&mut *d, f.0, f.1, 2 * 32 + 3, &[first.0, first.1]);
        // names need not be unique
        let name = [&b"FILEB"[..], b"FILEA", b"FILEC"][vx::pick("name", 3) as usize];
        poke(&mut *d, f.0, f.1, 2 * 32 + 5, name);
        // the header of a GEOS or CBM disk is no chain: give it a defined link
        d.initialize();
        let s = snap(&*d, k);
        let w = walk(&s, first.0, first.1);
        let files = [
            Owned { name: b"FILEA".to_vec(), secs: Ok(a.clone()) },
            Owned { name: name.to_vec(), secs: match w.err { Some(e) => Err(e), None => Ok(w.sectors.clone()) } },
            Owned { name: b"FILEC".to_vec(), secs: Ok(c.clone()) },
        ];
        compare(&mut *d, k, &dir, &files);
        vx::reach(1);
    }

    /// params: kind, first track, last track. A file on any track, perhaps claimed twice; the whole track marked used or free.
    fn h_validate_track() {
        let k = vx::param(0);
        let lo = vx::param(1);
        let mut d = fresh(k);
        let t = (lo + vx::pick("track", vx::param(2) - lo + 1)) as u8;
        let n = nsec(k, t);
        let l = (t, [0, n - 1, n / 2][vx::pick("sector", 3) as usize]);
        let (f, d2) = (first_dir(k), (dir_track(k), 7u8));
        let dir = [f, d2];
        let a = scatter(k, 3, 1);
        put_chain(&mut *d, &a, 50, "a");
        put_entry(&mut *d, k, 0, 0x82, a[0], b"FILEA", [0; 9], 1);
        alloc_raw(&mut *d, &[a[0], d2]);
        poke(&mut *d, f.0, f.1, 0, &[d2.0, d2.1]);
        wr(&mut *d, d2.0, d2.1, &{
            let mut b = vec![0u8; 256];
            b[1] = 0xFF;
            b
        });
        let mut files = vec![Owned { name: b"FILEA".to_vec(), secs: Ok(a.clone()) }];
        if !is_system(k, l.0, l.1) && !dir.contains(&l) && l != a[0] {
            put_chain(&mut *d, &[l], 254, "x");
            let twice = vx::pick("twice", 2) == 1;
            for (i, (ty, n)) in [(0u8, b"OLD"), (0x81, b"ONE"), (0x82, b"TWO")].into_iter().enumerate() {
                if i == 2 && !twice {
                    continue;
                }
                let mut raw = [0u8; 30];
                raw[0] = ty;
                raw[1] = l.0;
                raw[2] = l.1;
                raw[3..6].copy_from_slice(n);
                raw[6..19].fill(0xA0);
                raw[28] = 1;
                poke(&mut *d, d2.0, d2.1, 32 * (3 * i + 1) + 2, &raw);
                if ty != 0 {
                    files.push(Owned { name: n.to_vec(), secs: Ok(vec![l]) });
                }
            }
        }
        let x = vx::u8("bit") & 1;
        let (bs, o) = bitmap_at(k, t);
        let mut m = vec![0u8; (n as usize + 7) / 8];
        for c in 0..n as usize {
            m[c / 8] |= x << (c % 8);
        }
        poke(&mut *d, bs.0, bs.1, o, &m);
        d.initialize();
        compare(&mut *d, k, &dir, &files);
        vx::reach(1);
    }

    /// params: kind, GEOS kind of file. GEOS files in the directory and on the border.
    fn h_validate_geos() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let (lt, dt) = (dos_tracks(k), dir_track(k));
        let place = [(dt + 1, 8), (dt + 1, 0), (lt, nsec(k, lt) - 1), (dt, nsec(k, dt) - 1), (lt, 0)][vx::pick("border", 5) as usize];
        let bl = make_geos(&mut *d, k, Some(place));
        let dir = [first_dir(k), bl];
        let (vlir, sh) = shape(vx::param(1));
        let g = put_geos(&mut *d, k, vlir, true, sh, 60);
        // a border file
        let m = scatter(k, 40, 2);
        vx::assume(!g.owned.contains(&bl) && !m.contains(&bl));
        put_chain(&mut *d, &m, 20, "m");
        alloc_raw(&mut *d, &m);
        let mut raw = [0u8; 30];
        raw[0] = 0x82;
        raw[1] = m[0].0;
        raw[2] = m[0].1;
        raw[3..19].copy_from_slice(b"BORDERFILE\xA0\xA0\xA0\xA0\xA0\xA0");
        poke(&mut *d, bl.0, bl.1, 34, &raw);
        let cand = [g.owned[0], g.owned[g.owned.len() - 1], m[1], bl];
        for (i, l) in cand.iter().enumerate() {
            if cand[..i].contains(l) {
                continue;
            }
            let (bs, o) = bitmap_at(k, l.0);
            let x = vx::u8("bit") & 1;
            let cur = rd(&*d, bs.0, bs.1)[o + l.1 as usize / 8];
            poke(&mut *d, bs.0, bs.1, o + l.1 as usize / 8, &[cur & !(1 << (l.1 % 8)) | x << (l.1 % 8)]);
        }
        d.initialize();
        let files = [
            Owned { name: b"GEOSFILE".to_vec(), secs: Ok(g.owned.clone()) },
            Owned { name: b"BORDERFILE".to_vec(), secs: Ok(m.clone()) },
        ];
        compare(&mut *d, k, &dir, &files);
        vx::reach(1);
    }

    /// params: kind. Free counts do not matter, and a file on a track beyond the allocation map is no error.
    fn h_validate_extra() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let (a, b, c) = populate(&mut *d, k, true);
        let t = 1 + vx::pick("track", 3) as u8;
        let (bs, o) = count_at(k, t);
        let x = vx::u8("count");
        poke(&mut *d, bs.0, bs.1, o, &[x]);
        let mut fb = b.clone();
        if k == D64_40K {
            let n = [(36u8, 0u8), (40, 16)][vx::pick("beyond", 2) as usize];
            poke(&mut *d, b[0].0, b[0].1, 0, &[n.0, n.1]);
            poke(&mut *d, n.0, n.1, 0, &[0, 9]);
            fb.push(n);
        }
        d.initialize();
        let files = [
            Owned { name: b"FILEA".to_vec(), secs: Ok(a.clone()) },
            Owned { name: b"FILEB".to_vec(), secs: Ok(fb) },
            Owned { name: b"FILEC".to_vec(), secs: Ok(c.clone()) },
        ];
        compare(&mut *d, k, &[first_dir(k)], &files);
        vx::reach(1);
    }

    /// params: kind. Unformatted disks cannot be validated.
    fn h_validate_unformatted() {
        let mut d = fresh(D71K);
        poke(&mut *d, 18, 0, 3, &[0]);
        d.initialize();
        vx::check(matches!(d.validate(), Err(ref e) if is(e, DiskError::Unformatted)), "unformatted");
        vx::reach(1);
    }
}
fn lt_of(k: u64) -> u8 {
    tracks(k)
}
