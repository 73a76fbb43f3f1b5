//! Sector chains: any links, well-formed or not.
use crate::loc;
use crate::util::*;
use crate::vx;
use cbm::disk::directory::*;
use cbm::disk::file::*;
use cbm::disk::*;
use std::io::{Read, Write};

/// What a chain says when followed by hand.
pub struct Walk {
    pub sectors: Vec<(u8, u8)>,
    pub data: Vec<u8>,
    pub err: Option<DiskError>,
}
pub fn walk(s: &Snap, t: u8, c: u8) -> Walk {
    let mut w = Walk { sectors: vec![], data: vec![], err: None };
    let (mut t, mut c) = (t, c);
    loop {
        if t == 0 || t > tracks(s.k) || c >= nsec(s.k, vx::split(t as u64) as u8) {
            w.err = Some(DiskError::InvalidLocation);
            return w;
        }
        if w.sectors.contains(&(t, c)) {
            w.err = Some(DiskError::ChainLoop);
            return w;
        }
        let b = s.sec(t, c);
        if b[0] == 0 {
            if b[1] == 0 {
                w.err = Some(DiskError::InvalidChainLink);
                return w;
            }
            w.sectors.push((t, c));
            w.data.extend_from_slice(&b[2..vx::split(b[1] as u64) as usize + 1]);
            return w;
        }
        w.sectors.push((t, c));
        w.data.extend_from_slice(&b[2..]);
        t = b[0];
        c = b[1];
    }
}
pub fn same_err(r: &std::io::Error, e: DiskError) -> bool {
    is(r, e)
}
/// Put a linear file into slot 0 of the directory by hand.
pub fn raw_file(d: &mut dyn Disk, k: u64, slot: usize, name: &[u8], t: u8, s: u8, blocks: u16) {
    let f = first_dir(k);
    let mut raw = [0u8; 30];
    raw[0] = 0x82;
    raw[1] = t;
    raw[2] = s;
    for j in 0..16 {
        raw[3 + j] = if j < name.len() { name[j] } else { 0xA0 };
    }
    raw[28] = blocks as u8;
    raw[29] = (blocks >> 8) as u8;
    poke(d, f.0, f.1, slot * 32 + 2, &raw);
}
pub fn alloc_raw(d: &mut dyn Disk, secs: &[(u8, u8)]) {
    let bam = d.bam().unwrap();
    for x in secs {
        let l = loc!(d, x.0, x.1);
        bam.borrow_mut().allocate(l).unwrap();
    }
    bam.borrow_mut().flush().unwrap();
}
/// Reader, record, sector list, writer and delete agree with the walk.
fn compare(d: &mut dyn Disk, k: u64, t: u8, c: u8, alloc: &[(u8, u8)]) {
    let before = snap(d, k);
    let w = walk(&before, t, c);
    vx::note("sectors", w.sectors.len() as u64);
    vx::note("bytes", w.data.len() as u64);
    let mut f = d.open_file(&pet(b"CHAIN")).unwrap();
    // reading, in pieces: all data up to the defect, then the error, then the end
    for n in [100usize, 2000] {
        let mut r = f.reader().unwrap();
        let mut got = vec![];
        let mut b = vec![0u8; n];
        let mut err = None;
        for _ in 0..3 + w.data.len() / n.min(100) {
            match r.read(&mut b) {
                Ok(0) => break,
                Ok(m) => got.extend_from_slice(&b[..m]),
                Err(e) => {
                    err = Some(e);
                    break;
                }
            }
        }
        vx::check(got.len() == w.data.len() && got == w.data, "the data of the chain, up to its end or defect");
        match (&err, w.err.clone()) {
            (None, None) => {}
            (Some(e), Some(x)) => vx::check(same_err(e, x), "the defect is reported as such"),
            _ => vx::check(false, "an error exactly for a defective chain"),
        }
    }
    match (f.record(0), w.err.clone()) {
        (Ok(v), None) => vx::check(v == w.data, "record"),
        (Err(e), Some(x)) => vx::check(same_err(&e, x), "record error"),
        _ => vx::check(false, "record fails exactly for a defective chain"),
    }
    match (f.occupied_sectors(), w.err.clone()) {
        (Ok(v), None) => {
            let mut x = w.sectors.clone();
            x.sort();
            vx::check(v.len() == x.len() && v.iter().zip(&x).all(|(a, b)| a.0 == b.0 && a.1 == b.1), "occupied sectors are the sectors of the chain");
        }
        (Err(e), Some(x)) => vx::check(same_err(&e, x), "occupied sectors error"),
        _ => vx::check(false, "occupied sectors fails exactly for a defective chain"),
    }
    // a writer can be opened exactly if the chain is sound
    match (f.writer(), w.err.clone()) {
        (Ok(mut x), None) => {
            if vx::param(2) == 1 {
                vx::check(x.write_all(b"z").is_ok(), "append");
                drop(x);
                let now = walk(&snap(d, k), t, c);
                vx::check(now.err.is_none() && now.data.len() == w.data.len() + 1 && now.data[..w.data.len()] == w.data[..] && now.data[w.data.len()] == b'z', "append adds at the end");
                return;
            }
        }
        (Err(e), Some(x)) => vx::check(same_err(&e, x), "writer error"),
        _ => vx::check(false, "a writer opens exactly for a sound chain"),
    }
    let mid = snap(d, k);
    vx::check(mid.data == before.data, "nothing was written");
    let free = d.blocks_free().unwrap();
    match (f.delete(), w.err.clone()) {
        (Ok(()), None) => {
            let after = snap(d, k);
            let mut ok = true;
            for l in alloc {
                ok &= after.free_bit(l.0, l.1) == w.sectors.contains(l);
            }
            vx::check(ok, "delete frees the sectors of the chain and no others");
            vx::check(d.directory().unwrap().is_empty(), "deleted");
            vx::reach(1);
        }
        (Err(e), Some(x)) => {
            vx::check(same_err(&e, x), "delete error");
            vx::check(snap(d, k).data == before.data, "a refused delete changes nothing");
            vx::check(d.blocks_free().unwrap() == free, "a refused delete frees nothing");
            vx::reach(2);
        }
        _ => vx::check(false, "delete fails exactly for a defective chain"),
    }
}

harnesses! {
    /// params: kind, sectors (2..4), append. Each sector links to any of them, ends, or is defective.
    fn h_chain() {
        let k = vx::param(0);
        let n = vx::param(1) as usize;
        let mut d = fresh(k);
        let all = [(17u8, 0u8), (17, 10), (1, 3), (30, 16)];
        let c = &all[..n];
        for (i, l) in c.iter().enumerate() {
            let mut b = vec![0u8; 256];
            vx::bytes(&mut b, ["s0", "s1", "s2", "s3"][i]);
            let ch = vx::pick(["l0", "l1", "l2", "l3"][i], n as u64 + 5) as usize;
            let link = match ch {
                x if x < n => [c[x].0, c[x].1],
                x if x == n => [0, 0],
                x if x == n + 1 => [0, 1],
                x if x == n + 2 => [0, 255],
                x if x == n + 3 => [0, 77],
                _ => [1, nsec(k, 1)],
            };
            b[..2].copy_from_slice(&link);
            wr(&mut *d, l.0, l.1, &b);
        }
        alloc_raw(&mut *d, &all);
        raw_file(&mut *d, k, 0, b"CHAIN", c[0].0, c[0].1, n as u16);
        d.initialize();
        compare(&mut *d, k, c[0].0, c[0].1, &all);
    }

    /// params: kind, 0, append, track range lo, hi. Any first-sector link bytes at all.
    fn h_link() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let c = (17u8, 4u8);
        let mut b = vec![0u8; 256];
        vx::bytes(&mut b, "sector");
        let (lo, hi) = (vx::param(3) as u8, vx::param(4) as u8);
        vx::assume(b[0] >= lo && b[0] <= hi);
        if lo <= tracks(k) {
            b[0] = vx::split(b[0] as u64) as u8;
            if vx::split((b[0] == 0 || b[1] < nsec(k, b[0])) as u64) == 1 {
                b[1] = vx::split(b[1] as u64) as u8;
            }
        }
        wr(&mut *d, c.0, c.1, &b);
        // every other sector ends a chain
        for t in lo.max(1)..=hi.min(tracks(k)) {
            for s in 0..nsec(k, t) {
                if (t, s) != c && !is_system(k, t, s) {
                    poke(&mut *d, t, s, 0, &[0, 9, t, s]);
                }
            }
        }
        alloc_raw(&mut *d, &[c]);
        raw_file(&mut *d, k, 0, b"CHAIN", c.0, c.1, 1);
        d.initialize();
        let before = snap(&*d, k);
        let w = walk(&before, c.0, c.1);
        vx::note("bytes", w.data.len() as u64);
        let f = d.open_file(&pet(b"CHAIN")).unwrap();
        let mut got = vec![];
        let r = f.reader().unwrap().read_to_end(&mut got);
        vx::check(got == w.data, "data");
        match (r, w.err.clone()) {
            (Ok(_), None) => vx::reach(1),
            (Err(e), Some(x)) => {
                vx::check(same_err(&e, x), "error");
                vx::reach(2)
            }
            _ => vx::check(false, "fails exactly for a defective chain"),
        }
        vx::check(f.occupied_sectors().is_ok() == w.err.is_none(), "occupied sectors");
        vx::check(f.writer().is_ok() == w.err.is_none(), "writer");
    }

    /// params: kind, blocks. A long chain closed into a loop at an arbitrary block, or not.
    fn h_long_loop() {
        let k = vx::param(0);
        let n = vx::param(1) as usize;
        let mut d = fresh(k);
        let secs: Vec<(u8, u8)> = locations(k).into_iter().filter(|l| l.0 != dir_track(k) && !is_system(k, l.0, l.1)).take(n).collect();
        for i in 0..n {
            let (t, s) = secs[i];
            if i + 1 < n {
                poke(&mut *d, t, s, 0, &[secs[i + 1].0, secs[i + 1].1]);
            } else {
                let back = vx::u16("back") as usize;
                vx::assume(back < n);
                let j = vx::split(back as u64) as usize;
                poke(&mut *d, t, s, 0, &[secs[j].0, secs[j].1]);
            }
        }
        raw_file(&mut *d, k, 0, b"CHAIN", secs[0].0, secs[0].1, n as u16);
        let mut f = d.open_file(&pet(b"CHAIN")).unwrap();
        let mut got = vec![];
        let r = f.reader().unwrap().read_to_end(&mut got);
        vx::check(matches!(r, Err(ref e) if is(e, DiskError::ChainLoop)), "loop reported");
        vx::check(got.len() == n * 254, "every block once");
        vx::check(matches!(f.occupied_sectors(), Err(ref e) if is(e, DiskError::ChainLoop)), "loop reported");
        vx::check(matches!(f.writer().map(|_| ()), Err(ref e) if is(e, DiskError::ChainLoop)), "loop reported");
        vx::check(matches!(f.delete(), Err(ref e) if is(e, DiskError::ChainLoop)), "loop reported");
        vx::check(f.details(&mut vec![], 1).is_err(), "loop reported");
        vx::reach(1);
    }

    /// params: kind, sectors (1..3). The directory chain has any links.
    fn h_dir_chain() {
        let k = vx::param(0);
        let n = vx::param(1) as usize;
        let mut d = fresh(k);
        let f = first_dir(k);
        let all = [f, (f.0, f.1 + 3), (f.0, f.1 + 6)];
        let c = &all[..n];
        alloc_raw(&mut *d, c);
        for (i, l) in c.iter().enumerate() {
            let mut b = vec![0u8; 256];
            for j in 0..8 {
                b[j * 32 + 2] = 0x82;
                b[j * 32 + 3] = 1 + i as u8;
                b[j * 32 + 4] = j as u8;
                for x in 0..16 {
                    b[j * 32 + 5 + x] = if x == 0 { vx::u8("name") } else if x < 4 { b'N' } else { 0xA0 };
                }
            }
            let ch = vx::pick(["l0", "l1", "l2"][i], n as u64 + 4) as usize;
            let link = match ch {
                x if x < n => [c[x].0, c[x].1],
                x if x == n => [0, 0],
                x if x == n + 1 => [0, 255],
                x if x == n + 2 => [0, 100],
                _ => [99, 1],
            };
            b[..2].copy_from_slice(&link);
            wr(&mut *d, l.0, l.1, &b);
        }
        d.initialize();
        let before = snap(&*d, k);
        let w = walk(&before, f.0, f.1);
        // listing: every whole entry of every sector, then the error if any
        let mut count = 0;
        let mut err = None;
        for e in d.iter() {
            match e {
                Ok(e) => {
                    vx::check(err.is_none(), "nothing is listed after the defect");
                    let i = count / 8;
                    vx::check(i < w.sectors.len(), "entries come from the chain");
                    let ix = c.iter().position(|x| *x == w.sectors[i]).unwrap();
                    vx::check(e.first_sector.0 as usize == 1 + ix && e.first_sector.1 as usize == count % 8, "in chain order");
                    count += 1;
                }
                Err(e) => {
                    vx::check(err.is_none(), "one error");
                    err = Some(e);
                }
            }
            vx::check(count <= 8 * n, "listing ends");
        }
        match (&err, w.err.clone()) {
            (None, None) => {
                let full = w.sectors.len() - 1;
                let l = w.sectors[full];
                vx::check(count == 8 * full + (before.sec(l.0, l.1)[1] as usize + 1) / 32, "every whole entry is listed");
                vx::check(d.directory().unwrap().len() == count, "directory");
                vx::reach(1);
            }
            (Some(e), Some(x)) => {
                vx::check(same_err(e, x), "the defect is reported as such");
                vx::check(count == 8 * w.sectors.len(), "every entry before the defect is listed");
                vx::check(d.directory().is_err(), "directory reports the defect");
                vx::check(d.next_free_directory_entry().is_err(), "no slot in a defective directory");
                vx::check(d.validate().is_err(), "validate reports the defect");
                vx::check(snap(&*d, k).data == before.data, "nothing written");
                vx::reach(2);
            }
            _ => vx::check(false, "an error exactly for a defective directory"),
        }
    }
}
