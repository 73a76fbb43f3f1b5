//! Block allocation and the block availability map.
use crate::loc;
use crate::util::*;
use crate::vx;

/// Directory interleave / data interleave of the published formats.
fn interleave(k: u64, t: u8) -> u8 {
    match (k, t == dir_track(k)) {
        (D81K, _) => 1,
        (_, true) => 3,
        (D71K, false) => 6,
        (_, false) => 10,
    }
}
/// Order in which DOS looks at tracks: (track, sector restarts at 0).
fn track_order(k: u64, geos: bool, prev: Option<u8>) -> Vec<(u8, bool)> {
    let (dir, last) = (dir_track(k), dos_tracks(k));
    let usable = |t: u8| t != dir && !(k == D71K && t == 53);
    let mut v = vec![];
    match (prev, geos) {
        (None, false) => {
            for d in 1..last {
                if d < dir {
                    v.push((dir - d, true));
                }
                if dir + d <= last && usable(dir + d) {
                    v.push((dir + d, true));
                }
            }
        }
        (Some(p), _) if p == dir => v.push((dir, false)),
        (_, true) => {
            let p = prev.unwrap_or(1);
            for t in p..=last {
                if usable(t) {
                    v.push((t, false));
                }
            }
            for t in 1..=last {
                if usable(t) {
                    v.push((t, true));
                }
            }
        }
        (Some(p), false) => {
            let low = |v: &mut Vec<(u8, bool)>, from: u8, r: bool| {
                for t in (1..=from).rev() {
                    v.push((t, r));
                }
            };
            let high = |v: &mut Vec<(u8, bool)>, from: u8, r: bool| {
                for t in from..=last {
                    if usable(t) {
                        v.push((t, r));
                    }
                }
            };
            if p < dir {
                low(&mut v, p, false);
                high(&mut v, dir + 1, true);
                low(&mut v, dir - 1, true);
            } else {
                high(&mut v, p, false);
                low(&mut v, dir - 1, true);
                high(&mut v, dir + 1, true);
            }
        }
    }
    v
}
fn load(m: &[u8]) -> u64 {
    let mut x = 0u64;
    for i in 0..m.len() {
        x |= (m[i] as u64) << (8 * i);
    }
    x
}
fn popcount(m: u64) -> u8 {
    let mut c = 0u8;
    for i in 0..40 {
        if m & (1u64 << i) != 0 {
            c += 1;
        }
    }
    c
}

harnesses! {
    /// params: kind, geos, previous track (0: first block of a file), sector (255: any), tracks to leave arbitrary (0: all)
    /// Block selection for an arbitrary allocation map.
    fn h_alloc_next() {
        let k = vx::param(0);
        let geos = vx::param(1) == 1;
        let pt = vx::param(2) as u8;
        let mut d = fresh(k);
        if geos {
            make_geos(&mut *d, k, None);
        }
        let n = bitmap_size(k);
        let order = track_order(k, geos, if pt == 0 { None } else { Some(pt) });
        let win = vx::param(4) as usize;
        let arbitrary = |t: u8| {
            let i = order.iter().position(|x| x.0 == t);
            let j = order.iter().rposition(|x| x.0 == t);
            win == 0 || i.map_or(false, |i| i < win || (i > 0 && order[i].1 && !order[i - 1].1)) || j.map_or(false, |j| j + win / 2 >= order.len())
        };
        // arbitrary map: free counts are zero exactly where the bitmap is empty
        let last = dos_tracks(k);
        let mut maps = vec![0u64; last as usize + 1];
        {
            let bam = d.bam().unwrap();
            let mut bam = bam.borrow_mut();
            for t in 1..=last {
                let mut m = [0u8; 5];
                // the second directory track of a 1571 disk is never used, whatever the map says
                let arbitrary = |t: u8| arbitrary(t) || (k == D71K && t == 53 && pt != 53);
                if arbitrary(t) {
                    vx::bytes(&mut m[..n], "map");
                }
                let x = load(&m) & ((1u64 << nsec(k, t)) - 1);
                let c = if arbitrary(t) { vx::u8("count") } else { 0 };
                vx::assume((c == 0) == (x == 0));
                maps[t as usize] = x;
                let e = bam.entry_mut(t).unwrap();
                e.free_sectors = c;
                e.sector_map = x;
            }
        }
        let ps = if pt == 0 {
            0
        } else {
            let s = vx::u8("sector");
            vx::assume(s < nsec(k, pt));
            if vx::param(3) != 255 {
                vx::assume(s as u64 == vx::param(3));
            }
            vx::split_u8(s)
        };
        let prev = if pt == 0 { None } else { Some(loc!(d, pt, ps)) };
        let r = d.bam().unwrap().borrow().next_free_block(prev);
        match r {
            Err(e) => {
                vx::check(is(&e, cbm::disk::DiskError::DiskFull), "only a full disk is an error");
                let mut any = 0u64;
                for (t, _) in &order {
                    any |= maps[*t as usize];
                }
                vx::check(any == 0, "disk full only when nothing is free");
                vx::reach(2);
            }
            Ok(l) => {
                let t = vx::split_u8(l.0);
                let s = l.1;
                let i = order.iter().position(|x| x.0 == t);
                vx::check(i.is_some(), "track usable for this kind of block");
                let i = i.unwrap();
                let ns = nsec(k, t);
                vx::check(s < ns, "sector exists");
                let s = s as u64;
                vx::check(maps[t as usize] >> s & 1 == 1, "sector is free");
                let mut any = 0u64;
                for (x, _) in &order[..i] {
                    any |= maps[*x as usize];
                }
                vx::check(any == 0, "no closer track has room");
                // where on the track the search starts
                let same = pt != 0 && t == pt;
                let mut st: u64 = if pt == 0 && !geos {
                    0
                } else if order[i].1 {
                    0
                } else if !geos || same || (pt == 0 && t == 1) {
                    let g = if geos && t >= 25 { 1 } else { 0 };
                    ps as u64 + interleave(k, t) as u64 - g
                } else {
                    let p = if pt == 0 { 1 } else { pt };
                    ((t - p) as u64) * 2 + 4 + interleave(k, t) as u64
                };
                let ns = ns as u64;
                while st >= ns {
                    st -= ns;
                    if st > 0 && !geos {
                        st -= 1;
                    }
                }
                let mut nearer = 0u64;
                let ds = if s >= st { s - st } else { s + ns - st };
                for j in 0..ns {
                    let b = maps[t as usize] >> j & 1;
                    // distance of j from the start, without branching
                    let w = (j < st) as u64 * ns;
                    nearer |= b & ((j + w - st < ds) as u64);
                }
                vx::check(nearer == 0, "first free sector from the interleaved start");
                vx::reach(1);
            }
        }
    }

    /// params: kind, first and last track with arbitrary entries. Arbitrary BAM bytes on the disk: decoding, and writing back leaves every byte as it was.
    fn h_bam_codec() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let n = bitmap_size(k);
        for t in 1..=dos_tracks(k) {
            let (mut m, mut c) = ([t, !t, t ^ 0x5A, 0, 255], t ^ 3);
            if t as u64 >= vx::param(1) && t as u64 <= vx::param(2) {
                m = vx::any::<5>("map");
                c = vx::u8("count");
            }
            set_bam_raw(&mut *d, k, t, c, &m[..n]);
        }
        // bytes of the BAM sectors that are not BAM
        for (t, s) in bam_sectors(k) {
            let mut v = rd(&*d, t, s);
            for i in 0..256 {
                if !bam_byte(k, t, s, i) && !(k != D81K && s == 0 && t == 18 && i < 4) {
                    v[i] = vx::u8("other");
                }
            }
            wr(&mut *d, t, s, &v);
        }
        if k != D81K {
            // keep the header recognisable as a plain CBM disk
            let v = rd(&*d, 18, 0);
            vx::assume(v[0xAD] != b'G');
        }
        let before = snap(&*d, k);
        d.initialize();
        let bam = d.bam().unwrap();
        let mut free = 0usize;
        for t in 1..=dos_tracks(k) {
            let e = *bam.borrow().entry(t).unwrap();
            let (b, o) = bitmap_at(k, t);
            vx::check(e.sector_map() == load(&before.sec(b.0, b.1)[o..o + n]), "bitmap decoded");
            vx::check(e.free_sectors == before.free_count(t), "free count decoded");
            if t != dir_track(k) {
                free += before.free_count(t) as usize;
            }
        }
        vx::check(d.blocks_free().unwrap() == free, "blocks free is the sum of the counts");
        bam.borrow_mut().flush().unwrap();
        let after = snap(&*d, k);
        vx::check(before.data == after.data, "writing the BAM back changes nothing");
        vx::reach(1);
    }

    /// params: kind, track, first arbitrary bit, other bits. Allocating and freeing one or two sectors (param 4) of one of several tracks (param 5 more); param 6: arbitrary bits, 24 if 0.
    fn h_bam_change() {
        let k = vx::param(0);
        let t = vx::param(1) as u8 + vx::pick("track", vx::param(5) + 1) as u8;
        let mut d = fresh(k);
        let n = bitmap_size(k);
        let m = vx::any::<5>("map");
        let w = (if vx::param(6) == 0 { 0xFF_FFFFu64 } else { (1 << vx::param(6)) - 1 }) << vx::param(2);
        let x = load(&m[..n]) & w | if vx::param(3) == 1 { !w } else { 0 };
        let x = x & ((1u64 << nsec(k, t)) - 1);
        let mut mm = [0u8; 5];
        for i in 0..5 {
            mm[i] = (x >> (8 * i)) as u8;
        }
        set_bam_raw(&mut *d, k, t, popcount(x), &mm[..n]);
        d.initialize();
        let before = snap(&*d, k);
        let bam = d.bam().unwrap();
        let mut want = x;
        for i in 0..vx::param(4) {
            let s = vx::u8(["sector", "sector2"][i as usize]);
            vx::assume(s < nsec(k, t));
            let l = loc!(d, t, s);
            if vx::pick(["op", "op2"][i as usize], 2) == 0 {
                bam.borrow_mut().allocate(l).unwrap();
                want &= !(1u64 << s);
            } else {
                bam.borrow_mut().free(l).unwrap();
                want |= 1u64 << s;
            }
        }
        bam.borrow_mut().flush().unwrap();
        let e = *bam.borrow().entry(t).unwrap();
        vx::check(e.sector_map() == want, "exactly that bit changes");
        vx::check(e.free_sectors == popcount(want), "the free count is the number of free bits");
        vx::check(e.has_availability() == (want != 0), "availability follows the map");
        let after = snap(&*d, k);
        let (b, o) = bitmap_at(k, t);
        let (cb, co) = count_at(k, t);
        let mut same = true;
        for (tt, ss) in bam_sectors(k) {
            for i in 0..256 {
                let (p, q) = (before.sec(tt, ss)[i], after.sec(tt, ss)[i]);
                if (tt, ss) == b && i >= o && i < o + n {
                    vx::check(q == (want >> (8 * (i - o))) as u8, "bitmap on disk");
                } else if (tt, ss) == cb && i == co {
                    vx::check(q == popcount(want), "free count on disk");
                } else {
                    same &= p == q;
                }
            }
        }
        vx::check(same, "other bytes of the BAM sectors unchanged");
        let mut same = true;
        for (tt, ss) in locations(k) {
            if !bam_sectors(k).contains(&(tt, ss)) {
                same &= before.sec(tt, ss) == after.sec(tt, ss);
            }
        }
        vx::check(same, "other sectors unchanged");
        vx::reach(1);
    }

    /// params: kind, track, more tracks. The lists of allocated and free sectors mirror the bitmaps.
    fn h_bam_lists() {
        let k = vx::param(0);
        let t = vx::param(1) as u8 + vx::pick("track", vx::param(2) + 1) as u8;
        let mut d = fresh(k);
        let s0 = vx::u8("sector");
        vx::assume(s0 < nsec(k, t));
        let s0 = vx::split_u8(s0);
        let s1 = (s0 + 1) % nsec(k, t);
        let bits = vx::pick("bits", 4);
        {
            let bam = d.bam().unwrap();
            let mut bam = bam.borrow_mut();
            for (s, b) in [(s0, bits & 1), (s1, bits >> 1)] {
                let l = loc!(d, t, s);
                if b == 1 {
                    bam.free(l).unwrap()
                } else {
                    bam.allocate(l).unwrap()
                }
            }
            bam.flush().unwrap();
        }
        d.initialize();
        let img = snap(&*d, k);
        let bam = d.bam().unwrap();
        let (a, f) = (bam.borrow().allocated_sectors().unwrap(), bam.borrow().free_sectors().unwrap());
        let mut wa = vec![];
        let mut wf = vec![];
        for tt in 1..=dos_tracks(k) {
            for s in 0..nsec(k, tt) {
                if img.free_bit(tt, s) {
                    wf.push((tt, s))
                } else {
                    wa.push((tt, s))
                }
            }
        }
        let mut a: Vec<(u8, u8)> = a.iter().map(|l| (l.0, l.1)).collect();
        let mut f: Vec<(u8, u8)> = f.iter().map(|l| (l.0, l.1)).collect();
        a.sort();
        f.sort();
        vx::check(a == wa, "allocated sectors are those not marked free");
        vx::check(f == wf, "free sectors are those marked free");
        vx::check(img.counts_ok(), "counts match");
        vx::reach(1);
    }
}
