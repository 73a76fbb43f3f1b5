//! Histories of file operations: contents, isolation, consistency, failure atomicity.
use crate::loc;
use crate::util::*;
use crate::vx;
use cbm::disk::directory::*;
use cbm::disk::file::*;
use cbm::disk::*;
use std::io::Write;

/// What the disk should hold.
pub struct Model {
    pub files: Vec<(Vec<u8>, FileType, Vec<u8>)>,
}
impl Model {
    pub fn find(&self, n: &[u8]) -> Option<usize> {
        self.files.iter().position(|f| f.0 == n)
    }
}
pub const TYPES: [FileType; 3] = [FileType::PRG, FileType::SEQ, FileType::USR];

/// Sectors of a linear file according to the raw image.
pub fn chain_of(s: &Snap, t: u8, c: u8) -> Vec<(u8, u8)> {
    let mut v = vec![(t, c)];
    loop {
        let l = *v.last().unwrap();
        let b = s.sec(l.0, l.1);
        if b[0] == 0 || v.len() > 4000 {
            return v;
        }
        v.push((b[0], b[1]));
    }
}
/// First sector of a file, taken from the raw directory.
pub fn raw_entry(s: &Snap, name: &[u8]) -> Option<((u8, u8), usize)> {
    let d = first_dir(s.k);
    let mut want = [0xA0u8; 16];
    want[..name.len()].copy_from_slice(name);
    for l in chain_of(s, d.0, d.1) {
        for i in 0..8 {
            let e = &s.sec(l.0, l.1)[i * 32..i * 32 + 32];
            if (e[2] & 0x8F) != 0 && e[5..21] == want {
                return Some((l, i * 32));
            }
        }
    }
    None
}
pub fn raw_sectors(s: &Snap, name: &[u8]) -> Vec<(u8, u8)> {
    match raw_entry(s, name) {
        Some((l, o)) => {
            let e = &s.sec(l.0, l.1)[o..];
            chain_of(s, e[3], e[4])
        }
        None => vec![],
    }
}
/// Every file has its contents, the listing shows exactly the files.
pub fn check_model(d: &dyn Disk, m: &Model) {
    let dir = d.directory().unwrap();
    vx::check(dir.len() == m.files.len(), "the directory lists exactly the live files");
    for e in &dir {
        vx::check(m.find(e.filename.as_bytes()).is_some(), "listed file exists");
    }
    for f in &m.files {
        let h = d.open_file(&pet(&f.0));
        vx::check(h.is_ok(), "file can be opened");
        let h = h.unwrap();
        let e = h.entry();
        vx::check(e.filename.as_bytes() == &f.0[..], "name");
        vx::check(e.file_attributes.file_type == f.1, "type");
        vx::check(e.file_attributes.closed_flag && !e.file_attributes.locked_flag, "closed, not locked");
        vx::check(e.file_size as usize == blocks_for(f.2.len()), "block count in the directory");
        let occ = h.occupied_sectors().unwrap();
        vx::check(occ.len() == blocks_for(f.2.len()), "occupies that many sectors");
        let r = read_all(&h);
        vx::check(r.len() == f.2.len(), "length");
        vx::check(r == f.2, "contents");
    }
}
/// Nothing changed except in the given sectors.
pub fn check_untouched(a: &Snap, b: &Snap, except: &[(u8, u8)]) {
    let mut same = true;
    for (t, s) in locations(a.k) {
        if !except.contains(&(t, s)) {
            same &= a.sec(t, s) == b.sec(t, s);
        }
    }
    vx::check(same, "sectors of other files and free sectors in use by nobody are untouched");
}
pub fn names() -> [&'static [u8]; 3] {
    [b"ALPHA", b"B", b"SIXTEEN CHARS 16"]
}
/// Names that are easily confused with each other.
pub fn close_names() -> [&'static [u8]; 3] {
    [b"AB", b"ABC", b"ABCDEFGHIJKLMNOP"]
}
pub fn name_set() -> [&'static [u8]; 3] {
    if vx::param(3) == 1 {
        close_names()
    } else {
        names()
    }
}

pub fn add_file(d: &mut dyn Disk, m: &mut Model, name: &[u8], ft: FileType, data: Vec<u8>) {
    let f = d.create_file(&pet(name), ft, Scheme::Linear).unwrap();
    if !data.is_empty() {
        f.writer().unwrap().write_all(&data).unwrap();
    }
    m.files.push((name.to_vec(), ft, data));
}

/// One arbitrary operation; returns false if it was (rightly) refused.
fn step(d: &mut dyn Disk, k: u64, m: &mut Model, ns: &[&[u8]; 3], i: usize) -> bool {
    // operations: 0..3 create, 3..9 write (two lengths), 9..12 delete, 12..21 rename, 21 re-read the image
    let op = vx::pick(["op0", "op1", "op2", "op3", "op4"][i], 22) as usize;
    let before = snap(d, k);
    let free = d.blocks_free().unwrap();
    let mut dirsec = {
        let l = first_dir(k);
        chain_of(&before, l.0, l.1)
    };
    let mut touched: Vec<(u8, u8)> = bam_sectors(k);
    let bad = |r: std::io::Result<()>, e: DiskError, d: &mut dyn Disk| {
        vx::check(matches!(r, Err(ref x) if is(x, e)), "refused with the documented error");
        let after = snap(d, k);
        vx::check(after.data == before.data, "a refused operation leaves the image alone");
        vx::check(d.blocks_free().unwrap() == free, "a refused operation leaves the free count alone");
    };
    if op < 3 {
        let n = ns[op];
        let r = d.create_file(&pet(n), TYPES[op], Scheme::Linear).map(|_| ());
        if m.find(n).is_some() {
            bad(r, DiskError::FileExists, d);
            return false;
        }
        vx::check(r.is_ok(), "create succeeds");
        m.files.push((n.to_vec(), TYPES[op], vec![]));
        let after = snap(d, k);
        touched.append(&mut dirsec);
        let l = first_dir(k);
        touched.extend(chain_of(&after, l.0, l.1));
        let sec = raw_sectors(&after, n);
        vx::check(sec.len() == 1, "a new file has one sector");
        vx::check(sec.iter().all(|x| before.free_bit(x.0, x.1)), "new sectors come from the free ones");
        touched.extend(sec);
        check_untouched(&before, &after, &touched);
    } else if op < 9 {
        let n = ns[(op - 3) / 2];
        let len = if op % 2 == 1 { 255 } else { 17 };
        let mut data = vec![0u8; len];
        let f = match (d.open_file(&pet(n)), m.find(n)) {
            (Err(e), None) => {
                bad(Err(e), DiskError::NotFound, d);
                return false;
            }
            (Err(_), Some(_)) => {
                vx::check(false, "file can be opened");
                return false;
            }
            (Ok(_), None) => {
                vx::check(false, "a file that does not exist cannot be opened");
                return false;
            }
            (Ok(f), Some(_)) => f,
        };
        vx::bytes(&mut data, "data");
        let old = raw_sectors(&before, n);
        {
            let mut w = f.writer().unwrap();
            let r = w.write_all(&data);
            vx::check(r.is_ok(), "write succeeds");
            vx::check(w.flush().is_ok(), "flush succeeds");
        }
        let ix = m.find(n).unwrap();
        m.files[ix].2.extend_from_slice(&data);
        let after = snap(d, k);
        let new = raw_sectors(&after, n);
        vx::check(new.len() == blocks_for(m.files[ix].2.len()), "sectors of the file");
        vx::check(new.iter().all(|x| old.contains(x) || before.free_bit(x.0, x.1)), "new sectors come from the free ones");
        touched.append(&mut dirsec);
        touched.extend(old);
        touched.extend(new);
        check_untouched(&before, &after, &touched);
    } else if op < 12 {
        let n = ns[op - 9];
        match (d.open_file(&pet(n)), m.find(n)) {
            (Err(e), None) => {
                bad(Err(e), DiskError::NotFound, d);
                return false;
            }
            (Ok(mut f), Some(ix)) => {
                let old = raw_sectors(&before, n);
                vx::check(f.delete().is_ok(), "delete succeeds");
                let data = m.files.remove(ix).2;
                let after = snap(d, k);
                touched.append(&mut dirsec);
                check_untouched(&before, &after, &touched);
                for (t, s) in locations(k) {
                    if t <= dos_tracks(k) {
                        let now = before.free_bit(t, s) || old.contains(&(t, s));
                        vx::check(after.free_bit(t, s) == now, "exactly the sectors of the deleted file become free");
                    }
                }
                vx::check(d.blocks_free().unwrap() == free + blocks_for(data.len()), "blocks free grows by the size of the file");
            }
            _ => vx::check(false, "open succeeds exactly for existing files"),
        }
    } else if op < 21 {
        let (a, b) = (ns[(op - 12) / 3], ns[(op - 12) % 3]);
        let r = d.rename(&pet(a), &pet(b));
        match (m.find(a), m.find(b)) {
            (None, _) => {
                bad(r, DiskError::NotFound, d);
                return false;
            }
            (_, Some(_)) => {
                bad(r, DiskError::FileExists, d);
                return false;
            }
            (Some(ix), None) => {
                vx::check(r.is_ok(), "rename succeeds");
                m.files[ix].0 = b.to_vec();
                let after = snap(d, k);
                let (l, o) = raw_entry(&before, a).unwrap();
                check_untouched(&before, &after, &[l]);
                let mut want = before.sec(l.0, l.1).to_vec();
                for j in 0..16 {
                    want[o + 5 + j] = if j < b.len() { b[j] } else { 0xA0 };
                }
                vx::check(after.sec(l.0, l.1) == &want[..], "rename changes the name only");
            }
        }
    } else {
        d.initialize();
        let after = snap(d, k);
        vx::check(after.data == before.data, "re-reading does not write");
        vx::check(d.blocks_free().unwrap() == free, "re-reading keeps the free count");
    }
    true
}

harnesses! {
    /// params: kind, steps, prefilled directory slots, name set. Arbitrary history of operations.
    fn h_history() {
        let k = vx::param(0);
        let mut d = fresh(k);
        if vx::param(5) == 1 {
            make_geos(&mut *d, k, None);
        }
        let room = d.blocks_free().unwrap();
        vx::check(room == data_blocks(k) - vx::param(5) as usize, "every block but the border block is free");
        let ns = name_set();
        let mut m = Model { files: vec![] };
        for i in 0..vx::param(2) {
            let n = [b'F', b'A' + (i / 26) as u8, b'A' + (i % 26) as u8];
            add_file(&mut *d, &mut m, &n, FileType::PRG, vec![]);
        }
        let mut a = vec![0u8; 500];
        vx::bytes(&mut a, "a");
        add_file(&mut *d, &mut m, ns[0], TYPES[0], a);
        if vx::param(4) > 0 {
            let mut b = vec![0u8; 254];
            vx::bytes(&mut b, "b");
            add_file(&mut *d, &mut m, ns[1], TYPES[1], b);
        }
        for i in 0..vx::param(1) as usize {
            step(&mut *d, k, &mut m, &ns, i);
        }
        check_model(&*d, &m);
        check_consistent(&mut *d, k);
        check_model(&*d, &m);
        let mut used = 0;
        for f in &m.files {
            used += blocks_for(f.2.len());
        }
        vx::check(d.blocks_free().unwrap() + used == room, "every block is free or used by a file");
        vx::note("free", d.blocks_free().unwrap() as u64);
        vx::reach(1);
    }

    /// params: kind, steps. Two files are written at the same time through open writers, with
    /// flushes, renames, other files coming and going and writers being replaced in between.
    fn h_writers() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let mut m = Model { files: vec![] };
        let fa = d.create_file(&pet(b"FIRST"), FileType::PRG, Scheme::Linear).unwrap();
        let fb = d.create_file(&pet(b"SECOND"), FileType::SEQ, Scheme::Linear).unwrap();
        m.files.push((b"FIRST".to_vec(), FileType::PRG, vec![]));
        m.files.push((b"SECOND".to_vec(), FileType::SEQ, vec![]));
        let mut w = [Some(fa.writer().unwrap()), Some(fb.writer().unwrap())];
        let mut third = false;
        for i in 0..vx::param(1) as usize {
            let op = vx::pick(["op0", "op1", "op2", "op3", "op4"][i], 10) as usize;
            match op {
                0..=3 => {
                    let mut data = vec![0u8; if op & 1 == 1 { 255 } else { 17 }];
                    vx::bytes(&mut data, "data");
                    vx::check(w[op / 2].as_mut().unwrap().write_all(&data).is_ok(), "write");
                    m.files[op / 2].2.extend_from_slice(&data);
                }
                4 | 5 => vx::check(w[op - 4].as_mut().unwrap().flush().is_ok(), "flush"),
                6 => {
                    let new: &[u8] = if m.files[0].0 == b"FIRST" { b"OTHER NAME" } else { b"FIRST" };
                    let old = m.files[0].0.clone();
                    vx::check(d.rename(&pet(&old), &pet(new)).is_ok(), "rename");
                    m.files[0].0 = new.to_vec();
                }
                7 => {
                    if !third {
                        let mut data = vec![0u8; 300];
                        vx::bytes(&mut data, "data");
                        add_file(&mut *d, &mut m, b"THIRD", FileType::USR, data);
                        third = true;
                    }
                }
                8 => {
                    if third {
                        vx::check(d.open_file(&pet(b"THIRD")).unwrap().delete().is_ok(), "delete");
                        m.files.pop();
                        third = false;
                    }
                }
                _ => {
                    w[0] = None;
                    let n = m.files[0].0.clone();
                    w[0] = Some(d.open_file(&pet(&n)).unwrap().writer().unwrap());
                }
            }
        }
        drop(w);
        check_model(&*d, &m);
        check_consistent(&mut *d, k);
        check_model(&*d, &m);
        vx::reach(1);
    }

    /// params: kind, free blocks left, longest write in blocks. The disk fills up.
    fn h_full() {
        let k = vx::param(0);
        let left = vx::param(1) as usize;
        let mut d = fresh(k);
        let mut m = Model { files: vec![] };
        let big = vec![0x55u8; (data_blocks(k) - left) * 254];
        let stale = vx::param(3) == 1;
        if stale {
            // the room that is left was used by a file before
            let mut x = vec![0u8; left * 254];
            vx::bytes(&mut x, "old");
            add_file(&mut *d, &mut m, b"OLD", FileType::PRG, x);
        }
        add_file(&mut *d, &mut m, b"BIG", FileType::PRG, big);
        if stale {
            d.open_file(&pet(b"OLD")).unwrap().delete().unwrap();
            m.files.remove(0);
        }
        vx::check(d.blocks_free().unwrap() == left, "blocks left");
        let l = first_dir(k);
        let before = snap(&*d, k);
        let r = d.create_file(&pet(b"NEW"), FileType::SEQ, Scheme::Linear);
        if left == 0 {
            vx::check(matches!(r, Err(ref e) if is(e, DiskError::DiskFull)), "no room for another file");
            let after = snap(&*d, k);
            vx::check(after.data == before.data, "a refused create leaves the image alone");
            vx::reach(1);
        } else {
            vx::check(r.is_ok(), "create succeeds while a block is free");
            let f = r.unwrap();
            let n = crate::rw::pick_len("blocks", 0, vx::param(2) as usize) * 254 + crate::rw::pick_len("rest", 0, 2);
            let mut data = vec![0u8; n];
            vx::bytes(&mut data, "data");
            let fits = blocks_for(n) <= left;
            {
                let mut w = f.writer().unwrap();
                let mut at = 0;
                let r = loop {
                    if at == data.len() {
                        break Ok(());
                    }
                    match w.write(&data[at..]) {
                        Ok(0) => {
                            vx::check(false, "a write makes progress or fails");
                            break Ok(());
                        }
                        Ok(n) => at += n,
                        Err(e) => break Err(e),
                    }
                };
                if fits {
                    vx::check(r.is_ok(), "what fits is written");
                } else {
                    vx::check(matches!(r, Err(ref e) if is(e, DiskError::DiskFull)), "what does not fit is refused as disk full");
                    vx::check(at == left * 254, "what was written is counted");
                    vx::reach(2);
                }
            }
            let stored = if fits { n } else { left * 254 };
            data.truncate(stored);
            m.files.push((b"NEW".to_vec(), FileType::SEQ, data));
            vx::check(d.blocks_free().unwrap() == left - blocks_for(stored), "free blocks");
            vx::reach(1);
        }
        let after = snap(&*d, k);
        let mut touched = bam_sectors(k);
        touched.push(l);
        touched.extend(raw_sectors(&after, b"NEW"));
        check_untouched(&before, &after, &touched);
        check_model(&*d, &m);
        check_consistent(&mut *d, k);
        check_model(&*d, &m);
        // deleting gives the room back
        if m.files.len() == 2 {
            d.open_file(&pet(b"NEW")).unwrap().delete().unwrap();
            m.files.pop();
            vx::check(d.blocks_free().unwrap() == left, "deleting gives the room back");
            check_consistent(&mut *d, k);
            check_model(&*d, &m);
        }
    }

    /// params: kind, files. The directory grows to its limit and is then full.
    fn h_dir_full() {
        let k = vx::param(0);
        let max = vx::param(1) as usize;
        let mut d = fresh(k);
        let mut m = Model { files: vec![] };
        for i in 0..max {
            let n = [b'F', b'0' + (i / 100) as u8, b'0' + (i / 10 % 10) as u8, b'0' + (i % 10) as u8];
            add_file(&mut *d, &mut m, &n, FileType::PRG, vec![]);
        }
        let limit = if k == D81K { 296 } else { 144 };
        let before = snap(&*d, k);
        let mut n = vx::any::<4>("name");
        n[0] = b'G';
        vx::assume(n[3] != 0xA0);
        let r = d.create_file(&pet(&n), FileType::PRG, Scheme::Linear).map(|_| ());
        if max < limit {
            vx::check(r.is_ok(), "there is room in the directory");
            vx::check(d.directory().unwrap().len() == max + 1, "listed");
        } else {
            vx::check(matches!(r, Err(ref e) if is(e, DiskError::DiskFull)), "a full directory is reported as disk full");
            let after = snap(&*d, k);
            vx::check(after.data == before.data, "a refused create leaves the image alone");
            // room again after deleting one
            let i = vx::pick("victim", 3) as usize * (max / 2 - 1);
            let n = m.files[i].0.clone();
            d.open_file(&pet(&n)).unwrap().delete().unwrap();
            m.files.remove(i);
            add_file(&mut *d, &mut m, b"AGAIN", FileType::SEQ, vec![]);
            check_model(&*d, &m);
            check_consistent(&mut *d, k);
        }
        vx::reach(1);
    }

    /// params: kind, geos, write length. Sparse arbitrary BAM: allocated sectors are never written or handed out.
    fn h_sparse() {
        let k = vx::param(0);
        let geos = vx::param(1) == 1;
        let len = vx::param(2) as usize;
        let mut d = fresh(k);
        if geos {
            make_geos(&mut *d, k, None);
        }
        // candidate sectors on several tracks; everything else is allocated
        let dt = dir_track(k);
        let last = dos_tracks(k);
        let cand: [(u8, u8); 8] = [(dt - 1, 0), (dt - 1, 7), (dt + 1, 3), (1, 20 % nsec(k, 1)), (1, 2), (last, 16), (last, 1), (dt + 7, 9)];
        for t in 1..=last {
            if t != dt {
                fill_track(&mut *d, k, t);
            }
        }
        let sel = vx::u8("free");
        // arbitrary contents of the sectors in use
        let mut nfree = 0;
        for i in 0..8 {
            let (t, s) = cand[i];
            let mut b = vec![0u8; 256];
            vx::bytes(&mut b, "old");
            wr(&mut *d, t, s, &b);
        }
        for t in [dt - 1, dt + 1, 1, last, dt + 7] {
            let mut x = 0u64;
            for i in 0..8 {
                if cand[i].0 == t {
                    x |= (sel as u64 >> i & 1) << cand[i].1;
                    if sel >> i & 1 == 1 {
                        nfree += 1;
                    }
                }
            }
            let c = (x.count_ones()) as u8;
            let mut mm = [0u8; 5];
            for i in 0..5 {
                mm[i] = (x >> (8 * i)) as u8;
            }
            set_bam_raw(&mut *d, k, t, c, &mm[..bitmap_size(k)]);
        }
        let nfree = vx::split(nfree) as usize;
        d.initialize();
        vx::check(d.blocks_free().unwrap() == nfree, "blocks free");
        let before = snap(&*d, k);
        let mut data = vec![0u8; len];
        vx::bytes(&mut data, "data");
        let r = d.create_file(&pet(b"NEW"), FileType::PRG, Scheme::Linear);
        if nfree == 0 {
            vx::check(matches!(r, Err(ref e) if is(e, DiskError::DiskFull)), "full");
            vx::check(snap(&*d, k).data == before.data, "a refused create leaves the image alone");
            vx::reach(3);
            return;
        }
        vx::check(r.is_ok(), "create");
        let w = {
            let f = r.unwrap();
            let mut w = f.writer().unwrap();
            w.write_all(&data)
        };
        let fits = blocks_for(len) <= nfree;
        vx::check(w.is_ok() == fits, "succeeds exactly if there is room");
        let stored = if fits { len } else { nfree * 254 };
        let after = snap(&*d, k);
        let sec = raw_sectors(&after, b"NEW");
        vx::check(sec.len() == blocks_for(stored), "sectors");
        for (t, s) in &sec {
            vx::check(cand.contains(&(*t, *s)), "allocated a sector in use");
            let i = cand.iter().position(|x| x == &(*t, *s)).unwrap();
            vx::check(sel >> i & 1 == 1, "only free sectors are handed out");
        }
        let mut touched = bam_sectors(k);
        touched.push(first_dir(k));
        touched.extend(&sec);
        check_untouched(&before, &after, &touched);
        let f = d.open_file(&pet(b"NEW")).unwrap();
        vx::check(read_all(&f) == data[..stored], "contents");
        vx::check(d.blocks_free().unwrap() == nfree - sec.len(), "blocks free");
        vx::check(after.counts_ok(), "counts on disk");
        for t in 1..=last {
            for s in 0..nsec(k, t) {
                let want = before.free_bit(t, s) && !sec.contains(&(t, s));
                vx::check(after.free_bit(t, s) == want, "BAM on disk follows the allocation");
            }
        }
        let _ = loc!(d, 1, 0);
        vx::reach(1);
    }
}
