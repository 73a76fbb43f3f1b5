//! Directory entries: stored form, listing, free slots, names.
use crate::util::*;
use crate::vx;
use cbm::disk::directory::*;
use cbm::disk::file::*;
use cbm::disk::geos::*;
use cbm::disk::*;

/// Length of a name as stored (trailing padding stripped).
pub fn stored_len(raw: &[u8]) -> usize {
    let mut n = 16;
    while n > 0 && raw[n - 1] == 0xA0 {
        n -= 1;
    }
    n
}
fn type_of(n: u8) -> FileType {
    match n & 15 {
        0 => FileType::DEL,
        1 => FileType::SEQ,
        2 => FileType::PRG,
        3 => FileType::USR,
        4 => FileType::REL,
        x => FileType::Unknown(x),
    }
}
/// The entry is what the 32 raw bytes say.
pub fn check_entry(e: &DirectoryEntry, raw: &[u8]) {
    let a = raw[2];
    vx::check(e.file_attributes.file_type == type_of(a), "file type");
    vx::check(e.file_attributes.unused_bit == (a & 0x10 != 0), "unused bit");
    vx::check(e.file_attributes.save_with_replace_flag == (a & 0x20 != 0), "replace flag");
    vx::check(e.file_attributes.locked_flag == (a & 0x40 != 0), "locked flag");
    vx::check(e.file_attributes.closed_flag == (a & 0x80 != 0), "closed flag");
    vx::check(e.file_attributes.is_scratched() == (a & 0x8F == 0), "scratched");
    vx::check(e.first_sector.0 == raw[3] && e.first_sector.1 == raw[4], "first sector");
    let n = stored_len(&raw[5..21]);
    vx::check(e.filename.as_bytes() == &raw[5..5 + n], "name without padding");
    vx::check(e.file_size == raw[30] as u16 + 256 * raw[31] as u16, "size in blocks");
    let geos = a & 7 < 4 && raw[23] <= 1 && (raw[23] != 0 || raw[24] != 0);
    if a & 15 == 4 {
        vx::check(e.scheme == Scheme::Relative, "relative file");
        match e.extra {
            Extra::Relative(ref x) => {
                vx::check(x.first_side_sector.0 == raw[21] && x.first_side_sector.1 == raw[22], "side sector");
                vx::check(x.record_length == raw[23], "record length");
                vx::check(x.unused == raw[24..30], "unused bytes");
            }
            _ => vx::check(false, "relative extra"),
        }
        vx::reach(2);
    } else if geos {
        vx::check(e.scheme == if raw[23] == 1 { Scheme::GEOSVLIR } else { Scheme::GEOSSequential }, "GEOS file");
        match e.extra {
            Extra::GEOS(ref x) => {
                vx::check(x.info_block.0 == raw[21] && x.info_block.1 == raw[22], "info block");
                vx::check(x.structure == if raw[23] == 1 { GEOSFileStructure::VLIR } else { GEOSFileStructure::Sequential }, "structure");
                vx::check(x.geos_file_type.to_byte() == raw[24], "GEOS type");
                vx::check([x.year, x.month, x.day, x.hour, x.minute] == raw[25..30], "date");
            }
            _ => vx::check(false, "GEOS extra"),
        }
        vx::reach(3);
    } else {
        vx::check(e.scheme == Scheme::Linear, "linear file");
        match e.extra {
            Extra::Linear(ref x) => vx::check(x.unused == raw[21..30], "unused bytes"),
            _ => vx::check(false, "linear extra"),
        }
        vx::reach(4);
    }
}
/// The directory sector used by the harnesses: the first one, or a second one linked to it.
pub fn dir_sector(d: &mut dyn Disk, k: u64, second: bool) -> (u8, u8) {
    let f = first_dir(k);
    if !second {
        return f;
    }
    let s2 = (f.0, f.1 + 3);
    for i in 0..8 {
        poke(d, f.0, f.1, i * 32 + 2, &[0x82, 17, 0, b'X', b'0' + i as u8]);
        poke(d, f.0, f.1, i * 32 + 7, &[0xA0; 14]);
    }
    poke(d, f.0, f.1, 0, &[s2.0, s2.1]);
    poke(d, s2.0, s2.1, 0, &[0, 0xFF]);
    s2
}

harnesses! {
    /// params: kind, slot, second sector. Any 30 bytes in a slot: decoded right, written back unchanged,
    /// neighbours untouched.
    fn h_entry_codec() {
        let k = vx::param(0);
        let slot = vx::param(1) as usize;
        let mut d = fresh(k);
        let (t, s) = dir_sector(&mut *d, k, vx::param(2) == 1);
        let mut blk = vx::any::<256>("sector");
        blk[0] = 0;
        blk[1] = 0xFF;
        // the other slots are in use
        for i in 0..8 {
            if i != slot {
                blk[i * 32 + 2] = 0x82;
                for j in 0..9 {
                    blk[i * 32 + 21 + j] = 0;
                }
                for j in 0..16 {
                    blk[i * 32 + 5 + j] = b'A' + j as u8;
                }
            }
        }
        let raw = blk[slot * 32..slot * 32 + 32].to_vec();
        wr(&mut *d, t, s, &blk);
        let before = snap(&*d, k);
        let scratched = raw[2] & 0x8F == 0;
        let e = if vx::split(scratched as u64) == 1 {
            vx::check(d.directory().unwrap().iter().all(|e| e.position.unwrap().location.1 != s || e.position.unwrap().offset as usize != slot * 32), "a scratched entry is not listed");
            vx::reach(5);
            d.next_free_directory_entry().unwrap()
        } else {
            let l = d.directory().unwrap();
            match l.into_iter().find(|e| e.position.unwrap().location.1 == s && e.position.unwrap().offset as usize == slot * 32) {
                Some(e) => e,
                None => {
                    vx::check(false, "every entry in use is listed");
                    return;
                }
            }
        };
        vx::note("attr", e.file_attributes.to_byte() as u64);
        check_entry(&e, &raw);
        let p = e.position.unwrap();
        vx::check(p.location.0 == t && p.location.1 == s && p.offset as usize == slot * 32 && p.size == 32, "position of the entry");
        // bytes
        let mut out = vx::any::<32>("out");
        let o01 = [out[0], out[1]];
        e.to_bytes(&mut out);
        vx::check(out[0] == o01[0] && out[1] == o01[1], "link bytes are not part of an entry");
        vx::check(out[2..] == raw[2..], "to_bytes is the inverse of reading");
        vx::check(d.write_directory_entry(&e).is_ok(), "write back");
        let after = snap(&*d, k);
        vx::check(after.data == before.data, "writing an unchanged entry back changes nothing");
        vx::reach(1);
    }

    /// params: kind, slot, name length, second sector. Changing an entry changes its own fields only.
    fn h_entry_update() {
        let k = vx::param(0);
        let slot = vx::param(1) as usize;
        let n = vx::param(2) as usize;
        let mut d = fresh(k);
        let (t, s) = dir_sector(&mut *d, k, vx::param(3) == 1);
        let mut blk = vx::any::<256>("sector");
        blk[0] = 0;
        blk[1] = 0xFF;
        for i in 0..8 {
            blk[i * 32 + 2] = 0x81;
            for j in 0..9 {
                blk[i * 32 + 21 + j] = 0;
            }
            for j in 0..16 {
                blk[i * 32 + 5 + j] = b'A' + i as u8;
            }
        }
        wr(&mut *d, t, s, &blk);
        let mut e = d.find_directory_entry(&pet(&[b'A' + slot as u8; 16])).unwrap();
        let mut name = vec![0u8; n];
        vx::bytes(&mut name, "name");
        let x = vx::any::<5>("fields");
        e.filename = pet(&name);
        e.file_size = x[0] as u16 | (x[1] as u16) << 8;
        e.first_sector.0 = x[2];
        e.first_sector.1 = x[3];
        e.file_attributes = FileAttributes::from_byte(x[4]);
        vx::check(d.write_directory_entry(&e).is_ok(), "write");
        let mut want = blk;
        let o = slot * 32;
        want[o + 2] = x[4];
        want[o + 3] = x[2];
        want[o + 4] = x[3];
        for j in 0..16 {
            want[o + 5 + j] = if j < n { name[j] } else { 0xA0 };
        }
        want[o + 30] = x[0];
        want[o + 31] = x[1];
        vx::check(rd(&*d, t, s) == want, "only the fields of that entry change");
        vx::reach(1);
    }

    /// params: kind, slots with an arbitrary type byte, last sector's used bytes, first such slot. Listing and free slots.
    fn h_dir_list() {
        let k = vx::param(0);
        let n = vx::param(1) as usize;
        let mut d = fresh(k);
        let s2 = dir_sector(&mut *d, k, true);
        let f = first_dir(k);
        let mut attr = [0u8; 16];
        let at = vx::param(3) as usize;
        vx::bytes(&mut attr[at..at + n], "attr");
        for i in 0..16 {
            let (t, s) = if i < 8 { f } else { s2 };
            if i < at || i >= at + n {
                attr[i] = 0x82;
            }
            let mut raw = [0u8; 30];
            raw[0] = attr[i];
            raw[1] = 1 + i as u8;
            raw[3] = b'A' + i as u8;
            for j in 4..19 {
                raw[j] = 0xA0;
            }
            poke(&mut *d, t, s, (i % 8) * 32 + 2, &raw);
        }
        let tail = vx::param(2) as usize;
        poke(&mut *d, s2.0, s2.1, 1, &[(tail - 1) as u8]);
        let visible = 8 + tail / 32;
        let before = snap(&*d, k);
        let l = d.directory().unwrap();
        let mut want = vec![];
        let mut free = None;
        for i in 0..visible {
            let used = vx::split((attr[i] & 0x8F != 0) as u64) == 1;
            if used {
                want.push(i);
            } else if free.is_none() {
                free = Some(i);
            }
        }
        vx::check(l.len() == want.len(), "exactly the entries in use are listed");
        for (e, i) in l.iter().zip(&want) {
            vx::check(e.filename.as_bytes() == &[b'A' + *i as u8] && e.first_sector.0 == 1 + *i as u8, "in directory order");
            let (t, s) = if *i < 8 { f } else { s2 };
            let p = e.position.unwrap();
            vx::check(p.location.0 == t && p.location.1 == s && p.offset as usize == i % 8 * 32, "with its position");
            vx::check(!e.is_geos_border(), "not a border entry");
        }
        vx::note("n", l.len() as u64);
        vx::check(snap(&*d, k).data == before.data, "listing does not write");
        let e = d.next_free_directory_entry().unwrap();
        let p = e.position.unwrap();
        match free {
            Some(i) => {
                let (t, s) = if i < 8 { f } else { s2 };
                vx::check(p.location.0 == t && p.location.1 == s && p.offset as usize == i % 8 * 32, "the first free slot is used");
                vx::check(snap(&*d, k).data == before.data, "finding a free slot does not write");
                vx::reach(2);
            }
            None => {
                let after = snap(&*d, k);
                let b = after.sec(s2.0, s2.1);
                vx::check(b[0] == p.location.0 && b[1] == p.location.1 && p.offset == 0, "a new directory sector is linked");
                vx::check(p.location.0 == dir_track(k) && before.free_bit(p.location.0, p.location.1), "on the directory track, formerly free");
                vx::check(!after.free_bit(p.location.0, p.location.1), "and allocated");
                let nb = after.sec(p.location.0, p.location.1);
                vx::check(nb[0] == 0 && nb[1] == 0xFF && nb[2..].iter().all(|x| *x == 0), "and empty");
                vx::check(tail != 256 || d.directory().unwrap().len() == want.len(), "the listing is unchanged");
                vx::reach(3);
            }
        }
        vx::reach(1);
    }

    /// params: kind, arbitrary bytes at the start of each stored name, first arbitrary position, query length.
    /// Looking up a name.
    fn h_find() {
        let k = vx::param(0);
        let m = vx::param(1) as usize;
        let at = vx::param(2) as usize;
        let ql = vx::param(3) as usize;
        let mut d = fresh(k);
        let f = first_dir(k);
        let mut raw = [[0xA0u8; 16]; 3];
        for i in 0..3 {
            for j in 0..at {
                raw[i][j] = b'S';
            }
            vx::bytes(&mut raw[i][at..at + m], "stored");
            let a = [0x82, 0x81, 0x80][i];
            poke(&mut *d, f.0, f.1, i * 32 + 2, &[a, 1 + i as u8, 0]);
            poke(&mut *d, f.0, f.1, i * 32 + 5, &raw[i]);
        }
        let mut q = vec![b'S'; ql];
        if ql > at {
            vx::bytes(&mut q[at..], "query");
        }
        let r = d.find_directory_entry(&pet(&q));
        let mut want = None;
        for i in (0..3).rev() {
            let n = stored_len(&raw[i]);
            if n == ql && raw[i][..n] == q[..] {
                want = Some(i);
            }
        }
        match r {
            Ok(e) => {
                vx::check(want.is_some(), "found only if stored");
                vx::check(e.first_sector.0 as usize == 1 + want.unwrap(), "the first entry of that name");
                vx::reach(1);
            }
            Err(e) => {
                vx::check(is(&e, DiskError::NotFound), "not found");
                vx::check(want.is_none(), "a stored name is found");
                vx::reach(2);
            }
        }
    }

    /// params: kind, old name length, new name length. Rename with arbitrary names.
    fn h_rename() {
        let k = vx::param(0);
        let (ol, nl) = (vx::param(1) as usize, vx::param(2) as usize);
        let mut d = fresh(k);
        let f = first_dir(k);
        let mut names: [Vec<u8>; 2] = [vec![b'A'; 3], vec![b'B'; 16]];
        vx::bytes(&mut names[0], "first");
        vx::assume(names[0][2] != 0xA0);
        let x = vx::any::<3>("second");
        names[1][13..].copy_from_slice(&x);
        vx::assume(x[2] != 0xA0);
        for i in 0..2 {
            let mut raw = vx::any::<30>("entry");
            raw[0] = [0x82, 0xC3][i];
            for j in 0..16 {
                raw[3 + j] = if j < names[i].len() { names[i][j] } else { 0xA0 };
            }
            raw[19..28].copy_from_slice(&[0; 9]);
            poke(&mut *d, f.0, f.1, i * 32 + 2, &raw);
        }
        let mut old = vec![0u8; ol];
        vx::bytes(&mut old, "old");
        let mut new = vec![b'B'; nl];
        if nl > 13 {
            vx::bytes(&mut new[13..], "new");
        } else {
            vx::bytes(&mut new, "new");
        }
        let before = snap(&*d, k);
        let r = d.rename(&pet(&old), &pet(&new));
        let mut want = before.sec(f.0, f.1).to_vec();
        let ix = if old == names[0] { Some(0) } else if old == names[1] { Some(1) } else { None };
        match ix {
            None => {
                vx::check(matches!(r, Err(ref e) if is(e, DiskError::NotFound)), "no such file");
                vx::reach(2);
            }
            Some(_) if nl > 16 => {
                vx::check(matches!(r, Err(ref e) if is(e, DiskError::FilenameTooLong)), "name too long");
                vx::reach(3);
            }
            Some(i) => {
                if new == names[0] || new == names[1] {
                    vx::check(matches!(r, Err(ref e) if is(e, DiskError::FileExists)), "name taken");
                    vx::reach(4);
                } else {
                    vx::check(r.is_ok(), "renamed");
                    for j in 0..16 {
                        want[i * 32 + 5 + j] = if j < nl { new[j] } else { 0xA0 };
                    }
                    vx::reach(1);
                }
            }
        }
        let after = snap(&*d, k);
        vx::check(after.sec(f.0, f.1) == &want[..], "only the name of that file changes");
        crate::ops::check_untouched(&before, &after, &[f]);
        if r.is_ok() && nl > 0 {
            vx::assume(new[nl - 1] != 0xA0);
            let e = d.find_directory_entry(&pet(&new));
            vx::check(e.is_ok(), "found under the new name");
            vx::check(matches!(d.find_directory_entry(&pet(&old)), Err(ref e) if is(e, DiskError::NotFound)), "gone under the old name");
        }
    }

    /// params: kind, place. Renaming an entry of any type, in the first or second directory sector or on the border.
    fn h_rename_kind() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let f = first_dir(k);
        let (l, slot) = match vx::param(1) {
            0 => (f, 5),
            1 => {
                let l = (f.0, 9);
                poke(&mut *d, f.0, f.1, 0, &[l.0, l.1]);
                wr(&mut *d, l.0, l.1, &[0; 256]);
                poke(&mut *d, l.0, l.1, 1, &[0xFF]);
                (l, 7)
            }
            _ => (make_geos(&mut *d, k, None), 3),
        };
        let mut raw = vx::any::<30>("entry");
        vx::assume(raw[0] & 0x8F != 0);
        raw[3..19].copy_from_slice(b"OLD NAME\xA0\xA0\xA0\xA0\xA0\xA0\xA0\xA0");
        poke(&mut *d, l.0, l.1, slot * 32 + 2, &raw);
        d.initialize();
        let new = vx::any::<4>("new");
        vx::assume(new[3] != 0xA0);
        let before = snap(&*d, k);
        vx::check(d.rename(&pet(b"OLD NAME"), &pet(&new)).is_ok(), "renamed");
        let mut want = before.sec(l.0, l.1).to_vec();
        want[slot * 32 + 5..][..4].copy_from_slice(&new);
        want[slot * 32 + 9..][..12].copy_from_slice(&[0xA0; 12]);
        let after = snap(&*d, k);
        crate::ops::check_untouched(&before, &after, &[l]);
        vx::check(after.sec(l.0, l.1) == &want[..], "only the name changes");
        vx::check(matches!(d.find_directory_entry(&pet(b"OLD NAME")), Err(ref e) if is(e, DiskError::NotFound)), "the old name is gone");
        vx::check(d.find_directory_entry(&pet(&new)).is_ok(), "found under the new name");
        vx::reach(1);
    }

    /// params: kind. Creating or renaming to a name of some length when a file of some length exists.
    fn h_taken() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let f = first_dir(k);
        let lens = [0usize, 1, 2, 15, 16];
        let n = lens[vx::pick("stored", 5) as usize];
        let m = lens[vx::pick("new", 5) as usize];
        let mut a = vec![b'A'; n];
        let mut b = vec![b'A'; m];
        for (v, name) in [(&mut a, "a"), (&mut b, "b")] {
            let c = v.len();
            if c > 0 {
                vx::bytes(&mut v[c.max(2) - 2..], name);
                vx::assume(v[c - 1] != 0xA0);
            }
        }
        for (i, name) in [&a[..], b"THEOTHER"].into_iter().enumerate() {
            let mut raw = [0u8; 30];
            raw[0] = 0x82;
            raw[1] = 17;
            for j in 0..16 {
                raw[3 + j] = if j < name.len() { name[j] } else { 0xA0 };
            }
            poke(&mut *d, f.0, f.1, (2 * i + 1) * 32 + 2, &raw);
        }
        d.initialize();
        let before = snap(&*d, k);
        let create = vx::pick("create", 2) == 1;
        let r = if create { d.create_file(&pet(&b), FileType::PRG, Scheme::Linear).map(|_| ()) } else { d.rename(&pet(b"THEOTHER"), &pet(&b)) };
        if a == b {
            vx::check(matches!(r, Err(ref e) if is(e, DiskError::FileExists)), "name taken");
            vx::check(snap(&*d, k).data == before.data, "nothing changed");
            vx::reach(2);
        } else {
            vx::check(r.is_ok(), "name available");
            vx::check(d.find_directory_entry(&pet(&b)).is_ok() && d.find_directory_entry(&pet(&a)).is_ok(), "both are found");
            vx::reach(1);
        }
    }

    /// params: kind, name length. Create with an arbitrary name next to two arbitrary ones.
    fn h_create_name() {
        let k = vx::param(0);
        let nl = vx::param(1) as usize;
        let mut d = fresh(k);
        let mut a = vec![0u8; 3];
        vx::bytes(&mut a, "first");
        vx::assume(a[2] != 0xA0);
        let mut b = vec![b'B'; 16];
        let x = vx::any::<2>("second");
        b[14..].copy_from_slice(&x);
        vx::assume(x[1] != 0xA0);
        d.create_file(&pet(&a), FileType::PRG, Scheme::Linear).unwrap();
        d.create_file(&pet(&b), FileType::SEQ, Scheme::Linear).unwrap();
        let mut n = vec![b'B'; nl];
        if nl > 14 {
            vx::bytes(&mut n[14..], "new");
        } else {
            vx::bytes(&mut n, "new");
        }
        if nl > 0 {
            vx::assume(n[nl - 1] != 0xA0);
        }
        let ft = [FileType::PRG, FileType::SEQ, FileType::USR, FileType::DEL][vx::pick("type", 4) as usize];
        let before = snap(&*d, k);
        let r = d.create_file(&pet(&n), ft, Scheme::Linear);
        if nl > 16 {
            vx::check(matches!(r, Err(ref e) if is(e, DiskError::FilenameTooLong)), "name too long");
            vx::check(snap(&*d, k).data == before.data, "nothing written");
            vx::reach(1);
            return;
        }
        if n == a || n == b {
            vx::check(matches!(r, Err(ref e) if is(e, DiskError::FileExists)), "name taken");
            vx::check(snap(&*d, k).data == before.data, "nothing written");
            vx::check(d.directory().unwrap().len() == 2, "no second entry of that name");
            vx::reach(2);
            return;
        }
        vx::check(r.is_ok(), "created");
        d.initialize();
        let e = d.find_directory_entry(&pet(&n)).unwrap();
        vx::check(e.filename.as_bytes() == &n[..], "found under its name");
        vx::check(e.file_attributes.file_type == ft && e.file_attributes.closed_flag && !e.file_attributes.locked_flag && !e.file_attributes.save_with_replace_flag, "attributes");
        vx::check(e.file_size == 1, "one block");
        let l = d.directory().unwrap();
        vx::check(l.len() == 3, "one more entry");
        let f = d.open_file(&pet(&n)).unwrap();
        vx::check(matches!(f, File::Linear(_)) && read_all(&f).is_empty(), "an empty file");
        vx::reach(1);
    }

    /// params: kind, old type byte. A free slot that held any other kind of file is reused cleanly.
    fn h_slot_reuse() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let f = first_dir(k);
        let mut raw = vx::any::<30>("stale");
        vx::assume(raw[0] & 0x8F == 0);
        let o01 = [0u8, 0xFF];
        poke(&mut *d, f.0, f.1, 2, &raw);
        let file = d.create_file(&pet(b"FRESH"), FileType::PRG, Scheme::Linear).unwrap();
        std::io::Write::write_all(&mut file.writer().unwrap(), b"some data").unwrap();
        d.initialize();
        let b = rd(&*d, f.0, f.1);
        vx::check(b[0..2] == o01, "link of the directory sector");
        vx::check(b[2] == 0x82, "type byte");
        raw.copy_from_slice(&b[2..32]);
        vx::check(raw[3..8] == *b"FRESH" && raw[8..19].iter().all(|x| *x == 0xA0), "name");
        vx::check(raw[19..28].iter().all(|x| *x == 0), "nothing of the old file remains");
        vx::check(raw[28] == 1 && raw[29] == 0, "size");
        let file = d.open_file(&pet(b"FRESH")).unwrap();
        vx::check(matches!(file, File::Linear(_)), "a linear file");
        vx::check(read_all(&file) == b"some data", "contents");
        vx::reach(1);
    }
}
