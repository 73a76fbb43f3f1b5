//! Disk header and formatting.
use crate::loc;
use crate::util::*;
use crate::vx;
use cbm::disk::directory::*;
use cbm::disk::file::*;
use cbm::disk::*;

/// Where the header fields are: name, id, dos version, format type, padding bytes.
fn fields(k: u64) -> (usize, usize, usize, usize, &'static [usize]) {
    if k == D81K {
        (0x04, 0x16, 0x19, 0x1A, &[0x14, 0x15, 0x18, 0x1B, 0x1C])
    } else {
        (0x90, 0xA2, 0xA5, 0xA6, &[0xA0, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA])
    }
}
fn check_header(d: &dyn Disk, k: u64, b: &[u8]) {
    let (n, i, v, f, _) = fields(k);
    let h = match d.header() {
        Ok(h) => h,
        Err(_) => {
            vx::check(false, "header is readable");
            return;
        }
    };
    vx::check(h.first_directory_sector.0 == b[0] && h.first_directory_sector.1 == b[1], "directory location field");
    vx::check(h.disk_format_type == b[2], "format type field");
    vx::check(h.disk_name.as_bytes() == &b[n..n + 16], "disk name");
    vx::check(h.disk_id[0] == b[i] && h.disk_id[1] == b[i + 1], "disk id");
    vx::check(h.directory_dos_version == b[v] && h.directory_format_type == b[f], "version fields");
    vx::check(matches!(d.name(), Some(x) if x.as_bytes() == &b[n..n + 16]), "name()");
    let geos = b[GEOS_SIG..GEOS_SIG + 11] == *b"GEOS format";
    match h.geos {
        Some(ref g) => {
            vx::check(geos, "GEOS only with its signature");
            vx::check(g.border.0 == b[GEOS_BORDER] && g.border.1 == b[GEOS_BORDER + 1], "border location");
            let mut id = [0u8; 16];
            g.id.to_bytes(&mut id);
            vx::check(id == b[GEOS_SIG..GEOS_SIG + 16], "GEOS id");
            vx::reach(2);
        }
        None => {
            vx::check(!geos, "GEOS signature recognized");
            vx::reach(3);
        }
    }
}
fn unformatted<T>(r: std::io::Result<T>) -> bool {
    matches!(r, Err(ref e) if is(e, DiskError::Unformatted))
}
/// A formatted, empty disk as it must be stored.
fn formatted(k: u64, name: &[u8], id: &[u8]) -> Snap {
    let mut s = Snap { k, data: vec![0; total_sectors(k) * 256] };
    let (n, i, v, f, pad) = fields(k);
    let dt = dir_track(k);
    {
        let o = index(k, dt, 0) * 256;
        let h = &mut s.data[o..o + 256];
        let fd = first_dir(k);
        h[0] = fd.0;
        h[1] = fd.1;
        h[2] = if k == D81K { b'D' } else { b'A' };
        if k == D71K {
            h[3] = 0x80;
        }
        for j in 0..16 {
            h[n + j] = if j < name.len() { name[j] } else { 0xA0 };
        }
        h[i] = id[0];
        h[i + 1] = id[1];
        h[v] = if k == D81K { b'3' } else { b'2' };
        h[f] = if k == D81K { b'D' } else { b'A' };
        for p in pad {
            h[*p] = 0xA0;
        }
        let o = index(k, fd.0, fd.1) * 256;
        s.data[o + 1] = 0xFF;
    }
    for t in 1..=dos_tracks(k) {
        let mut c = 0;
        let (b, o) = bitmap_at(k, t);
        for x in 0..nsec(k, t) {
            if !is_system(k, t, x) {
                s.data[index(k, b.0, b.1) * 256 + o + x as usize / 8] |= 1 << (x % 8);
                c += 1;
            }
        }
        let (b, o) = count_at(k, t);
        s.data[index(k, b.0, b.1) * 256 + o] = c;
    }
    s
}

harnesses! {
    /// params: kind. Any 256 header bytes.
    fn h_header() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let b = vx::any::<256>("header");
        let l = header_at(k);
        wr(&mut *d, l.0, l.1, &b);
        d.initialize();
        if k == D71K && b[3] != 0x80 {
            vx::check(unformatted(d.header()), "not a double-sided disk");
            vx::check(unformatted(d.header_mut()) && unformatted(d.flush_header()), "no header to change");
            vx::check(unformatted(d.bam()) && unformatted(d.blocks_free()) && d.name().is_none(), "not a double-sided disk");
            vx::check(unformatted(d.disk_format()), "no format");
            vx::check(unformatted(d.next_free_directory_entry()) && unformatted(d.create_file(&pet(b"X"), FileType::PRG, Scheme::Linear)), "nothing can be created");
            vx::check(rd(&*d, l.0, l.1) == b, "nothing written");
            // formatting recovers it
            vx::check(d.write_format(&"new".into(), &"n1".into()).is_ok() && d.header().is_ok() && d.bam().is_ok(), "format");
            vx::reach(4);
            return;
        }
        check_header(&*d, k, &b);
        vx::check(rd(&*d, l.0, l.1) == b, "reading the header writes nothing");
        vx::check(d.disk_format().is_ok(), "formatted");
        vx::reach(1);
    }

    /// params: kind, new name length. Changing the header changes its fields only.
    fn h_header_write() {
        let k = vx::param(0);
        let nl = vx::param(1) as usize;
        let mut d = fresh(k);
        let mut b = vx::any::<256>("header");
        let l = header_at(k);
        if k == D71K {
            b[3] = 0x80;
        }
        let geos = vx::pick("geos", 2) == 1;
        if geos {
            b[GEOS_SIG..GEOS_SIG + 11].copy_from_slice(b"GEOS format");
        } else {
            b[GEOS_SIG] = 0;
        }
        wr(&mut *d, l.0, l.1, &b);
        d.initialize();
        let before = snap(&*d, k);
        let mut name = vec![0u8; nl];
        vx::bytes(&mut name, "name");
        let x = vx::any::<7>("fields");
        {
            let h = d.header_mut().unwrap();
            h.first_directory_sector.0 = x[0];
            h.first_directory_sector.1 = x[1];
            h.disk_format_type = x[2];
            h.disk_name = pet(&name);
            h.disk_id = Id::from_bytes(&x[3..5]);
            h.directory_dos_version = x[5];
            h.directory_format_type = x[6];
        }
        vx::check(snap(&*d, k).data == before.data, "nothing is written before the flush");
        let r = d.flush_header();
        let mut want = b;
        if nl > 16 {
            vx::check(matches!(r, Err(ref e) if is(e, DiskError::FilenameTooLong)), "name too long");
            vx::check(snap(&*d, k).data == before.data, "a refused flush writes nothing");
            vx::reach(1);
            return;
        }
        vx::check(r.is_ok(), "flush");
        let (n, i, v, f, pad) = fields(k);
        want[0] = x[0];
        want[1] = x[1];
        want[2] = x[2];
        for j in 0..16 {
            want[n + j] = if j < nl { name[j] } else { 0xA0 };
        }
        want[i] = x[3];
        want[i + 1] = x[4];
        want[v] = x[5];
        want[f] = x[6];
        for p in pad {
            want[*p] = 0xA0;
        }
        let after = snap(&*d, k);
        vx::check(after.sec(l.0, l.1) == &want[..], "the fields are stored, everything else is kept");
        crate::ops::check_untouched(&before, &after, &[l]);
        d.initialize();
        check_header(&*d, k, &want);
        vx::reach(1);
    }

    /// params: kind, name length, error table, GEOS before. Formatting a disk with any prior contents.
    fn h_format() {
        let k = vx::param(0);
        let nl = vx::param(1) as usize;
        let err = vx::param(2) == 1;
        let mut d = blank_e(k, err);
        let old = vx::any::<256>("old");
        for (t, s) in locations(k) {
            wr(&mut *d, t, s, &old);
        }
        if vx::param(3) > 0 {
            let l = header_at(k);
            let f = first_dir(k);
            if k == D71K {
                poke(&mut *d, l.0, l.1, 3, &[0x80]);
            }
            poke(&mut *d, f.0, f.1, 0, &[0, 0xFF]);
            if vx::param(3) == 2 {
                poke(&mut *d, l.0, l.1, GEOS_BORDER, &[19, 8]);
                poke(&mut *d, l.0, l.1, GEOS_SIG, b"GEOS format V1.0");
            }
            d.initialize();
            vx::check(d.header().unwrap().geos.is_some() || vx::param(3) == 1, "GEOS before");
        }
        let mut tab = vec![0u8; if err { total_sectors(k) } else { 0 }];
        if err {
            for x in tab.iter_mut() {
                *x = old[7];
            }
            d.blocks_ref_mut().error_table_mut().unwrap().unwrap().copy_from_slice(&tab);
        }
        let mut name = vec![0u8; nl];
        vx::bytes(&mut name, "name");
        let id = vx::any::<2>("id");
        let before = snap(&*d, k);
        let r = d.write_format(&pet(&name), &Id::from_bytes(&id));
        let after = snap(&*d, k);
        match d.blocks_ref().error_table().unwrap() {
            Some(x) => vx::check(err && x == &tab[..], "the error table is kept"),
            None => vx::check(!err, "an error table exactly if the image has one"),
        }
        if nl > 16 {
            vx::check(matches!(r, Err(ref e) if is(e, DiskError::FilenameTooLong)), "name too long");
            vx::check(after.data == before.data, "a refused format writes nothing");
            vx::reach(1);
            return;
        }
        vx::check(r.is_ok(), "formatted");
        let want = formatted(k, &name, &id);
        for (t, s) in locations(k) {
            let (a, b) = (after.sec(t, s), want.sec(t, s));
            // the first bytes of the 1581's allocation sectors are not part of the format written here
            let o = if k == D81K && t == 40 && (s == 1 || s == 2) { 16 } else { 0 };
            vx::check(a[o..] == b[o..], "the image is that of an empty formatted disk");
        }
        for i in 0..2 {
            if i == 1 {
                d.initialize();
            }
            vx::check(d.blocks_free().unwrap() == data_blocks(k), "all data blocks are free");
            vx::check(d.directory().unwrap().is_empty(), "the directory is empty");
            check_header(&*d, k, want.sec(dir_track(k), 0));
            vx::check(d.header().unwrap().geos.is_none() && !d.disk_format().unwrap().geos, "not a GEOS disk");
        }
        let f = d.create_file(&pet(b"FIRST"), FileType::PRG, Scheme::Linear).unwrap();
        std::io::Write::write_all(&mut f.writer().unwrap(), &old).unwrap();
        vx::check(read_all(&d.open_file(&pet(b"FIRST")).unwrap()) == old, "the disk is usable");
        vx::reach(1);
    }

    /// params: kind, name length, error table. Formatting leaves a valid disk (concrete prior contents).
    fn h_format_valid() {
        let k = vx::param(0);
        let nl = vx::param(1) as usize;
        let mut d = blank_e(k, vx::param(2) == 1);
        let mut name = vec![0u8; nl];
        vx::bytes(&mut name, "name");
        let id = vx::any::<2>("id");
        vx::check(unformatted(d.bam()) || k != D71K, "blank");
        d.write_format(&pet(&name), &Id::from_bytes(&id)).unwrap();
        check_consistent(&mut *d, k);
        for t in 1..=tracks(k) {
            for s in 0..nsec(k, t) {
                let l = loc!(d, t, s);
                let b = d.bam().unwrap();
                let b = b.borrow();
                if t <= dos_tracks(k) {
                    vx::check(b.entry(t).unwrap().sector_map() >> s & 1 == !is_system(k, t, s) as u64, "free unless used by the system");
                }
                let _ = l;
            }
        }
        // files, then format again: everything is gone
        let f = d.create_file(&pet(b"OLD"), FileType::PRG, Scheme::Linear).unwrap();
        let data = vx::any::<300>("data");
        std::io::Write::write_all(&mut f.writer().unwrap(), &data).unwrap();
        d.write_format(&pet(&name), &Id::from_bytes(&id)).unwrap();
        vx::check(snap(&*d, k).data == formatted_like(&*d, k, &name, &id), "formatting again gives the same empty disk");
        vx::check(d.open_file(&pet(b"OLD")).is_err(), "old files are gone");
        check_consistent(&mut *d, k);
        vx::reach(1);
    }
}
fn formatted_like(d: &dyn Disk, k: u64, name: &[u8], id: &[u8]) -> Vec<u8> {
    let mut w = formatted(k, name, id);
    if k == D81K {
        for s in 1..3 {
            let o = index(k, 40, s) * 256;
            w.data[o..o + 16].copy_from_slice(&rd(d, 40, s)[..16]);
        }
    }
    w.data
}
