//! Image files: opening, addressing, persistence, read-only access.
use crate::loc;
use crate::util::*;
use crate::vx;
use cbm::disk::directory::*;
use cbm::disk::file::*;
use cbm::disk::*;
use std::io::{Read, Write};

const NAMES: [[&str; 4]; 3] = [["a.d64", "B.D64", "noext", "x.img"], ["a.d71", "B.D71", "noext", "x.img"], ["a.d81", "B.D81", "noext", "x.img"]];

pub fn image_size(k: u64, err: bool) -> usize {
    let n = total_sectors(k);
    n * 256 + if err { n } else { 0 }
}
/// An image file whose sectors all differ and contain arbitrary bytes.
pub fn image(k: u64, err: bool) -> Vec<u8> {
    let base = vx::any::<64>("contents");
    let mut v = vec![0u8; image_size(k, err)];
    for (i, (t, s)) in locations(k).into_iter().enumerate() {
        let b = &mut v[i * 256..i * 256 + 256];
        b[..64].copy_from_slice(&base);
        b[100] = t;
        b[101] = s;
        b[192..].copy_from_slice(&base);
    }
    if err {
        let n = total_sectors(k);
        for i in 0..n {
            v[n * 256 + i] = base[i % 64];
        }
    }
    v
}
pub fn whole(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n + 1];
    let m = vx::file_read(name, &mut v);
    vx::check(m as usize == n, "size of the image file");
    v.truncate(n);
    v
}
pub fn open_typed(k: u64, name: &str, w: bool) -> std::io::Result<Box<dyn Disk>> {
    Ok(match k {
        D71K => Box::new(D71::open(name, w)?),
        D81K => Box::new(D81::open(name, w)?),
        _ => Box::new(D64::open(name, w)?),
    })
}
fn create_typed(k: u64, name: &str, err: bool, new: bool) -> std::io::Result<Box<dyn Disk>> {
    let g = geometry(k, err);
    Ok(match k {
        D71K => Box::new(D71::create(name, g, new)?),
        D81K => Box::new(D81::create(name, g, new)?),
        _ => Box::new(D64::create(name, g, new)?),
    })
}
pub fn base_kind(k: u64) -> usize {
    if k == D64_40K {
        0
    } else {
        k as usize
    }
}

harnesses! {
    /// params: kind, error table. Every image is recognized by name or size, and shown as stored.
    fn h_open() {
        let k = vx::param(0);
        let err = vx::param(1) == 1;
        let v = image(k, err);
        let which = vx::pick("name", 4) as usize;
        let name = NAMES[base_kind(k)][which];
        let w = vx::pick("writable", 2) == 1;
        vx::file_make(name, &v);
        let d = match cbm::disk::open(name, w) {
            Ok(d) => d,
            Err(_) => {
                vx::check(false, "a well-sized image opens");
                return;
            }
        };
        vx::check(d.native_disk_format().last_track == dos_tracks(k), "right kind of disk");
        vx::check(d.native_disk_format().first_directory_location().0 == dir_track(k), "right kind of disk");
        vx::check(d.blocks_ref().check_writability().is_ok() == w, "writable exactly if asked for");
        for (i, (t, s)) in locations(k).into_iter().enumerate() {
            vx::check(rd(&*d, t, s) == v[i * 256..i * 256 + 256], "sectors in order");
        }
        let b = d.blocks_ref();
        match b.error_table().unwrap() {
            Some(x) => vx::check(err && x == &v[total_sectors(k) * 256..], "error table"),
            None => vx::check(!err, "no error table"),
        }
        drop(b);
        let e = open_typed(k, name, w);
        vx::check(e.is_ok(), "opens as its own kind");
        for o in 0..3 {
            if o as usize != base_kind(k) {
                vx::check(matches!(open_typed(o, name, w), Err(ref e) if is(e, DiskError::InvalidLayout)), "not as another kind");
            }
        }
        drop(d);
        drop(e);
        vx::check(whole(name, v.len()) == v, "opening changes nothing");
        vx::reach(1);
    }

    /// params: kind. What the format says about itself.
    fn h_format_info() {
        let k = vx::param(0);
        let d = fresh(k);
        let f = d.native_disk_format();
        let want: Vec<(u8, u8)> = locations(k).into_iter().filter(|l| l.0 <= dos_tracks(k)).collect();
        let got: Vec<(u8, u8)> = f.location_iter().map(|l| (l.0, l.1)).collect();
        vx::check(got == want, "every sector once, in order");
        vx::check(f.total_data_blocks() == data_blocks(k) && d.blocks_free().unwrap() == data_blocks(k), "blocks for data");
        let t = vx::u8("track");
        vx::assume(t >= 1 && t <= tracks(k));
        vx::check(f.sectors_in_track(t) == nsec(k, t), "sectors of a track");
        let dirs = locations(k).into_iter().filter(|l| l.0 == dir_track(k) && (!is_system(k, l.0, l.1) || *l == first_dir(k))).count();
        vx::check(f.max_directory_entries() == dirs * 8, "directory entries");
        let sys: Vec<(u8, u8)> = f.system_locations().iter().map(|l| (l.0, l.1)).collect();
        let want: Vec<(u8, u8)> = locations(k).into_iter().filter(|l| is_system(k, l.0, l.1)).collect();
        vx::check(sys == want, "system sectors");
        for e in [false, true] {
            let g = geometry(k, e);
            vx::check(g.size() == image_size(k, e) && g.error_table_offset() == if e { Some(total_sectors(k) * 256) } else { None }, "size of the image and its error table");
        }
        vx::reach(1);
    }

    /// params: letters after "im." or, if 8 or more, letters less 8 of the whole name. Which names tell the kind of image.
    fn h_extension() {
        let n = (vx::param(0) % 8) as usize;
        let mut p = if vx::param(0) < 8 { b"im.".to_vec() } else { vec![] };
        let x = vx::any::<8>("letters");
        for c in &x[..n] {
            vx::assume(*c >= 1 && *c < 0x80 && *c != b'/');
            p.push(*c);
        }
        // an extension follows the last dot, which is not the first character
        let mut dot = 0;
        for i in 1..p.len() {
            if p[i] == b'.' {
                dot = i;
            }
        }
        let l = |i: usize| p[dot + i] | 0x20;
        let is = |a: u8, b: u8| dot > 0 && p.len() == dot + 4 && p[dot + 1] | 0x20 == b'd' && p[dot + 2] == a && p[dot + 3] == b;
        let want = if is(b'6', b'4') {
            Some(0)
        } else if is(b'7', b'1') {
            Some(1)
        } else if is(b'8', b'1') {
            Some(2)
        } else {
            None
        };
        if want.is_some() {
            vx::check(l(1) == b'd', "a disk image");
            vx::reach(2);
        }
        let got = DiskType::from_extension(std::str::from_utf8(&p).unwrap()).map(|t| match t {
            DiskType::D64 => 0,
            DiskType::D71 => 1,
            DiskType::D81 => 2,
        });
        vx::check(got == want, "the kind the extension tells");
        vx::reach(1);
    }

    /// params: letters. Which names tell the type of a file.
    fn h_type_name() {
        let n = vx::param(0) as usize;
        let x = vx::any::<8>("letters");
        let mut u = vec![];
        for c in &x[..n] {
            vx::assume(*c < 0x80);
            u.push(if *c >= b'a' && *c <= b'z' { *c - 32 } else { *c });
        }
        let got = FileType::from_string(std::str::from_utf8(&x[..n]).unwrap());
        let mut want = None;
        for (w, t) in [(b"DEL", FileType::DEL), (b"SEQ", FileType::SEQ), (b"PRG", FileType::PRG), (b"USR", FileType::USR), (b"REL", FileType::REL)] {
            if u[..] == w[..] {
                want = Some(t);
                vx::reach(2);
            }
        }
        vx::check(got == want, "the type the name tells, in either case");
        vx::reach(1);
    }

    /// params: kind. Sizes that are no image, and names that point to another kind.
    fn h_open_bad() {
        let k = vx::param(0);
        let sizes = [image_size(k, false) - 256, image_size(k, false) - 1, image_size(k, false) + 1, image_size(k, true) - 1, image_size(k, true) + 1, image_size(k, true) + 256, 256];
        let n = sizes[vx::pick("size", sizes.len() as u64) as usize];
        let v = vec![1u8; n];
        let which = vx::pick("name", 4) as usize;
        let name = NAMES[base_kind(k)][which];
        vx::file_make(name, &v);
        let w = vx::pick("writable", 2) == 1;
        vx::check(matches!(cbm::disk::open(name, w), Err(ref e) if is(e, DiskError::InvalidLayout)), "an image of no known size is refused");
        vx::check(matches!(open_typed(k, name, w), Err(ref e) if is(e, DiskError::InvalidLayout)), "an image of no known size is refused");
        vx::check(whole(name, n) == v, "opening changes nothing");
        // an extension decides over the size
        let v = vec![2u8; image_size(k, false)];
        let o = (base_kind(k) + 1) % 3;
        let name = NAMES[o][which % 2];
        vx::file_make(name, &v);
        vx::check(matches!(cbm::disk::open(name, w), Err(ref e) if is(e, DiskError::InvalidLayout)), "a name of another kind is refused");
        vx::check(matches!(cbm::disk::open("missing.d64", w), Err(ref e) if e.kind() == std::io::ErrorKind::NotFound), "missing file");
        vx::check(matches!(cbm::disk::open("missing", w), Err(ref e) if e.kind() == std::io::ErrorKind::NotFound), "missing file");
        vx::reach(1);
    }

    /// params: kind, error table. Creating image files.
    fn h_create_image() {
        let k = vx::param(0);
        let err = vx::param(1) == 1;
        let n = image_size(k, err);
        let name = "new.img";
        let mode = vx::pick("mode", 4);
        let old = vec![0x55u8; [0, 100, n, n + 777][vx::pick("old", 4) as usize]];
        let fill = vx::any::<16>("old");
        let mut old = old;
        if old.len() > 100 {
            old[90..106].copy_from_slice(&fill);
            let l = old.len();
            old[l - 16..].copy_from_slice(&fill);
        }
        match mode {
            0 | 1 => {
                // no file there
                let r = create_typed(k, name, err, mode == 0);
                vx::check(r.is_ok(), "created");
                let mut d = r.unwrap();
                vx::check(whole(name, n).iter().all(|x| *x == 0), "a blank image");
                d.write_format(&"FRESH".into(), &"F1".into()).unwrap();
                let a = whole(name, n);
                vx::check(a[..total_sectors(k) * 256] == snap(&*d, k).data[..], "the image file follows");
                drop(d);
                vx::check(open_typed(k, name, false).unwrap().blocks_free().unwrap() == data_blocks(k), "opens again");
                vx::reach(1);
            }
            2 => {
                vx::file_make(name, &old);
                let r = create_typed(k, name, err, true);
                vx::check(matches!(r, Err(ref e) if e.kind() == std::io::ErrorKind::AlreadyExists), "an existing file is not overwritten");
                vx::check(whole(name, old.len()) == old, "and kept as it is");
                vx::reach(2);
            }
            _ => {
                vx::file_make(name, &old);
                let r = create_typed(k, name, err, false);
                vx::check(r.is_ok(), "replaced");
                drop(r);
                vx::check(whole(name, n).iter().all(|x| *x == 0), "by a blank image");
                vx::reach(3);
            }
        }
    }

    /// params: kind, error table, first track, last track. Any location and any write.
    fn h_addr() {
        let k = vx::param(0);
        let err = vx::param(1) == 1;
        let (lo, hi) = (vx::param(2) as u8, vx::param(3) as u8);
        let v = image(k, err);
        vx::file_make("a.img", &v);
        let mut d = cbm::disk::open("a.img", true).unwrap();
        let mut x = vx::any::<2>("location");
        vx::assume(x[0] >= lo && x[0] <= hi);
        let mut valid = false;
        if hi >= 1 && lo <= tracks(k) {
            x[0] = vx::split_u8(x[0]);
            valid = x[0] != 0 && x[0] <= tracks(k) && vx::split((x[1] < nsec(k, x[0])) as u64) == 1;
            if valid {
                x[1] = vx::split_u8(x[1]);
            }
        }
        let data = vx::any::<256>("data");
        let l = loc!(d, x[0], x[1]);
        let r = d.read_sector(l);
        let l = loc!(d, x[0], x[1]);
        let w = d.write_sector(l, &data);
        let mut want = v.clone();
        if valid {
            let o = index(k, x[0], x[1]) * 256;
            vx::check(r.unwrap() == v[o..o + 256], "the sector at that place of the image");
            vx::check(w.is_ok(), "written");
            want[o..o + 256].copy_from_slice(&data);
            let l = loc!(d, x[0], x[1]);
            vx::check(d.read_sector(l).unwrap() == data, "read back");
            vx::reach(1);
        } else {
            vx::check(matches!(r, Err(ref e) if is(e, DiskError::InvalidLocation)), "no such sector");
            vx::check(matches!(w, Err(ref e) if is(e, DiskError::InvalidLocation)), "no such sector");
            vx::reach(2);
        }
        vx::check(whole("a.img", v.len()) == want, "exactly that sector of the image file changes");
        let b = d.blocks_ref();
        vx::check(!err || b.error_table().unwrap().unwrap() == &v[total_sectors(k) * 256..], "error table kept");
    }

    /// params: kind, error table. Writes of a wrong length; error table writes.
    fn h_write_len() {
        let k = vx::param(0);
        let err = vx::param(1) == 1;
        let v = image(k, err);
        vx::file_make("a.img", &v);
        let mut d = cbm::disk::open("a.img", true).unwrap();
        let n = [0usize, 1, 2, 254, 255, 257, 258, 512][vx::pick("length", 8) as usize];
        let mut data = vec![0u8; n];
        vx::bytes(&mut data, "data");
        let (t, s) = [(1u8, 0u8), (tracks(k), nsec(k, tracks(k)) - 1), (18, 3)][vx::pick("location", 3) as usize];
        let l = loc!(d, t, s);
        vx::check(matches!(d.write_sector(l, &data), Err(ref e) if is(e, DiskError::WriteUnderrun)), "a write that is not one sector is refused");
        vx::check(whole("a.img", v.len()) == v, "and changes nothing");
        let tab = vx::any::<8>("table");
        {
            let mut b = d.blocks_ref_mut();
            match b.error_table_mut().unwrap() {
                Some(x) => {
                    vx::check(err && x.len() == total_sectors(k), "error table");
                    x[..4].copy_from_slice(&tab[..4]);
                    let n = x.len();
                    x[n - 4..].copy_from_slice(&tab[4..]);
                }
                None => vx::check(!err, "no error table"),
            }
            vx::check(b.flush().is_ok(), "flush");
        }
        let mut want = v.clone();
        if err {
            let o = total_sectors(k) * 256;
            want[o..o + 4].copy_from_slice(&tab[..4]);
            let n = want.len();
            want[n - 4..].copy_from_slice(&tab[4..]);
        }
        vx::check(whole("a.img", v.len()) == want, "the error table is one byte per sector after the sectors");
        vx::reach(1);
    }

    /// params: kind, error table. Work on an image file, close it, open it again.
    fn h_persist() {
        let k = vx::param(0);
        let err = vx::param(1) == 1;
        let name = "disk.img";
        let mut d = create_typed(k, name, err, true).unwrap();
        d.write_format(&pet(b"DISK"), &"D1".into()).unwrap();
        let a = vx::any::<300>("a");
        let b = vx::any::<10>("b");
        let nm = vx::any::<4>("name");
        vx::assume(nm[3] != 0xA0 && nm != *b"GONE" && nm != *b"KEEP");
        d.create_file(&pet(b"KEEP"), FileType::PRG, Scheme::Linear).unwrap().writer().unwrap().write_all(&a).unwrap();
        d.create_file(&pet(b"GONE"), FileType::SEQ, Scheme::Linear).unwrap().writer().unwrap().write_all(&b).unwrap();
        let op = vx::pick("op", 4);
        match op {
            0 => d.rename(&pet(b"KEEP"), &pet(&nm)).unwrap(),
            1 => d.open_file(&pet(b"GONE")).unwrap().delete().unwrap(),
            2 => {
                d.header_mut().unwrap().disk_name = pet(&nm);
                d.flush_header().unwrap();
            }
            _ => {
                let f = d.open_file(&pet(b"KEEP")).unwrap();
                let mut w = f.writer().unwrap();
                w.write_all(&b).unwrap();
            }
        }
        let mem = snap(&*d, k);
        let free = d.blocks_free().unwrap();
        let image = whole(name, image_size(k, err));
        vx::check(image[..mem.data.len()] == mem.data[..], "the file holds what the disk shows");
        drop(d);
        vx::check(whole(name, image_size(k, err)) == image, "closing adds nothing");
        let w = vx::pick("writable", 2) == 1;
        let mut d = open_typed(k, name, w).unwrap();
        vx::check(d.blocks_free().unwrap() == free, "blocks free");
        let n1: &[u8] = if op == 0 { &nm } else { b"KEEP" };
        let mut want = a.to_vec();
        if op == 3 {
            want.extend_from_slice(&b);
        }
        match d.open_file(&pet(n1)) {
            Ok(f) => vx::check(read_all(&f) == want, "contents"),
            Err(_) => vx::check(false, "the file is there"),
        }
        match d.open_file(&pet(b"GONE")) {
            Ok(f) => vx::check(op != 1 && read_all(&f) == b, "contents"),
            Err(_) => vx::check(op == 1, "the other file is there unless deleted"),
        }
        let hn = d.name().unwrap().as_bytes().to_vec();
        vx::check(hn[..4] == if op == 2 { nm } else { *b"DISK" } && hn[4..].iter().all(|x| *x == 0xA0), "disk name");
        vx::check(snap(&*d, k).data == mem.data, "the image is the same");
        vx::check(matches!(d.validate(), Ok(ref e) if e.is_empty()), "valid");
        let _ = &mut d;
        vx::reach(1);
    }

    /// params: kind, arbitrary sectors?. Nothing changes a read-only image; what is refused changes nothing in memory.
    fn h_read_only() {
        let k = vx::param(0);
        // a disk with two files
        let mut m = fresh(k);
        let a = vx::any::<300>("a");
        m.create_file(&pet(b"ONE"), FileType::PRG, Scheme::Linear).unwrap().writer().unwrap().write_all(&a).unwrap();
        if vx::param(1) == 2 {
            // a GEOS file and a relative file
            crate::recs::put_geos(&mut *m, k, true, true, &[2, 0, 1], 50);
            let s = crate::recs::scatter(k, 40, 3);
            crate::recs::put_chain(&mut *m, &s[..2], 200, "rel");
            crate::recs::put_side(&mut *m, &s[2..], &s[..2], 227);
            crate::chain::alloc_raw(&mut *m, &s);
            crate::recs::put_entry(&mut *m, k, 2, 0x84, s[0], b"REL", [s[2].0, s[2].1, 227, 0, 0, 0, 0, 0, 0], 3);
            m.initialize();
        }
        m.create_file(&pet(b"TWO"), FileType::SEQ, Scheme::Linear).unwrap().writer().unwrap().write_all(&a[..20]).unwrap();
        if vx::param(1) == 1 {
            // the first directory sector is full
            let f = first_dir(k);
            for i in 2..8 {
                poke(&mut *m, f.0, f.1, i * 32 + 2, &[0x82, 17, 5, b'F', i as u8, 0xA0]);
            }
        }
        let v = snap(&*m, k).data;
        drop(m);
        // by kind, by extension, by size
        let way = if vx::param(2) == 1 { vx::pick("way", 3) } else { 0 };
        let name = NAMES[base_kind(k)][[3, 1, 2][way as usize]];
        vx::file_make(name, &v);
        let mut d = if way == 0 { open_typed(k, name, false).unwrap() } else { cbm::disk::open(name, false).unwrap() };
        let free = d.blocks_free().unwrap();
        let n = d.directory().unwrap().len();
        let first = d.bam().unwrap().borrow().next_free_block(None).unwrap();
        let data = vx::any::<256>("data");
        let ro = |r: std::io::Result<()>| vx::check(matches!(r, Err(ref e) if is(e, DiskError::ReadOnly)), "refused as read-only");
        for round in 0..vx::param(2) {
        let op = vx::pick(if round == 0 { "op" } else { "op2" }, 19);
        match op {
            0 => {
                let l = loc!(d, 1, 0);
                ro(d.write_sector(l, &data))
            }
            1 => ro(d.header_mut().map(|_| ())),
            2 => ro(d.flush_header()),
            3 => ro(d.write_format(&"NEW".into(), &"N1".into())),
            4 => ro(d.create_file(&pet(b"NEW"), FileType::PRG, Scheme::Linear).map(|_| ())),
            5 => ro(d.rename(&pet(b"ONE"), &pet(b"NEW"))),
            6 => ro(d.open_file(&pet(b"ONE")).unwrap().delete()),
            7 => {
                let e = d.find_directory_entry(&pet(b"TWO")).unwrap();
                ro(d.write_directory_entry(&e))
            }
            8 => ro(d.blocks_ref_mut().error_table_mut().map(|_| ())),
            9 => {
                let f = d.open_file(&pet(b"TWO")).unwrap();
                let r = f.writer();
                match r {
                    Err(e) => ro(Err(e)),
                    Ok(mut w) => {
                        let r = w.write_all(&data[..10]).and_then(|_| w.flush());
                        vx::check(r.is_err(), "writing is refused");
                    }
                }
            }
            10 => {
                let b = d.bam().unwrap();
                let r = b.borrow_mut().flush();
                ro(r)
            }
            11 => ro(d.blocks_ref().check_writability()),
            12 => {
                let r = d.next_free_directory_entry();
                if vx::param(1) == 1 {
                    ro(r.map(|_| ()));
                } else {
                    vx::check(r.is_ok(), "a free slot can be looked up");
                }
            }
            13 => ro(d.open_file(&pet(if vx::param(1) == 2 { b"GEOSFILE" } else { b"TWO" })).unwrap().delete()),
            14 => ro(d.open_file(&pet(if vx::param(1) == 2 { b"REL" } else { b"ONE" })).unwrap().delete()),
            15 => {
                // more than fits in the last block
                let f = d.open_file(&pet(b"ONE")).unwrap();
                let r = f.writer();
                match r {
                    Err(e) => ro(Err(e)),
                    Ok(mut w) => {
                        let r = w.write_all(&data).and_then(|_| w.write_all(&data)).and_then(|_| w.flush());
                        vx::check(r.is_err(), "writing is refused");
                    }
                }
            }
            16 => ro(d.blocks_ref_mut().flush()),
            17 => {
                let l = loc!(d, 17, 1);
                ro(d.blocks_ref_mut().sector_mut(l).map(|_| ()))
            }
            _ => {
                // reading is possible
                let f = d.open_file(&pet(b"ONE")).unwrap();
                let mut x = vec![];
                f.reader().unwrap().read_to_end(&mut x).unwrap();
                vx::check(x == a, "contents");
                vx::check(d.validate().is_ok() && f.occupied_sectors().unwrap().len() == 2, "read access");
                vx::check(d.open_file(&pet(b"NONE")).is_err(), "read access");
                d.initialize();
            }
        }
        }
        vx::check(whole(name, v.len()) == v, "the image file is unchanged");
        vx::check(snap(&*d, k).data == v, "the disk is unchanged");
        vx::check(d.blocks_free().unwrap() == free, "blocks free unchanged");
        vx::check(d.directory().unwrap().len() == n, "listing unchanged");
        vx::check(d.bam().unwrap().borrow().next_free_block(None).unwrap() == first, "allocation state unchanged");
        vx::check(d.name().unwrap().as_bytes()[..9] == *b"\x54\x45\x53\x54 \x44\x49\x53\x4B", "name unchanged");
        vx::check(read_all(&d.open_file(&pet(b"TWO")).unwrap()) == a[..20], "files still readable");
        drop(d);
        vx::check(whole(name, v.len()) == v, "the image file is unchanged after closing");
        vx::reach(1);
    }
}
