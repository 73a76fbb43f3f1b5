//! Independent description of the on-disk formats, used as the oracle side of the
//! harnesses.  Nothing here is taken from the crate under test; the constants are the
//! published layouts of the 1541/1571/1581.
use cbm::disk::file::*;
use cbm::disk::*;
use cbm::Petscii;

pub const D64K: u64 = 0;
pub const D71K: u64 = 1;
pub const D81K: u64 = 2;
pub const D64_40K: u64 = 3;

/// A `Location` value (the type itself cannot be named outside the crate).
#[macro_export]
macro_rules! loc {
    ($d:expr, $t:expr, $s:expr) => {{
        let mut l = $d.native_disk_format().first_directory_location();
        l.0 = $t;
        l.1 = $s;
        l
    }};
}

pub fn tracks(k: u64) -> u8 {
    match k {
        D64K => 35,
        D71K => 70,
        D81K => 80,
        _ => 40,
    }
}
/// Tracks the DOS manages (40-track images: the first 35).
pub fn dos_tracks(k: u64) -> u8 {
    if k == D64_40K {
        35
    } else {
        tracks(k)
    }
}
pub fn nsec(k: u64, t: u8) -> u8 {
    if k == D81K {
        return 40;
    }
    let t = if k == D71K && t > 35 { t - 35 } else { t };
    match t {
        0 => 0,
        1..=17 => 21,
        18..=24 => 19,
        25..=30 => 18,
        _ => 17,
    }
}
pub fn total_sectors(k: u64) -> usize {
    (1..=tracks(k)).map(|t| nsec(k, t) as usize).sum()
}
pub fn dir_track(k: u64) -> u8 {
    if k == D81K {
        40
    } else {
        18
    }
}
pub fn first_dir(k: u64) -> (u8, u8) {
    if k == D81K {
        (40, 3)
    } else {
        (18, 1)
    }
}
pub fn header_at(k: u64) -> (u8, u8) {
    (dir_track(k), 0)
}
pub fn is_system(k: u64, t: u8, s: u8) -> bool {
    match k {
        D81K => t == 40 && s <= 3,
        D71K => (t == 18 && s <= 1) || t == 53,
        _ => t == 18 && s <= 1,
    }
}
/// Blocks available to files on an empty disk.
pub fn data_blocks(k: u64) -> usize {
    match k {
        D71K => 1328,
        D81K => 3160,
        _ => 664,
    }
}
/// Linear index of a sector in the image.
pub fn index(k: u64, t: u8, s: u8) -> usize {
    (1..t).map(|x| nsec(k, x) as usize).sum::<usize>() + s as usize
}
pub fn locations(k: u64) -> Vec<(u8, u8)> {
    let mut v = Vec::with_capacity(total_sectors(k));
    for t in 1..=tracks(k) {
        for s in 0..nsec(k, t) {
            v.push((t, s));
        }
    }
    v
}

pub fn geometry(k: u64, errors: bool) -> &'static Geometry {
    match k {
        D64K => D64::geometry(errors),
        D71K => D71::geometry(errors),
        D81K => D81::geometry(errors),
        _ => D64::geometry_40_tracks(errors),
    }
}
/// A blank in-memory image.
pub fn blank(k: u64) -> Box<dyn Disk> {
    blank_e(k, false)
}
pub fn blank_e(k: u64, errors: bool) -> Box<dyn Disk> {
    let g = geometry(k, errors);
    match k {
        D71K => Box::new(D71::open_memory(g).unwrap()),
        D81K => Box::new(D81::open_memory(g).unwrap()),
        _ => Box::new(D64::open_memory(g).unwrap()),
    }
}
/// A freshly formatted in-memory image.
pub fn fresh(k: u64) -> Box<dyn Disk> {
    let mut d = blank(k);
    d.write_format(&"test disk".into(), &"t1".into()).unwrap();
    d
}
pub fn pet(b: &[u8]) -> Petscii {
    Petscii::from_bytes(b)
}
pub fn rd(d: &dyn Disk, t: u8, s: u8) -> Vec<u8> {
    d.read_sector(loc!(d, t, s)).unwrap()
}
pub fn wr(d: &mut dyn Disk, t: u8, s: u8, b: &[u8]) {
    let l = loc!(d, t, s);
    d.write_sector(l, b).unwrap()
}
/// Patch bytes of a sector.
pub fn poke(d: &mut dyn Disk, t: u8, s: u8, off: usize, b: &[u8]) {
    let mut v = rd(d, t, s);
    v[off..off + b.len()].copy_from_slice(b);
    wr(d, t, s, &v);
}
pub fn is(e: &std::io::Error, k: DiskError) -> bool {
    DiskError::from_io_error(e) == Some(k)
}

/// The whole image, sector by sector.
pub struct Snap {
    pub k: u64,
    pub data: Vec<u8>,
}
pub fn snap(d: &dyn Disk, k: u64) -> Snap {
    let mut data = Vec::with_capacity(total_sectors(k) * 256);
    for (t, s) in locations(k) {
        data.extend_from_slice(&rd(d, t, s));
    }
    Snap { k, data }
}
impl Snap {
    pub fn sec(&self, t: u8, s: u8) -> &[u8] {
        let i = index(self.k, t, s);
        &self.data[i * 256..i * 256 + 256]
    }
    /// Raw allocation bit: true if the on-disk BAM marks the sector free.
    pub fn free_bit(&self, t: u8, s: u8) -> bool {
        let (b, o) = bitmap_at(self.k, t);
        self.sec(b.0, b.1)[o + s as usize / 8] >> (s % 8) & 1 == 1
    }
    pub fn free_count(&self, t: u8) -> u8 {
        let (b, o) = count_at(self.k, t);
        self.sec(b.0, b.1)[o]
    }
    /// Number of free sectors outside the directory track according to the bitmaps.
    pub fn free_total(&self) -> usize {
        let mut n = 0;
        for t in 1..=dos_tracks(self.k) {
            if t != dir_track(self.k) {
                for s in 0..nsec(self.k, t) {
                    if self.free_bit(t, s) {
                        n += 1;
                    }
                }
            }
        }
        n
    }
    /// Counts agree with bitmaps and no bit beyond the track is set.
    pub fn counts_ok(&self) -> bool {
        let mut ok = true;
        for t in 1..=dos_tracks(self.k) {
            let (b, o) = bitmap_at(self.k, t);
            let n = bitmap_size(self.k);
            let mut c = 0u8;
            for i in 0..n {
                c += self.sec(b.0, b.1)[o + i].count_ones() as u8;
            }
            ok &= c == self.free_count(t);
            for s in nsec(self.k, t) as usize..n * 8 {
                ok &= self.sec(b.0, b.1)[o + s / 8] >> (s % 8) & 1 == 0;
            }
        }
        ok
    }
}
pub fn bitmap_size(k: u64) -> usize {
    if k == D81K {
        5
    } else {
        3
    }
}
/// Where the bitmap of a track is stored: (sector, offset).
pub fn bitmap_at(k: u64, t: u8) -> ((u8, u8), usize) {
    let t = t as usize;
    match k {
        D81K if t <= 40 => ((40, 1), 0x11 + (t - 1) * 6),
        D81K => ((40, 2), 0x11 + (t - 41) * 6),
        D71K if t > 35 => ((53, 0), (t - 36) * 3),
        _ => ((18, 0), 4 + (t - 1) * 4 + 1),
    }
}
/// Where the free-sector count of a track is stored.
pub fn count_at(k: u64, t: u8) -> ((u8, u8), usize) {
    match k {
        D71K if t > 35 => ((18, 0), 0xDD + (t as usize - 36)),
        _ => {
            let (l, o) = bitmap_at(k, t);
            (l, o - 1)
        }
    }
}
/// Overwrite the on-disk BAM entry of a track (call `initialize` afterwards).
pub fn set_bam_raw(d: &mut dyn Disk, k: u64, t: u8, count: u8, map: &[u8]) {
    let (b, o) = bitmap_at(k, t);
    poke(d, b.0, b.1, o, map);
    let (b, o) = count_at(k, t);
    poke(d, b.0, b.1, o, &[count]);
}
/// Mark every sector of a track allocated on disk.
pub fn fill_track(d: &mut dyn Disk, k: u64, t: u8) {
    let z = [0u8; 5];
    set_bam_raw(d, k, t, 0, &z[..bitmap_size(k)]);
}

/// The disk is internally consistent, in memory and when re-read from the image.
pub fn check_consistent(d: &mut dyn Disk, k: u64) {
    let before = snap(d, k);
    let v = d.validate();
    crate::vx::check(matches!(v, Ok(ref e) if e.is_empty()), "validate reports no inconsistency");
    let bf = d.blocks_free().unwrap();
    crate::vx::check(before.counts_ok(), "on-disk BAM counts match the bitmaps");
    crate::vx::check(bf == before.free_total(), "blocks free matches the on-disk bitmap");
    let bam = d.bam().unwrap();
    for t in 1..=dos_tracks(k) {
        let e = *bam.borrow().entry(t).unwrap();
        let mut m = 0u64;
        for s in 0..nsec(k, t) {
            if before.free_bit(t, s) {
                m |= 1 << s;
            }
        }
        crate::vx::check(e.sector_map() == m && e.free_sectors == before.free_count(t), "in-memory BAM is the on-disk BAM");
    }
    d.initialize();
    let v = d.validate();
    crate::vx::check(matches!(v, Ok(ref e) if e.is_empty()), "validate reports no inconsistency after re-reading the image");
    crate::vx::check(d.blocks_free().unwrap() == bf, "blocks free survives re-reading the image");
}

pub fn read_all(f: &File) -> Vec<u8> {
    let mut v = vec![];
    std::io::Read::read_to_end(&mut f.reader().unwrap(), &mut v).unwrap();
    v
}
/// Read through a reader with a fixed buffer size.
pub fn read_chunked(r: &mut dyn std::io::Read, n: usize, cap: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut b = vec![0u8; n];
    loop {
        let k = r.read(&mut b).unwrap();
        crate::vx::check(k <= n, "reader returns at most the buffer size");
        if k == 0 {
            break;
        }
        v.extend_from_slice(&b[..k]);
        crate::vx::check(v.len() <= cap, "reader ends");
    }
    v
}
pub fn blocks_for(len: usize) -> usize {
    if len == 0 {
        1
    } else {
        (len + 253) / 254
    }
}

/// Sectors that hold BAM data.
pub fn bam_sectors(k: u64) -> Vec<(u8, u8)> {
    match k {
        D81K => vec![(40, 1), (40, 2)],
        D71K => vec![(18, 0), (53, 0)],
        _ => vec![(18, 0)],
    }
}
/// Does byte `i` of this sector belong to a bitmap or a free count?
pub fn bam_byte(k: u64, t: u8, s: u8, i: usize) -> bool {
    for x in 1..=dos_tracks(k) {
        let (b, o) = bitmap_at(k, x);
        if b == (t, s) && i >= o && i < o + bitmap_size(k) {
            return true;
        }
        if count_at(k, x) == ((t, s), i) {
            return true;
        }
    }
    false
}
/// Where GEOS puts the border block location and its signature in the header.
pub const GEOS_BORDER: usize = 0xAB;
pub const GEOS_SIG: usize = 0xAD;
/// Turn a formatted disk into a GEOS disk, with an (allocated, empty) border block.
pub fn make_geos(d: &mut dyn Disk, k: u64, border: Option<(u8, u8)>) -> (u8, u8) {
    let (t, s) = border.unwrap_or((dir_track(k) + 1, 8));
    let h = header_at(k);
    poke(d, h.0, h.1, GEOS_BORDER, &[t, s]);
    poke(d, h.0, h.1, GEOS_SIG, b"GEOS format V1.0");
    let z = [0u8; 256];
    wr(d, t, s, &z);
    poke(d, t, s, 0, &[0x00, 0xFF]);
    d.initialize();
    {
        let bam = d.bam().unwrap();
        let l = loc!(d, t, s);
        bam.borrow_mut().allocate(l).unwrap();
        bam.borrow_mut().flush().unwrap();
    }
    d.initialize();
    (t, s)
}
