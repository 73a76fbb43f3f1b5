//! Linear file contents: write/read round trip.
use crate::util::*;
use crate::vx;
use cbm::disk::directory::*;
use cbm::disk::file::*;
use cbm::disk::*;
use std::io::{Read, Write};

fn put(w: &mut dyn Write, data: &[u8]) {
    w.write_all(data).unwrap();
}
fn name() -> cbm::Petscii {
    pet(b"HELLO")
}
/// Split a length in lo..=hi.
pub fn pick_len(n: &str, lo: usize, hi: usize) -> usize {
    let v = vx::u16(n) as usize;
    vx::assume(v >= lo && v <= hi);
    vx::split(v as u64) as usize
}

harnesses! {
    /// params: kind, lo, hi, cut mode, read buffer size
    /// Create, write `n` arbitrary bytes in two pieces, read back with the given buffer size.
    fn h_rw() {
        let k = vx::param(0);
        let (lo, hi) = (vx::param(1) as usize, vx::param(2) as usize);
        let mut d = fresh(k);
        let n = pick_len("len", lo, hi);
        let mut data = vec![0u8; n];
        vx::bytes(&mut data, "data");
        let cut = match vx::param(3) {
            0 => n,
            1 => 1.min(n),
            2 => n - 1.min(n),
            3 => 254.min(n),
            4 => 255.min(n),
            _ => pick_len("cut", 0, n),
        };
        let f = d.create_file(&name(), FileType::PRG, Scheme::Linear).unwrap();
        let mut w = f.writer().unwrap();
        put(&mut *w, &data[..cut]);
        if vx::param(5) == 1 {
            w.flush().unwrap();
            w.flush().unwrap();
            let f = d.open_file(&name()).unwrap();
            vx::check(read_all(&f) == data[..cut], "what was flushed can be read");
        }
        put(&mut *w, &data[cut..]);
        w.flush().unwrap();
        drop(w);
        let f = d.open_file(&name()).unwrap();
        vx::note("blocks", f.entry().file_size as u64);
        vx::check(f.entry().file_size as usize == blocks_for(n), "entry shows the number of blocks");
        vx::check(f.entry().file_attributes.closed_flag, "file is closed");
        vx::check(f.entry().file_attributes.file_type == FileType::PRG, "file type kept");
        let out = match vx::param(4) {
            0 => read_all(&f),
            b => read_chunked(&mut *f.reader().unwrap(), b as usize, n + 2000),
        };
        vx::check(out.len() == n, "length read back");
        vx::check(out == data, "contents read back");
        vx::check(f.record(0).unwrap() == data, "record 0 is the contents");
        // the same through a re-read of the image
        d.initialize();
        let f = d.open_file(&name()).unwrap();
        vx::check(read_all(&f) == data, "contents survive re-reading the image");
        vx::reach(1);
    }

    /// params: kind, lo1, hi1, extra. Append to an existing file through a fresh handle.
    fn h_append() {
        let k = vx::param(0);
        let mut d = fresh(k);
        let n = pick_len("len", vx::param(1) as usize, vx::param(2) as usize);
        let m = vx::param(3) as usize;
        let mut data = vec![0u8; n + m];
        vx::bytes(&mut data, "data");
        {
            let f = d.create_file(&name(), FileType::SEQ, Scheme::Linear).unwrap();
            let mut w = f.writer().unwrap();
            put(&mut *w, &data[..n]);
        }
        d.initialize();
        {
            let f = d.open_file(&name()).unwrap();
            let mut w = f.writer().unwrap();
            put(&mut *w, &data[n..]);
        }
        d.initialize();
        let f = d.open_file(&name()).unwrap();
        vx::check(f.entry().file_size as usize == blocks_for(n + m), "entry shows the number of blocks");
        vx::check(read_all(&f) == data, "appended contents read back");
        vx::note("free", d.blocks_free().unwrap() as u64);
        vx::check(d.blocks_free().unwrap() == data_blocks(k) - blocks_for(n + m), "blocks free accounts for the file");
        vx::reach(1);
    }

    /// params: kind, blocks. One long file; every 97th byte and the last one arbitrary.
    fn h_rw_long() {
        let k = vx::param(0);
        let n = vx::param(1) as usize * 254 - vx::param(2) as usize;
        // this much is appended with a second writer
        let tail = vx::param(3) as usize;
        let mut d = fresh(k);
        let mut data = vec![0u8; n];
        for i in 0..n {
            data[i] = (i % 251) as u8;
        }
        let x = vx::any::<64>("data");
        for i in 0..63 {
            data[(i * 2711 + 253) % n] = x[i];
        }
        data[n - 1] = x[63];
        {
            let f = d.create_file(&name(), FileType::USR, Scheme::Linear).unwrap();
            let mut w = f.writer().unwrap();
            put(&mut *w, &data[..n - tail]);
            w.flush().unwrap();
        }
        if tail > 0 {
            d.initialize();
            let f = d.open_file(&name()).unwrap();
            let mut w = f.writer().unwrap();
            put(&mut *w, &data[n - tail..]);
            w.flush().unwrap();
        }
        d.initialize();
        let f = d.open_file(&name()).unwrap();
        vx::check(f.entry().file_size as usize == blocks_for(n), "entry shows the number of blocks");
        vx::check(f.occupied_sectors().unwrap().len() == blocks_for(n), "occupies that many sectors");
        vx::check(read_all(&f) == data, "contents read back");
        vx::check(d.blocks_free().unwrap() == data_blocks(k) - blocks_for(n), "blocks free accounts for the file");
        vx::reach(1);
    }

    /// params: kind, pieces. Pieces of sizes around the block size, with nothing, a flush or a new writer in between.
    fn h_pieces() {
        let k = vx::param(0);
        let n = vx::param(1) as usize;
        let ty = [FileType::SEQ, FileType::PRG, FileType::USR][n % 3];
        let mut d = fresh(k);
        let mut data = vec![];
        let f = d.create_file(&name(), ty, Scheme::Linear).unwrap();
        let mut w = Some(f.writer().unwrap());
        for i in 0..n {
            let len = [0, 1, 126, 253, 254, 255, 509][vx::pick(["len0", "len1", "len2", "len3"][i], 7) as usize];
            let mut x = vec![0u8; len];
            vx::bytes(&mut x, "data");
            put(&mut **w.as_mut().unwrap(), &x);
            data.extend_from_slice(&x);
            if i + 1 == n {
                break;
            }
            match vx::pick(["then0", "then1", "then2", "then3"][i], 5) {
                0 => {}
                1 => w.as_mut().unwrap().flush().unwrap(),
                2 => {
                    w = None;
                    w = Some(d.open_file(&name()).unwrap().writer().unwrap());
                }
                3 => {
                    // the handle the file was created with
                    w = None;
                    w = Some(f.writer().unwrap());
                }
                _ => {
                    w = None;
                    d.initialize();
                    w = Some(d.open_file(&name()).unwrap().writer().unwrap());
                }
            }
        }
        drop(w);
        for again in [false, true] {
            if again {
                d.initialize();
            }
            let f = d.open_file(&name()).unwrap();
            vx::check(f.entry().file_size as usize == blocks_for(data.len()), "entry shows the number of blocks");
            vx::check(f.entry().file_attributes.closed_flag, "file is closed");
            vx::check(f.entry().file_attributes.file_type == ty, "file type kept");
            vx::check(read_all(&f) == data, "contents read back");
            vx::check(f.occupied_sectors().unwrap().len() == blocks_for(data.len()), "occupies that many sectors");
        }
        vx::check(d.blocks_free().unwrap() == data_blocks(k) - blocks_for(data.len()), "blocks free accounts for the file");
        if vx::param(2) == 1 {
            vx::check(matches!(d.validate(), Ok(ref v) if v.is_empty()), "the disk is valid");
        }
        vx::reach(1);
    }

    /// params: kind, length, largest buffer. Every reader buffer size, throughout or for the first read only.
    fn h_readsize() {
        let k = vx::param(0);
        let n = vx::param(1) as usize;
        let mut d = fresh(k);
        let mut data = vec![0u8; n];
        vx::bytes(&mut data, "data");
        put(&mut *d.create_file(&name(), FileType::SEQ, Scheme::Linear).unwrap().writer().unwrap(), &data);
        let b = pick_len("size", 0, vx::param(2) as usize);
        let f = d.open_file(&name()).unwrap();
        if b > 0 {
            vx::check(read_chunked(&mut *f.reader().unwrap(), b, n + 2000) == data, "contents read back with this buffer");
        }
        let mut r = f.reader().unwrap();
        let mut v = vec![0u8; b];
        let got = r.read(&mut v).unwrap();
        vx::check(got <= b, "reader returns at most the buffer size");
        v.truncate(got);
        r.read_to_end(&mut v).unwrap();
        vx::check(v == data, "the rest follows the first piece");
        vx::check(r.read(&mut [0u8; 10]).unwrap() == 0, "the end stays the end");
        vx::reach(1);
    }
}
