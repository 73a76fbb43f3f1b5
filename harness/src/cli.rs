//! The command-line program: run with its arguments on an image file, compared with what the commands say.
use crate::img::*;
use crate::loc;
use crate::program::vx_entry;
use crate::recs;
use crate::util::*;
use crate::vx;
use cbm::disk::directory::*;
use cbm::disk::file::*;
use cbm::disk::*;
use cbm::Petscii;
use std::io::Write;

struct Run {
    code: i32,
    out: Vec<u8>,
    err: Vec<u8>,
}
fn slurp(name: &str) -> Option<Vec<u8>> {
    let n = vx::file_read(name, &mut []);
    if n == u64::MAX {
        return None;
    }
    let mut v = vec![0u8; n as usize];
    vx::file_read(name, &mut v);
    Some(v)
}
fn run(args: &[&str]) -> Run {
    let mut a = vec!["cdisk"];
    a.extend_from_slice(args);
    let code = vx::program(&a, vx_entry);
    Run { code, out: slurp("vx_stdout").unwrap(), err: slurp("vx_stderr").unwrap() }
}
fn ok(r: &Run, out: &[u8]) {
    vx::check(r.code == 0, "exit status 0");
    vx::check(r.err.is_empty(), "no complaint");
    vx::check(r.out == out, "output");
}
fn failed(r: &Run) {
    vx::check(r.code != 0, "failure is reported by the exit status");
    vx::check(!r.err.is_empty(), "failure is reported on standard error");
}
/// A name with an arbitrary printable character in it.
fn any_name(b: &mut [u8; 3]) -> &str {
    b[0] = b'n';
    b[1] = vx::u8("letter");
    b[2] = b'm';
    vx::assume(b[1] >= 0x20 && b[1] < 0x7f);
    std::str::from_utf8(b).unwrap()
}
fn name_of(k: u64) -> &'static str {
    ["a.d64", "a.d71", "a.d81"][base_kind(k)]
}
/// An image file with a plain file of 300 arbitrary bytes and one of 20.
fn setup(k: u64) -> (&'static str, Vec<u8>) {
    let mut m = fresh(k);
    let a = vx::any::<300>("a").to_vec();
    m.create_file(&"one".into(), FileType::PRG, Scheme::Linear).unwrap().writer().unwrap().write_all(&a).unwrap();
    m.create_file(&"two".into(), FileType::SEQ, Scheme::Linear).unwrap().writer().unwrap().write_all(&a[..20]).unwrap();
    let n = name_of(k);
    vx::file_make(n, &snap(&*m, k).data);
    (n, a)
}
fn image_of(k: u64) -> Vec<u8> {
    whole(name_of(k), image_size(k, false))
}
fn content(d: &dyn Disk, n: &str) -> Option<Vec<u8>> {
    d.open_file(&n.into()).ok().map(|f| read_all(&f))
}
fn names(d: &dyn Disk) -> Vec<String> {
    d.directory().unwrap().iter().map(|e| e.filename.to_string()).collect()
}
fn valid(d: &dyn Disk) -> bool {
    matches!(d.validate(), Ok(ref v) if v.is_empty())
}

harnesses! {
    /// params: kind. Reading files out of the image.
    fn h_cli_read() {
        let k = vx::param(0);
        let (n, a) = setup(k);
        let before = image_of(k);
        match vx::pick("how", 4) {
            0 => {
                ok(&run(&[n, "read", "one", "out"]), b"");
                vx::check(slurp("out") == Some(a), "the file's contents");
            }
            1 => {
                ok(&run(&[n, "read", "one"]), b"");
                vx::check(slurp("one") == Some(a), "the file's contents");
            }
            2 => {
                // an existing longer file is replaced
                vx::file_make("out", &[7u8; 500]);
                ok(&run(&[n, "read", "two", "out"]), b"");
                vx::check(slurp("out") == Some(a[..20].to_vec()), "the file's contents");
            }
            _ => {
                for i in 0..20 {
                    vx::assume(a[i] != 10);
                }
                ok(&run(&[n, "read", "two", "-"]), &a[..20]);
            }
        }
        vx::check(image_of(k) == before, "reading changes nothing");
        vx::reach(1);
    }

    /// params: kind. Writing a file into the image and appending to one.
    fn h_cli_write() {
        let k = vx::param(0);
        let (n, a) = setup(k);
        let len = [0usize, 1, 253, 254, 255, 600][vx::pick("len", 6) as usize];
        let data = vx::any::<600>("data")[..len].to_vec();
        let how = vx::pick("how", 7);
        vx::file_make("src", &data);
        let mut ty = FileType::SEQ;
        let mut t = [0; 3];
        let mut dest = "src";
        let mut want = data.clone();
        match how {
            0 => ok(&run(&[n, "write", "src"]), b""),
            1 => {
                ty = FileType::PRG;
                dest = any_name(&mut t);
                ok(&run(&[n, "write", "-t", "prg", "src", dest]), b"");
            }
            2 => {
                ty = FileType::USR;
                dest = "other name here";
                ok(&run(&[n, "write", "--type", "usr", "src", dest]), b"");
            }
            3 => {
                vx::file_make("vx_stdin", &data);
                dest = "sixteen chars ok";
                ok(&run(&[n, "write", "-", dest]), b"");
            }
            4 => {
                ty = FileType::PRG;
                dest = "one";
                want = [&a[..], &data[..]].concat();
                ok(&run(&[n, "append", "src", "one"]), b"");
            }
            5 => {
                // by the name of the source
                vx::file_make("two", &data);
                dest = "two";
                want = [&a[..20], &data[..]].concat();
                ok(&run(&[n, "append", "two"]), b"");
            }
            _ => {
                vx::file_make("vx_stdin", &data);
                dest = "two";
                want = [&a[..20], &data[..]].concat();
                ok(&run(&[n, "append", "-", "two"]), b"");
            }
        }
        let d = open_typed(k, n, false).unwrap();
        vx::check(content(&*d, dest) == Some(want), "the contents");
        let e = d.find_directory_entry(&dest.into()).unwrap();
        vx::check(e.file_attributes.file_type == ty && e.file_attributes.closed_flag, "the type");
        let l = names(&*d);
        vx::check(l.len() == if how < 4 { 3 } else { 2 } && l[0] == "one" && l[1] == "two", "the other files");
        if dest != "one" {
            vx::check(content(&*d, "one") == Some(a.clone()), "the other file");
        }
        if dest != "two" {
            vx::check(content(&*d, "two") == Some(a[..20].to_vec()), "the other file");
        }
        vx::check(valid(&*d), "a valid disk");
        vx::reach(1);
    }

    /// params: kind, shape. Converting a GEOS file.
    fn h_cli_geos() {
        let k = vx::param(0);
        let (vlir, sh) = recs::shape(vx::param(1));
        let mut m = fresh(k);
        let g = recs::put_geos(&mut *m, k, vlir, true, sh, 100);
        // the names below are those of the stored codes
        let f = first_dir(k);
        let shown: Petscii = "geosfile".into();
        poke(&mut *m, f.0, f.1, 32 + 5, shown.as_bytes());
        m.initialize();
        let n = name_of(k);
        vx::file_make(n, &snap(&*m, k).data);
        let before = image_of(k);
        let mut want = recs::cvt(&g, vlir, g.owned.len());
        want[3..11].copy_from_slice(shown.as_bytes());
        let out = if vx::pick("dest", 2) == 0 {
            ok(&run(&[n, "geosread", "geosfile"]), b"");
            "geosfile"
        } else {
            ok(&run(&[n, "geosread", "geosfile", "out.cvt"]), b"");
            "out.cvt"
        };
        vx::check(slurp(out) == Some(want), "the Convert stream");
        vx::check(image_of(k) == before, "reading changes nothing");
        vx::reach(1);
    }

    /// params: kind. Renaming, deleting, formatting, allocating.
    fn h_cli_change() {
        let k = vx::param(0);
        let (n, a) = setup(k);
        let before = { let d = open_typed(k, n, false).unwrap(); snap(&*d, k) };
        let free = { let d = open_typed(k, n, false).unwrap(); d.blocks_free().unwrap() };
        let (lt, dt) = (dos_tracks(k), dir_track(k));
        match vx::pick("what", 4) {
            0 => {
                let mut t = [0; 3];
                let to = if vx::pick("long", 2) == 1 { "sixteen chars ok" } else { any_name(&mut t) };
                ok(&run(&[n, "rename", "one", to]), b"");
                let d = open_typed(k, n, false).unwrap();
                let want: Petscii = to.into();
                let l: Vec<Petscii> = d.directory().unwrap().into_iter().map(|e| e.filename).collect();
                vx::check(l == [want, "two".into()], "renamed");
                vx::check(content(&*d, to) == Some(a.clone()) && content(&*d, "two") == Some(a[..20].to_vec()), "contents kept");
                vx::check(d.blocks_free().unwrap() == free && valid(&*d), "a valid disk");
            }
            1 => {
                let (gone, kept, blocks) = [("one", "two", 2), ("two", "one", 1)][vx::pick("file", 2) as usize];
                ok(&run(&[n, "delete", gone]), b"");
                let d = open_typed(k, n, false).unwrap();
                vx::check(names(&*d) == [kept], "deleted");
                vx::check(content(&*d, kept).unwrap() == if gone == "one" { &a[..20] } else { &a[..] }, "the other file");
                vx::check(d.blocks_free().unwrap() == free + blocks && valid(&*d), "its blocks are free");
            }
            2 => {
                let mut t = [0; 3];
                let name = any_name(&mut t).to_string();
                let name = &name[..];
                let id = std::str::from_utf8(&t[1..]).unwrap();
                vx::assume(t[1] != b'-');
                ok(&run(&[n, "format", name, id]), b"");
                let mut m = blank(k);
                m.write_format(&name.into(), &id.into()).unwrap();
                vx::check(image_of(k) == snap(&*m, k).data, "an empty disk of that name and id");
            }
            _ => {
                // allocation map
                let alloc = vx::pick("allocate", 2) == 1;
                let word = if alloc { "allocate" } else { "free" };
                let t = [1u8, dt, lt, 0][vx::pick("track", 4) as usize];
                let (ts, all_t) = (t.to_string(), t == 0);
                let all_s = vx::pick("all", 2) == 1;
                let s = if all_s { 0 } else { [0u8, if all_t { 16 } else { nsec(k, t) - 1 }][vx::pick("sector", 2) as usize] };
                let ss = s.to_string();
                ok(&run(&[n, "bam", word, if all_t { "all" } else { &ts }, if all_s { "all" } else { &ss }]), b"");
                let d = open_typed(k, n, false).unwrap();
                let after = snap(&*d, k);
                for (x, y) in locations(k) {
                    if x > lt {
                        continue;
                    }
                    let hit = (all_t || x == t) && (all_s || y == s);
                    vx::check(after.free_bit(x, y) == if hit { !alloc } else { before.free_bit(x, y) }, "exactly the sectors named");
                    if !bam_sectors(k).contains(&(x, y)) {
                        vx::check(after.sec(x, y) == before.sec(x, y), "nothing else");
                    }
                }
                for x in 1..=lt {
                    let c = (0..nsec(k, x)).filter(|y| after.free_bit(x, *y)).count();
                    vx::check(after.free_count(x) as usize == c, "free counts");
                }
            }
        }
        vx::reach(1);
    }

    /// Creating image files.
    fn h_cli_create() {
        let (n, size, msg) = [("n.d64", 174848usize, ""), ("N.D71", 349696, ""), ("n.d81", 819200, ""), ("n", 174848, "Unknown file extension.  Assuming D64...\n")][vx::pick("name", 4) as usize];
        if vx::pick("there", 2) == 1 {
            let old = vx::any::<40>("old");
            vx::file_make(n, &old);
            failed(&run(&[n, "create"]));
            vx::check(slurp(n).unwrap() == old, "an existing file is kept");
            vx::reach(2);
            return;
        }
        ok(&run(&[n, "create"]), msg.as_bytes());
        vx::check(slurp(n) == Some(vec![0u8; size]), "a blank image");
        vx::reach(1);
    }

    /// params: kind. What is shown.
    fn h_cli_show() {
        let k = vx::param(0);
        let mut m = fresh(k);
        let a = vx::any::<4>("a");
        let mut data = vec![65u8; 300];
        data[0] = a[0];
        data[255] = a[1];
        m.create_file(&"one".into(), FileType::PRG, Scheme::Linear).unwrap().writer().unwrap().write_all(&data).unwrap();
        m.create_file(&"two".into(), FileType::SEQ, Scheme::Linear).unwrap().writer().unwrap().write_all(&data[1..21]).unwrap();
        let bad = vx::pick("bad", 3);
        if bad > 0 {
            // sectors nobody owns
            let b = m.bam().unwrap();
            for i in 0..bad {
                let l = loc!(m, 2, 3 + i as u8);
                b.borrow_mut().allocate(l).unwrap();
            }
            b.borrow_mut().flush().unwrap();
        }
        let n = name_of(k);
        vx::file_make(n, &snap(&*m, k).data);
        let before = image_of(k);
        let mut want: Vec<u8> = vec![];
        let what = vx::pick("what", 8);
        let args: Vec<&str> = match what {
            0..=3 => {
                writeln!(want, "{}", &*m as &(dyn Disk + 'static)).unwrap();
                for e in m.directory().unwrap() {
                    if what == 0 {
                        writeln!(want, "{}", e).unwrap();
                    } else {
                        writeln!(want, "{:#}", e).unwrap();
                    }
                    if what > 1 {
                        m.open_file(&e.filename).unwrap().details(&mut want, what as usize - 2).unwrap();
                        writeln!(want).unwrap();
                    }
                }
                writeln!(want, "{} blocks free.", m.blocks_free().unwrap()).unwrap();
                [&[n, "dir"][..], &[n, "dir", "-v"], &[n, "dir", "-vv"], &[n, "dir", "-v", "--verbose", "-v"]][what as usize].to_vec()
            }
            4 => {
                vx::assume(bad == 0 && base_kind(k) == 0);
                m.dump(&mut want).unwrap();
                vec![n, "dump"]
            }
            5 => {
                m.open_file(&"one".into()).unwrap().dump(&mut want).unwrap();
                vec![n, "dump", "one"]
            }
            6 => {
                write!(want, "{:?}", m.bam().unwrap().borrow()).unwrap();
                vec![n, "bam", "show"]
            }
            _ => {
                let r = run(&[n, "validate"]);
                let mut got: Vec<&[u8]> = r.out.split(|b| *b == 10).collect();
                got.sort();
                let v = m.validate().unwrap();
                vx::check(v.len() as u64 == bad, "sectors");
                let mut lines: Vec<String> = v.iter().map(|e| e.to_string()).collect();
                if bad == 0 {
                    lines.push("Disk validates successfully.".into());
                }
                lines.push("".into());
                lines.sort();
                vx::check(got.len() == lines.len() && got.iter().zip(&lines).all(|(x, y)| *x == y.as_bytes()), "what validation finds");
                if bad == 0 {
                    vx::check(r.code == 0 && r.err.is_empty(), "success");
                } else {
                    failed(&r);
                }
                vx::check(image_of(k) == before, "showing changes nothing");
                vx::reach(2);
                return;
            }
        };
        ok(&run(&args), &want);
        vx::check(image_of(k) == before, "showing changes nothing");
        vx::reach(1);
    }

    /// params: kind. Commands that fail.
    fn h_cli_fail() {
        let k = vx::param(0);
        let (n, _) = setup(k);
        let data = vx::any::<10>("data");
        vx::file_make("src", &data);
        vx::file_make("short.d64", &data);
        let before = image_of(k);
        let cmds: &[&[&str]] = &[
            &[n, "read", "none", "out"],
            &[n, "write", "none"],
            &[n, "write", "src", "one"],
            &[n, "write", "src", "seventeen letters"],
            &[n, "append", "src", "none"],
            &[n, "append", "none", "one"],
            &[n, "geosread", "none", "out"],
            &[n, "geosread", "one", "out"],
            &[n, "rename", "none", "new"],
            &[n, "rename", "one", "two"],
            &[n, "rename", "one", "seventeen letters"],
            &[n, "delete", "none"],
            &[n, "format", "a name that does not fit", "x7"],
            &[n, "dump", "none"],
            &[n, "bam", "free", "0", "0"],
            &[n, "bam", "allocate", "81", "0"],
            &[n, "bam", "allocate", "1", "40"],
            &[n, "bam", "free", "x", "0"],
            &[n, "create"],
            &["short.d64", "dir"],
            &["none.d64", "dir"],
            &["none.d64", "format", "a", "b"],
            &[n, "write", "-t", "rel", "src"],
            &[n, "unknown"],
            &[n],
            &[n, "bam"],
            &[n, "delete"],
            &[],
        ];
        let i = vx::pick("command", cmds.len() as u64) as usize;
        failed(&run(cmds[i]));
        vx::check(image_of(k) == before, "a refused command changes nothing");
        vx::check(slurp("none.d64").is_none() && slurp("short.d64") == Some(data.to_vec()) && slurp("src") == Some(data.to_vec()), "nothing is made or changed");
        vx::check(slurp("out").is_none(), "no output file");
        vx::reach(1);
    }

    /// params: kind. Writing to a disk that is full or nearly so.
    fn h_cli_full() {
        let k = vx::param(0);
        let mut m = fresh(k);
        let a = vx::any::<300>("a");
        m.create_file(&"one".into(), FileType::PRG, Scheme::Linear).unwrap().writer().unwrap().write_all(&a).unwrap();
        let left = vx::pick("left", 3);
        {
            let b = m.bam().unwrap();
            let mut b = b.borrow_mut();
            for t in 1..=dos_tracks(k) {
                for s in 0..nsec(k, t) {
                    if !(t == 3 && (s as u64) < left) {
                        let l = loc!(m, t, s);
                        b.allocate(l).unwrap();
                    }
                }
            }
            b.flush().unwrap();
        }
        let n = name_of(k);
        vx::file_make(n, &snap(&*m, k).data);
        let before = image_of(k);
        let data = vx::any::<600>("data");
        let len = [200usize, 254, 255, 508, 509, 600][vx::pick("len", 6) as usize];
        vx::file_make("src", &data[..len]);
        let append = vx::pick("append", 2) == 1;
        let (r, fits) = if append {
            (run(&[n, "append", "src", "one"]), 46 + len <= 254 * (left as usize + 1))
        } else {
            (run(&[n, "write", "src", "new"]), len <= 254 * left as usize)
        };
        let d = open_typed(k, n, false).unwrap();
        if fits {
            ok(&r, b"");
            let want = if append { [&a[..], &data[..len]].concat() } else { data[..len].to_vec() };
            vx::check(content(&*d, if append { "one" } else { "new" }) == Some(want), "the contents");
            vx::reach(1);
        } else {
            failed(&r);
            vx::check(content(&*d, "one").unwrap()[..300] == a, "the file that was there");
            if !append && left == 0 {
                vx::check(image_of(k) == before, "a refused command changes nothing");
            }
            vx::reach(2);
        }
    }

    /// params: kind. Locations the disk does not have.
    fn h_cli_bam_range() {
        let k = vx::param(0);
        let (n, _) = setup(k);
        let before = image_of(k);
        let t = [1u8, 18, 35, 36, 40, 41, 70, 71, 80, 81, 255][vx::pick("track", 11) as usize];
        let s = [0u8, 16, 17, 18, 19, 20, 21, 39, 40, 255][vx::pick("sector", 10) as usize];
        let has = t <= dos_tracks(k) && s < nsec(k, t);
        vx::assume(!has);
        let (ts, ss) = (t.to_string(), s.to_string());
        failed(&run(&[n, "bam", ["free", "allocate"][vx::pick("op", 2) as usize], &ts, &ss]));
        vx::check(image_of(k) == before, "a refused command changes nothing");
        vx::reach(1);
    }
}
