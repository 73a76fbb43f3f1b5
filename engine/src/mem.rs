//! Object memory: every object has its own 32-bit offset space.
//! address = (object id << 32) + offset.
use crate::expr::*;
use std::rc::Rc;

pub const PG: usize = 256;

#[derive(Clone)]
pub struct Page {
    pub b: Box<[u8]>,
    /// symbolic overlay; 0 = concrete byte
    pub s: Option<Box<[E]>>,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub pages: Vec<Rc<Page>>,
    pub writable: bool,
    pub heap: bool,
}

thread_local! {
    static ZERO: Rc<Page> = Rc::new(Page { b: vec![0; PG].into_boxed_slice(), s: None });
}

impl Obj {
    pub fn new(size: u64, heap: bool) -> Obj {
        let n = (size as usize) / PG;
        let rem = (size as usize) % PG;
        let mut pages = Vec::with_capacity(n + 1);
        if n > 0 {
            let z = ZERO.with(|z| z.clone());
            for _ in 0..n {
                pages.push(z.clone());
            }
        }
        if rem > 0 {
            pages.push(Rc::new(Page { b: vec![0; rem].into_boxed_slice(), s: None }));
        }
        Obj { size, pages, writable: true, heap }
    }
    #[inline]
    pub fn byte(&self, off: u64) -> Result<u8, E> {
        let p = &self.pages[off as usize / PG];
        let i = off as usize % PG;
        if let Some(s) = &p.s {
            if s[i] != 0 {
                return Err(s[i]);
            }
        }
        Ok(p.b[i])
    }
    #[inline]
    pub fn set(&mut self, off: u64, v: Result<u8, E>) {
        let p = Rc::make_mut(&mut self.pages[off as usize / PG]);
        let i = off as usize % PG;
        match v {
            Ok(x) => {
                p.b[i] = x;
                if let Some(s) = &mut p.s {
                    s[i] = 0;
                }
            }
            Err(e) => {
                if p.s.is_none() {
                    p.s = Some(vec![0; p.b.len()].into_boxed_slice());
                }
                p.s.as_mut().unwrap()[i] = e;
            }
        }
    }
    /// Concrete little-endian read of up to 8 bytes, if within one page and concrete.
    #[inline]
    pub fn read_fast(&self, off: u64, n: usize) -> Option<u64> {
        let i = off as usize % PG;
        let p = &self.pages[off as usize / PG];
        if i + n > p.b.len() {
            return None;
        }
        if let Some(s) = &p.s {
            if s[i..i + n].iter().any(|&x| x != 0) {
                return None;
            }
        }
        let b = &p.b[i..i + n];
        Some(match n {
            1 => b[0] as u64,
            2 => u16::from_le_bytes([b[0], b[1]]) as u64,
            4 => u32::from_le_bytes(b.try_into().unwrap()) as u64,
            8 => u64::from_le_bytes(b.try_into().unwrap()),
            _ => {
                let mut v = 0u64;
                for (k, x) in b.iter().enumerate() {
                    v |= (*x as u64) << (8 * k);
                }
                v
            }
        })
    }
    #[inline]
    pub fn write_fast(&mut self, off: u64, n: usize, v: u64) -> bool {
        let i = off as usize % PG;
        let pg = &mut self.pages[off as usize / PG];
        if i + n > pg.b.len() {
            return false;
        }
        let p = Rc::make_mut(pg);
        if let Some(s) = &mut p.s {
            for x in &mut s[i..i + n] {
                *x = 0;
            }
        }
        p.b[i..i + n].copy_from_slice(&v.to_le_bytes()[..n]);
        true
    }
    pub fn copy_from(&mut self, doff: u64, src: &Obj, soff: u64, n: u64) {
        let (mut d, mut s, mut n) = (doff as usize, soff as usize, n as usize);
        while n > 0 {
            let si = s % PG;
            let sp = &src.pages[s / PG];
            let di = d % PG;
            let dpg = &mut self.pages[d / PG];
            let k = n.min(sp.b.len() - si).min(dpg.b.len() - di);
            if si == 0 && di == 0 && k == PG && sp.b.len() == PG && dpg.b.len() == PG {
                *dpg = sp.clone();
            } else {
                let dp = Rc::make_mut(dpg);
                dp.b[di..di + k].copy_from_slice(&sp.b[si..si + k]);
                match (&sp.s, &mut dp.s) {
                    (None, None) => {}
                    (None, Some(t)) => {
                        for x in &mut t[di..di + k] {
                            *x = 0
                        }
                    }
                    (Some(q), _) => {
                        if dp.s.is_none() {
                            if q[si..si + k].iter().any(|&x| x != 0) {
                                dp.s = Some(vec![0; dp.b.len()].into_boxed_slice());
                            }
                        }
                        if let Some(t) = &mut dp.s {
                            t[di..di + k].copy_from_slice(&q[si..si + k]);
                        }
                    }
                }
            }
            d += k;
            s += k;
            n -= k;
        }
    }
    pub fn fill(&mut self, off: u64, n: u64, v: Result<u8, E>) {
        let (mut d, mut n) = (off as usize, n as usize);
        while n > 0 {
            let di = d % PG;
            let pg = &mut self.pages[d / PG];
            let k = n.min(pg.b.len() - di);
            if di == 0 && k == PG && v == Ok(0) {
                *pg = ZERO.with(|z| z.clone());
            } else {
                let p = Rc::make_mut(pg);
                match v {
                    Ok(x) => {
                        for y in &mut p.b[di..di + k] {
                            *y = x
                        }
                        if let Some(s) = &mut p.s {
                            for y in &mut s[di..di + k] {
                                *y = 0
                            }
                        }
                    }
                    Err(e) => {
                        if p.s.is_none() {
                            p.s = Some(vec![0; p.b.len()].into_boxed_slice());
                        }
                        for y in &mut p.s.as_mut().unwrap()[di..di + k] {
                            *y = e
                        }
                    }
                }
            }
            d += k;
            n -= k;
        }
    }
}
